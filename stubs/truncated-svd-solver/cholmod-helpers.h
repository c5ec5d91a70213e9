#pragma once
#include <cholmod.h>
namespace truncated_svd_solver {
template <typename T> struct CholmodFree;
template <> struct CholmodFree<cholmod_sparse> { static void free(cholmod_sparse** p, cholmod_common* c) { cholmod_l_free_sparse(p, c); } };
template <> struct CholmodFree<cholmod_dense> { static void free(cholmod_dense** p, cholmod_common* c) { cholmod_l_free_dense(p, c); } };
template <typename T> class SelfFreeingCholmodPtr {
 public:
  SelfFreeingCholmodPtr(T* p, cholmod_common& c) : _p(p), _c(c) {}
  SelfFreeingCholmodPtr(const SelfFreeingCholmodPtr&) = delete;
  SelfFreeingCholmodPtr& operator=(const SelfFreeingCholmodPtr&) = delete;
  ~SelfFreeingCholmodPtr() { if (_p) CholmodFree<T>::free(&_p, &_c); }
  operator T*() { return _p; }
  T* operator->() { return _p; }
  bool operator==(std::nullptr_t) const { return _p == nullptr; }
  bool operator!=(std::nullptr_t) const { return _p != nullptr; }
 private:
  T* _p;
  cholmod_common& _c;
};
}
