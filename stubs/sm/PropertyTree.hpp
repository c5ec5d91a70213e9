#pragma once
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
namespace sm {
// hierarchical key/value store; a tree can be a view below a prefix of another tree
class PropertyTree {
 public:
  PropertyTree() : _v(std::make_shared<std::map<std::string, std::string> >()) {}
  PropertyTree(const PropertyTree& parent, const std::string& ns) : _v(parent._v), _p(norm(parent._p + ns + "/")) {}
  virtual ~PropertyTree() {}
  double getDouble(const std::string& k) const { return conv<double>(need(k)); }
  double getDouble(const std::string& k, double d) const { return has(k) ? getDouble(k) : d; }
  int getInt(const std::string& k) const { return conv<int>(need(k)); }
  int getInt(const std::string& k, int d) const { return has(k) ? getInt(k) : d; }
  bool getBool(const std::string& k) const { std::string s = need(k); if (s == "true" || s == "1") return true; if (s == "false" || s == "0") return false; throw std::runtime_error("bad bool"); }
  bool getBool(const std::string& k, bool d) const { return has(k) ? getBool(k) : d; }
  std::string getString(const std::string& k) const { return need(k); }
  std::string getString(const std::string& k, const std::string& d) const { return has(k) ? need(k) : d; }
  void setDouble(const std::string& k, double v) { std::ostringstream o; o.precision(17); o << v; set(k, o.str()); }
  void setInt(const std::string& k, int v) { set(k, std::to_string(v)); }
  void setBool(const std::string& k, bool v) { set(k, v ? "true" : "false"); }
  void setString(const std::string& k, const std::string& v) { set(k, v); }
  bool doesKeyExist(const std::string& k) const { return has(k); }
 protected:
  static std::string norm(const std::string& s) {
    std::string o; for (char c : s) if (!(c == '/' && (o.empty() || o.back() == '/'))) o += c; return o;
  }
  std::string key(const std::string& k) const { return norm(_p + k); }
  bool has(const std::string& k) const { return _v->count(key(k)) != 0; }
  std::string need(const std::string& k) const { auto it = _v->find(key(k)); if (it == _v->end()) throw std::runtime_error("no key " + key(k)); return it->second; }
  template <typename T> static T conv(const std::string& s) { std::istringstream i(s); T t; if (!(i >> t)) throw std::runtime_error("bad value"); return t; }
  void set(const std::string& k, const std::string& v) { (*_v)[key(k)] = v; }
  std::shared_ptr<std::map<std::string, std::string> > _v;
  std::string _p;
};
}
