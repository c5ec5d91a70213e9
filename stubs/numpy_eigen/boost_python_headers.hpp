// stand-in for numpy_eigen: Boost.Python with Eigen matrices passed by value (here as nested lists)
#pragma once
#include <boost/python.hpp>
#include <boost/python/suite/indexing/vector_indexing_suite.hpp>
#include <Eigen/Core>
namespace boost { namespace python { namespace detail {
// attributes that are matrices are copied, not referenced
template <typename S, int R, int C, int O, int MR, int MC>
struct default_getter_by_ref<Eigen::Matrix<S, R, C, O, MR, MC> > : boost::mpl::false_ {};
}}}
