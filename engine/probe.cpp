// functions of the native headers that the extension does not export
#include <type_traits>
#include <cmath>
#include <functional>
#include "lanczos.h"
#include "eigen_operators.h"
#include <pybind11/pybind11.h>
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
namespace py = pybind11;
using arr = py::array_t<double, py::array::f_style>;
PYBIND11_MODULE(_probe, m) {
  m.def("mod", [](int a, int b){ return mod(a, b); });
  m.def("orth_vector", [](Eigen::Ref<Eigen::VectorXd> v, const Eigen::Ref<const Eigen::MatrixXd> U, int s, int p, bool r){ orth_vector<double>(v, U, s, p, r); });
  m.def("dense_matvec", [](const Eigen::MatrixXd& A, arr x, arr y){ DenseEigenLinearOperator<double> op(A); op.matvec(x.data(), y.mutable_data()); });
  m.def("sparse_matvec", [](const Eigen::SparseMatrix<double>& A, arr x, arr y){ SparseEigenLinearOperator<double, false> op(A); op.matvec(x.data(), y.mutable_data()); });
  m.def("dense_shape", [](const Eigen::MatrixXd& A){ DenseEigenLinearOperator<double> op(A); auto s = op.shape(); return py::make_tuple(s.first, s.second); });
  m.def("sparse_shape", [](const Eigen::SparseMatrix<double>& A){ SparseEigenLinearOperator<double, false> op(A); auto s = op.shape(); return py::make_tuple(s.first, s.second); });
}
