// Contract of the construction of derivative expressions (the expressions themselves are verified by
// L01, E01, C04, C05 and D02): an expression with one row per row of the original and one column per
// element of the variable.  Used where only what the derivatives would be derived from is examined.
#include <levi/levi.h>
template <int R, int C> using M = Eigen::Matrix<double, R, C>;
template <typename T> using Ev = levi::Evaluable<T>;
template <typename T> using D = levi::ExpressionComponent<typename Ev<T>::derivative_evaluable>;
template <typename T> static D<T> shaped(Ev<T>* self, std::shared_ptr<levi::VariableBase> v) { return levi::ExpressionComponent<levi::NullEvaluable<typename Ev<T>::derivative_evaluable::matrix_type>>(self->rows(), v->dimension()); }
D<M<-1, -1>> full(Ev<M<-1, -1>>* self, Eigen::Index, std::shared_ptr<levi::VariableBase> v) asm("vpcontract__ZN4levi9EvaluableIN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEEvE19getColumnDerivativeElSt10shared_ptrINS_12VariableBaseEE");
D<M<-1, -1>> full(Ev<M<-1, -1>>* self, Eigen::Index, std::shared_ptr<levi::VariableBase> v) { return shaped<M<-1, -1>>(self, v); }
