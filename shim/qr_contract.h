// Contract of Eigen's column-pivoting QR solver for wide systems: requires full row rank, returns some exact solution.
#pragma once
#include <Eigen/Core>
#include <Eigen/Cholesky>
#include <Eigen/Jacobi>
#include <Eigen/Householder>
#define EIGEN_COLPIVOTINGHOUSEHOLDERQR_H
#include "../specs/vp.h"
namespace Eigen {
template <typename MatrixType> class ColPivHouseholderQR {
    Matrix<double, Dynamic, Dynamic, RowMajor> A;
public:
    template <class D> explicit ColPivHouseholderQR(const EigenBase<D>& m) : A(m.derived()) {}
    template <class R> VectorXd solve(const MatrixBase<R>& b0) const {
        VectorXd b = b0; const Index n = A.cols(); VectorXd x(n);
        if (A.rows() != 3 || n < 3 || b.size() != 3) { vp_assert_(false, "linear solve: three equations, at least as many unknowns"); return x; }
        double G[3][3], C[3][3], r[3], y[3];
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (Index k = 0; k < n; ++k) s += A(i, k) * A(j, k); G[i][j] = s; }
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int a = (i + 1) % 3, c = (i + 2) % 3, d = (j + 1) % 3, e = (j + 2) % 3; C[j][i] = G[a][d] * G[c][e] - G[a][e] * G[c][d]; }
        double det = G[0][0] * C[0][0] + G[0][1] * C[1][0] + G[0][2] * C[2][0];
        vp_assert_(det != 0.0, "linear solve: the system has full row rank");
        double args[3 * 16 + 3]; long na = 0; for (int i = 0; i < 3; ++i) for (Index k = 0; k < n && k < 16; ++k) args[na++] = A(i, k); for (int i = 0; i < 3; ++i) args[na++] = b(i);
        for (Index k = 0; k < n; ++k) { char nm[] = "qrFreeA"; nm[6] = (char)('A' + k); x(k) = vp_uf_(nm, args, na, ""); }
        for (int i = 0; i < 3; ++i) { double s = b(i); for (Index k = 0; k < n; ++k) s -= A(i, k) * x(k); r[i] = s; }
        for (int i = 0; i < 3; ++i) y[i] = (C[i][0] * r[0] + C[i][1] * r[1] + C[i][2] * r[2]) / det;
        for (Index k = 0; k < n; ++k) for (int i = 0; i < 3; ++i) x(k) += A(i, k) * y[i];
        return x; }
};
template <typename Derived> const ColPivHouseholderQR<typename MatrixBase<Derived>::PlainObject> MatrixBase<Derived>::colPivHouseholderQr() const { return ColPivHouseholderQR<PlainObject>(derived()); }
}
