// The symbolic expression library (L01): every operator's value, exact first and
// second derivatives, shapes, and re-evaluation after each variable changes.
//@ modules src/private/VariablesLabeller.cpp
//@ stubs idyn_core libstdcxx
#include "common.h"
#include <levi/levi.h>
using Eigen::MatrixXd; using Eigen::VectorXd; using levi::Variable; using levi::Expression;
struct Var { Variable v; int n; double x[4]; long id[4]; const char* nm; Var(int k, const char* name) : v(k, std::string(name)), n(k), nm(name) {}
    void set() { VectorXd w(n); for (int i = 0; i < n; ++i) { In a = vp_in(nm, 0.3, 2); x[i] = a.v; id[i] = a.id; w(i) = a.v; } v = w; }
    VectorXd val() const { VectorXd w(n); for (int i = 0; i < n; ++i) w(i) = x[i]; return w; } };
struct Env { Var x{3, "x"}, y{3, "y"}, s{1, "s"}, q{4, "q"}; bool early; Env() { early = vp_choose_("derivatives built before the first evaluation", 0, 1) == 1;  x.set(); y.set(); s.set(); q.set(); vp_assume_(s.x[0] > 0.0); } Var* var(int k) { return k == 0 ? &x : k == 1 ? &y : k == 2 ? &s : &q; } };
static Eigen::Matrix3d hat(const VectorXd& v) { Eigen::Matrix3d m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
template<class T> static const T& mat(const T& m) { return m; }
static MatrixXd mat(double d) { MatrixXd m(1, 1); m(0, 0) = d; return m; }
template<class E> static void value(E& e, const MatrixXd& r, const char* l) { const MatrixXd m = mat(e.evaluate()); vp_assert_((m.rows() == r.rows()) & (m.cols() == r.cols()), "shape of the value"); for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) vp_eq_(m(i, j), r(i, j), l); }
// e: expression under contract, f: its value by the textbook formula
template<class E, class F> static void check(Env& v, E e, F f, bool second = true) { using D = decltype(e.getColumnDerivative(0, v.x.v)); using DD = decltype(std::declval<D>().getColumnDerivative(0, v.x.v));
    MatrixXd r = f(v); const int R = (int)r.rows(), C = (int)r.cols(); vp_assert_((e.rows() == R) & (e.cols() == C), "declared shape"); E copy = e; auto evaluate = [&]() { value(e, r, "value"); value(copy, r, "value through a copy of the expression"); }; if (!v.early) evaluate();
    std::vector<D> d; std::vector<DD> dd; for (int c = 0; c < C; ++c) for (int k = 0; k < 4; ++k) d.push_back(e.getColumnDerivative(c, v.var(k)->v));
    if (second) for (auto& g : d) for (int k = 0; k < 4; ++k) for (int j = 0; j < g.cols(); ++j) dd.push_back(g.getColumnDerivative(j, v.var(k)->v)); if (v.early) evaluate();
    for (int step = 0; step < 5; ++step) {
        if (step) { v.var(step - 1)->set(); vp_assume_(v.s.x[0] > 0.0); r = f(v); value(e, r, "value after one variable changes"); if (step == 2) value(copy, r, "value of the copy after variables changed"); }
        unsigned n = 0, m = 0; for (int c = 0; c < C; ++c) for (int k = 0; k < 4; ++k) { Var& a = *v.var(k); D& g = d[n++]; vp_assert_((g.rows() == R) & (g.cols() == a.n), "declared shape of the derivative"); const MatrixXd w = mat(g.evaluate()); vp_assert_((w.rows() == R) & (w.cols() == a.n), "shape of the derivative");
            for (int i = 0; i < R; ++i) for (int j = 0; j < a.n; ++j) vp_eq_(w(i, j), vp_diff_(r(i, c), a.id[j]), step ? "derivative after one variable changes" : "derivative of the value");
            if (second) for (int l = 0; l < 4; ++l) { Var& b = *v.var(l); for (int j = 0; j < a.n; ++j) { DD& h = dd[m++]; vp_assert_((h.rows() == R) & (h.cols() == b.n), "declared shape of the second derivative"); const MatrixXd z = mat(h.evaluate()); vp_assert_((z.rows() == R) & (z.cols() == b.n), "shape of the second derivative");
                for (int i = 0; i < R; ++i) for (int o = 0; o < b.n; ++o) vp_eq_(z(i, o), vp_diff2_(r(i, c), a.id[j], b.id[o]), step ? "second derivative after one variable changes" : "second derivative of the value"); } } } } }
#define S(N, EXPR, REF) extern "C" void spec_L01_##N() { Env v; Variable &x = v.x.v, &y = v.y.v, &s = v.s.v, &q = v.q.v; (void)x; (void)y; (void)s; (void)q; check(v, EXPR, [](Env& w) -> MatrixXd { VectorXd X = w.x.val(), Y = w.y.val(), Q = w.q.val(); double S = w.s.x[0]; (void)X; (void)Y; (void)Q; (void)S; return REF; }); }
//@ spec L01 spec_L01_sum
S(sum, x + y, X + Y)
//@ spec L01 spec_L01_difference
S(difference, x - y, X - Y)
//@ spec L01 spec_L01_selfDifference
S(selfDifference, x * s - x, S * X - X)
//@ spec L01 spec_L01_negation
S(negation, -(x * s), -S * X)
//@ spec L01 spec_L01_scaled
S(scaled, s * x + 2.0 * y - y * 3.0, S * X + 2.0 * Y - 3.0 * Y)
//@ spec L01 spec_L01_outer
S(outer, x * y.transpose(), X * Y.transpose())
//@ spec L01 spec_L01_inner
S(inner, x.transpose() * y, (X.transpose() * Y).eval())
//@ spec L01 spec_L01_cross
S(cross, x.skew() * y, hat(X) * Y)
//@ spec L01 spec_L01_doubleCross
S(doubleCross, x.skew() * (y.skew() * x), hat(X) * (hat(Y) * X))
//@ spec L01 spec_L01_skewProduct
S(skewProduct, x.skew() * y.skew(), hat(X) * hat(Y))
//@ spec L01 spec_L01_skew
S(skew, x.skew(), hat(X))
//@ spec L01 spec_L01_vee
S(vee, (x * y.transpose() - y * x.transpose()).vee(), (VectorXd(3) << X(2) * Y(1) - Y(2) * X(1), X(0) * Y(2) - Y(0) * X(2), X(1) * Y(0) - Y(1) * X(0)).finished())
//@ spec L01 spec_L01_power
S(power, s.pow(3), mat(S * S * S))
//@ spec L01 spec_L01_norm
S(norm, (q.transpose() * q).pow(0.5), mat(std::sqrt(Q(0) * Q(0) + Q(1) * Q(1) + Q(2) * Q(2) + Q(3) * Q(3))))
//@ spec L01 spec_L01_quotient
S(quotient, x / s, X / S)
//@ spec L01 spec_L01_matrixQuotient
S(matrixQuotient, (x * y.transpose()) / s, (X * Y.transpose()) / S)
//@ spec L01 spec_L01_normalised
S(normalised, q / (q.transpose() * q).pow(0.5), Q / std::sqrt(Q(0) * Q(0) + Q(1) * Q(1) + Q(2) * Q(2) + Q(3) * Q(3)))
//@ spec L01 spec_L01_transpose
S(transpose, (s(0, 0) * x.skew()).transpose(), S * hat(X).transpose())
//@ spec L01 spec_L01_row
S(row, (x * y.transpose()).row(1), X(1) * Y.transpose())
//@ spec L01 spec_L01_column
S(column, (x * y.transpose()).col(2), X * Y(2))
//@ spec L01 spec_L01_element
S(element, (x * y.transpose())(2, 1), mat(X(2) * Y(1)))
//@ spec L01 spec_L01_block
S(block, (x * q.transpose()).block(1, 1, 2, 3), (X * Q.transpose()).block(1, 1, 2, 3))
//@ spec L01 spec_L01_vertcat
S(vertcat, Expression::Vertcat(x.skew() * y, q * s, "v"), (VectorXd(7) << hat(X) * Y, S * Q).finished())
//@ spec L01 spec_L01_horzcat
S(horzcat, Expression::Horzcat(x.skew(), y * s, "h"), (MatrixXd(3, 4) << hat(X), S * Y).finished())
//@ spec L01 spec_L01_asVariable
S(asVariable, (x.skew() * y).asVariable().skew() * q.block(1, 0, 3, 1), hat(hat(X) * Y) * Q.tail(3))
//@ spec L01 spec_L01_constants
S(constants, levi::Constant((MatrixXd(3, 3) << 1, 2, 3, 4, 5, 6, 7, 8, 10).finished(), "A") * x + levi::Identity(3, 3) * y - levi::Null(3, 3) * x, (MatrixXd(3, 3) << 1, 2, 3, 4, 5, 6, 7, 8, 10).finished() * X + Y)
//@ spec L01 spec_L01_byRows
S(byRows, Expression::ComposeByRows({(x.skew() * y).transpose(), x.transpose() * s(0, 0), y.transpose()}, "rows"), (MatrixXd(3, 3) << (hat(X) * Y).transpose(), S * X.transpose(), Y.transpose()).finished())
//@ spec L01 spec_L01_byCols
S(byCols, Expression::ComposeByCols({x.skew() * y, x * s, y}, "cols"), (MatrixXd(3, 3) << hat(X) * Y, S * X, Y).finished())
//@ spec L01 spec_L01_fixedBlock
S(fixedBlock, ((x * q.transpose()).block<2, 3>(1, 1)), (X * Q.transpose()).block(1, 1, 2, 3))
//@ spec L01 spec_L01_cast
S(cast, (levi::FixedSizeExpression<3, 3>(x.skew()) * levi::FixedSizeExpression<3, 1>(Expression(y * s))), S * hat(X) * Y)
//@ spec L01 spec_L01_rotation
S(rotation, (levi::Identity(3, 3) + 2.0 * q(0, 0) * q.block(1, 0, 3, 1).skew() + 2.0 * q.block(1, 0, 3, 1).skew() * q.block(1, 0, 3, 1).skew()) * x, X + 2.0 * Q(0) * hat(Q.tail(3)) * X + 2.0 * hat(Q.tail(3)) * (hat(Q.tail(3)) * X))
// every accessor of every kind of matrix expression, and products with it (whose derivative goes column by column)
template<class E, class F> static void access(Env& v, E e, F f) { MatrixXd r = f(v); if (!v.early) check(v, e, f, false);
    check(v, e * v.y.v, [&](Env& w) -> MatrixXd { return f(w) * w.y.val(); }); check(v, v.y.v.transpose() * e, [&](Env& w) -> MatrixXd { return w.y.val().transpose() * f(w); });
    for (int i = 0; i < r.rows(); ++i) check(v, e.row(i), [&](Env& w) -> MatrixXd { return f(w).row(i); }, i == 1); for (int j = 0; j < r.cols(); ++j) check(v, e.col(j), [&](Env& w) -> MatrixXd { return f(w).col(j); }, j == 1);
    for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) check(v, e(i, j), [&](Env& w) -> MatrixXd { return mat(f(w)(i, j)); }, i == j);
    check(v, e.block(1, 1, 2, 2), [&](Env& w) -> MatrixXd { return f(w).block(1, 1, 2, 2); }, false); check(v, e.template block<2, 1>(0, 1), [&](Env& w) -> MatrixXd { return f(w).block(0, 1, 2, 1); }, false); check(v, e.transpose(), [&](Env& w) -> MatrixXd { return f(w).transpose(); }, false);
    check(v, e * v.x.v.skew(), [&](Env& w) -> MatrixXd { return f(w) * hat(w.x.val()); }, false); check(v, -(e / v.s.v), [&](Env& w) -> MatrixXd { return -f(w) / w.s.x[0]; }, false);
    auto z = e.squeeze("squeezed"); MatrixXd t = f(v); vp_assert_((z.rows() == t.rows()) & (z.cols() == t.cols()), "declared shape of the squeezed expression"); value(z, t, "value of the squeezed expression"); v.x.set(); t = f(v); value(z, t, "value of the squeezed expression after one variable changes"); v.y.set(); t = f(v); value(z, t, "value of the squeezed expression after one variable changes"); }
#define A(N, EXPR, REF) extern "C" void spec_L01_##N() { Env v; Variable &x = v.x.v, &y = v.y.v, &s = v.s.v, &q = v.q.v; (void)x; (void)y; (void)s; (void)q; access(v, EXPR, [](Env& w) -> MatrixXd { VectorXd X = w.x.val(), Y = w.y.val(), Q = w.q.val(); double S = w.s.x[0]; (void)X; (void)Y; (void)Q; (void)S; return REF; }); }
//@ spec L01 spec_L01_accessSum
A(accessSum, x * y.transpose() + x.skew(), X * Y.transpose() + hat(X))
//@ spec L01 spec_L01_accessDifference
A(accessDifference, x * y.transpose() - y.skew(), X * Y.transpose() - hat(Y))
//@ spec L01 spec_L01_accessNegation
A(accessNegation, -(x * y.transpose()), -X * Y.transpose())
//@ spec L01 spec_L01_accessProduct
A(accessProduct, x.skew() * y.skew(), hat(X) * hat(Y))
//@ spec L01 spec_L01_accessScalarProduct
A(accessScalarProduct, s(0, 0) * x.skew() * 3.0, 3.0 * S * hat(X))
//@ spec L01 spec_L01_accessQuotient
A(accessQuotient, (x * y.transpose()) / s, X * Y.transpose() / S)
//@ spec L01 spec_L01_accessScalarQuotient
A(accessScalarQuotient, (x * y.transpose()) / s(0, 0), X * Y.transpose() / S)
//@ spec L01 spec_L01_accessSkew
A(accessSkew, x.skew(), hat(X))
//@ spec L01 spec_L01_accessTranspose
A(accessTranspose, (x.skew() * y.skew()).transpose(), (hat(X) * hat(Y)).transpose())
//@ spec L01 spec_L01_accessHorzcat
A(accessHorzcat, Expression::Horzcat(x * y.transpose().block(0, 0, 1, 2), y * s, "h"), (MatrixXd(3, 3) << X * Y.head(2).transpose(), S * Y).finished())
//@ spec L01 spec_L01_accessVertcat
A(accessVertcat, Expression::Vertcat(x.transpose() * s(0, 0), y.block(0, 0, 2, 1) * x.transpose(), "v"), (MatrixXd(3, 3) << S * X.transpose(), Y.head(2) * X.transpose()).finished())
//@ spec L01 spec_L01_accessByRows
A(accessByRows, Expression::ComposeByRows({(x.skew() * y).transpose(), x.transpose() * s(0, 0), y.transpose()}, "rows"), (MatrixXd(3, 3) << (hat(X) * Y).transpose(), S * X.transpose(), Y.transpose()).finished())
//@ spec L01 spec_L01_accessByCols
A(accessByCols, Expression::ComposeByCols({x.skew() * y, x * s, y}, "cols"), (MatrixXd(3, 3) << hat(X) * Y, S * X, Y).finished())
//@ spec L01 spec_L01_accessBlock
A(accessBlock, (x * q.transpose()).block(0, 1, 3, 3), (X * Q.transpose()).block(0, 1, 3, 3))
//@ spec L01 spec_L01_accessFixedBlock
A(accessFixedBlock, ((x * q.transpose()).block<3, 3>(0, 1)), (X * Q.transpose()).block(0, 1, 3, 3))
//@ spec L01 spec_L01_accessJacobian
A(accessJacobian, (x.skew() * (y.skew() * x)).getColumnDerivative(0, x), -hat(hat(Y) * X) + hat(X) * hat(Y))
//@ spec L01 spec_L01_accessConstant
A(accessConstant, levi::Constant((MatrixXd(3, 3) << 1, 2, 3, 4, 5, 6, 7, 8, 10).finished(), "A"), (MatrixXd(3, 3) << 1, 2, 3, 4, 5, 6, 7, 8, 10).finished())
//@ spec L01 spec_L01_accessIdentity
A(accessIdentity, levi::Identity(3, 3), MatrixXd::Identity(3, 3))
//@ spec L01 spec_L01_accessNull
A(accessNull, levi::Null(3, 3), MatrixXd::Zero(3, 3))
