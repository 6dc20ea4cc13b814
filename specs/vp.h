// Contract language used by the specifications.  Each call is an intrinsic of
// the deductive engine (engine/exec.cpp) and of the native replay runtime
// (native/runtime.cpp).
#pragma once
#include <string>
extern "C" {
double vp_real_(const char* name, double lo, double hi) __attribute__((nothrow));      // universally quantified real (lo/hi only guide sampling)
long vp_nreal_() __attribute__((nothrow));
long vp_choose_(const char* name, long lo, long hi) __attribute__((nothrow));          // enumerated choice lo..hi
void vp_assume_(bool) __attribute__((nothrow));
void vp_assert_(bool, const char* label) __attribute__((nothrow));                     // proof obligation
void vp_eq_(double a, double b, const char* label) __attribute__((nothrow));           // proof obligation a == b over the reals
double vp_diff_(double t, long id) __attribute__((nothrow));                           // partial derivative of the computed value t w.r.t. input id
double vp_diff2_(double t, long id1, long id2) __attribute__((nothrow));
double vp_root_(double p) __attribute__((nothrow));                                    // some r with r*r == p
double vp_uf_(const char* name, const double* args, long n, const char* multiIndex) __attribute__((nothrow));
int vp_sym_() __attribute__((nothrow));
int vp_isundef_(double) __attribute__((nothrow));
void vp_stat_(const char*, long) __attribute__((nothrow));
void vp_assumption_(const char*) __attribute__((nothrow));
void vp_print_(const char*, double) __attribute__((nothrow));
}
struct In { double v; long id; operator double() const { return v; } };
inline double vp_real(const char* n, double lo = -2, double hi = 2) { return vp_real_(n, lo, hi); }
inline In vp_in(const char* n, double lo = -2, double hi = 2) { In r; r.v = vp_real_(n, lo, hi); r.id = vp_nreal_() - 1; return r; }
inline double vp_pos(const char* n, double hi = 3) { double v = vp_real_(n, 0.1, hi); vp_assume_(v > 0.0); return v; }
inline double vp_nonneg(const char* n, double hi = 3) { double v = vp_real_(n, 0.0, hi); vp_assume_(v >= 0.0); return v; }
