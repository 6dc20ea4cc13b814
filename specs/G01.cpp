// Time-varying references (G01).
//@ modules src/PositionReferenceGenerator.cpp
//@ stubs idyn_core idyn_spatial libstdcxx
#include "common.h"
#include <DynamicalPlanner/PositionReferenceGenerator.h>
using DynamicalPlanner::PositionReferenceGenerator; using DynamicalPlanner::PositionWithTimeRange; using iDynTree::optimalcontrol::TimeRange;
struct Entry { double a = 0, b = 0, p[3] = {0, 0, 0}; bool any = false; };
static void put(PositionReferenceGenerator& g, size_t i, Entry& e) { for (int k = 0; k < 3; ++k) g.at(i).desiredPosition(k) = e.p[k]; if (e.any) g[i].activeRange = TimeRange::AnyTime(); else { bool ok = g[i].activeRange.setTimeInterval(e.a, e.b); vp_assert_(ok, "ordered interval accepted"); } }
static void make(Entry& e, bool any) { for (auto& x : e.p) x = vp_real("desired"); e.any = any; if (!any) { e.a = vp_real("init"); e.b = e.a + vp_nonneg("length"); } }
static void query(PositionReferenceGenerator& g, std::vector<Entry>& E, double f[3], double t) {
    auto W = g.timeVaryingWeight(); auto P = g.timeVaryingReference(); bool v1 = false, v2 = false; int act = -1;
    for (int i = (int)E.size() - 1; i >= 0 && act < 0; --i) if (E[i].any || (t >= E[i].a && t <= E[i].b)) act = i;
    // instants are matched up to a tolerance: times within it are left to either answer
    for (auto& e : E) if (!e.any) { double l = e.b - e.a; vp_assume_((l > 1e-9) | (l == 0)); double d = t - e.a; if (l == 0) vp_assume_((d == 0) | (d > 1e-9) | (d < -1e-9)); }
    VectorDynSize w = W->get(t, v1); iDynTree::Position p = P->get(t, v2); vp_assert_(v1 && v2, "reference and weight always available"); vp_assert_(w.size() == 3, "one weight per direction");
    double s = 0; if (act >= 0) { double l = E[act].b - E[act].a; if (E[act].any || l == 0) s = 0; else s = (t - E[act].a) / l; }
    for (int k = 0; k < 3; ++k) { vp_eq_(p(k), act < 0 ? 0.0 : E[act].p[k], "reference of the last interval containing the time, zero outside"); vp_eq_(w((unsigned)k), act < 0 ? 0.0 : (f[k] * s + 1) * (f[k] * s + 1), "weight grows as configured over the active interval, zero outside"); } }
//@ spec G01 spec_G01_references paths=40000
extern "C" void spec_G01_references() { size_t n = (size_t)vp_choose_("entries", 0, 3); long any = vp_choose_("anyTime", -1, 1); double f[3]; for (auto& x : f) x = vp_real("factor"); std::vector<Entry> E(n);
    PositionReferenceGenerator g((unsigned)n, f[0], f[1], f[2]); for (size_t i = 0; i < n; ++i) { make(E[i], (long)i == any); put(g, i, E[i]); }
    query(g, E, f, vp_real("time")); if (n < 3) query(g, E, f, vp_real("time2")); }
//@ spec G01 spec_G01_resize
extern "C" void spec_G01_resize() { size_t n = (size_t)vp_choose_("entries", 0, 2), m = (size_t)vp_choose_("resized", 0, 3); double f[3]; for (auto& x : f) x = vp_real("factor"); std::vector<Entry> E(n);
    PositionReferenceGenerator g; if (vp_choose_("reinitialised", 0, 1)) { g.init(2, 1, 2, 3); g[0].desiredPosition(0) = 4; g[1].activeRange.setTimeInterval(0, 3); } g.init((unsigned)n, f[0], f[1], f[2]);
    auto W = g.timeVaryingWeight(); auto P = g.timeVaryingReference(); // handed out before the resize
    for (size_t i = 0; i < n; ++i) { make(E[i], false); put(g, i, E[i]); }
    g.resize(m); E.resize(m); const PositionReferenceGenerator& c = g;
    for (size_t i = 0; i < m; ++i) { for (int k = 0; k < 3; ++k) { vp_eq_(c.at(i).desiredPosition(k), E[i].p[k], "resizing keeps existing entries, new ones are zero"); } vp_eq_(c[i].activeRange.initTime(), E[i].a, "resizing keeps existing intervals"); vp_eq_(c[i].activeRange.endTime(), E[i].b, "resizing keeps existing intervals"); }
    vp_assert_(g.timeVaryingWeight() == W && g.timeVaryingReference() == P, "the same reference objects follow the resized entries"); query(g, E, f, vp_real("time")); }
