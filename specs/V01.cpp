// Variable labels (V01): every history of up to four operations over three names, checked against the abstract sequence of ranges.
//@ modules src/private/VariablesLabeller.cpp
//@ stubs idyn_core libstdcxx
#include "common.h"
struct Model { std::vector<std::string> name; std::vector<size_t> dim, off; std::vector<double> val; int find(const std::string& n) const { for (size_t i = 0; i < name.size(); ++i) if (name[i] == n) return (int)i; return -1; } };
static const char* const NAMES[3] = {"a", "LeftPositionPoint0", "LeftPositionPoint01"};
static void check(VariablesLabeller& l, const Model& m) {
    const VariablesLabeller& cl = l;
    vp_assert_(l.size() == m.val.size(), "size is the sum of the dimensions"); vp_assert_(l.numberOfLabels() == m.name.size() && l.listOfLabels().size() == m.name.size(), "one label per accepted addition");
    vp_assert_((size_t)l.values().size() == m.val.size() && (size_t)cl.values().size() == m.val.size(), "the full view has the full size");
    size_t covered = 0;
    for (size_t i = 0; i < m.name.size(); ++i) {
        vp_assert_(l.listOfLabels()[i] == m.name[i], "labels are listed in order of addition");
        iDynTree::IndexRange r = l.getIndexRange(m.name[i]);
        vp_assert_(r.isValid() && (size_t)r.offset == covered && (size_t)r.size == m.dim[i], "each range starts where the previous one ended"); covered += m.dim[i];
        auto v1 = l(r), v2 = l(m.name[i]); auto v3 = cl(r), v4 = cl(m.name[i]);
        vp_assert_((size_t)v1.size() == m.dim[i] && (size_t)v2.size() == m.dim[i] && (size_t)v3.size() == m.dim[i] && (size_t)v4.size() == m.dim[i], "views have the dimension of the label");
        for (size_t k = 0; k < m.dim[i]; ++k) { vp_assert_(&v1[k] == &v2[k] && &v3[k] == &v4[k] && &v1[k] == &v3[k] && &v1[k] == &l.values()[m.off[i] + k] && &v1[k] == &l((unsigned)(m.off[i] + k)), "lookups by name, range and index reach the same storage");
            vp_eq_(v1[k], m.val[m.off[i] + k], "values are kept"); vp_eq_(cl((unsigned)(m.off[i] + k)), m.val[m.off[i] + k], "values are kept"); } }
    vp_assert_(covered == m.val.size(), "ranges cover the vector");
    for (int k = 0; k < 3; ++k) if (m.find(NAMES[k]) < 0) { vp_assert_(!l.getIndexRange(NAMES[k]).isValid(), "unknown labels have an invalid range"); vp_assert_(l(std::string(NAMES[k])).size() == 0 && cl(std::string(NAMES[k])).size() == 0, "unknown labels have an empty view"); }
}
static void assignFresh(VariablesLabeller& l, Model& m, int how) {
    Vec v; fill(v, m.val.size(), "v"); for (size_t i = 0; i < m.val.size(); ++i) m.val[i] = v.v((unsigned)i);
    if (how == 0) l = v.v;
    else if (how == 1) { for (size_t i = 0; i < m.name.size(); ++i) { auto s = l(m.name[i]); for (size_t k = 0; k < m.dim[i]; ++k) s[k] = m.val[m.off[i] + k]; } }
    else if (how == 2) { for (size_t i = 0; i < m.name.size(); ++i) { auto s = l(l.getIndexRange(m.name[i])); for (size_t k = 0; k < m.dim[i]; ++k) s[k] = m.val[m.off[i] + k]; } }
    else for (size_t i = 0; i < m.val.size(); ++i) l((unsigned)i) = m.val[i];
}
static void histories(int ops, bool withClear) {
    VariablesLabeller l; Model m; check(l, m);
    for (int o = 0; o < ops; ++o) {
        long op = vp_choose_("operation", 0, withClear ? 3 : 1);
        if (op < 2) { int n = (int)vp_choose_("name", 0, 2); size_t d = (size_t)vp_choose_("dimension", 0, 2); if (d == 2) d = 3; bool dup = m.find(NAMES[n]) >= 0;
            if (op == 0) { bool ok = l.addLabel(NAMES[n], d); vp_assert_(ok == !dup, "an addition is refused exactly when the label exists"); }
            else { iDynTree::IndexRange r = l.addLabelAndGetIndexRange(NAMES[n], d); vp_assert_(r.isValid() == !dup, "an addition is refused exactly when the label exists"); if (!dup) vp_assert_((size_t)r.offset == m.val.size() && (size_t)r.size == d, "the returned range is the new one"); }
            if (!dup) { m.name.push_back(NAMES[n]); m.dim.push_back(d); m.off.push_back(m.val.size()); m.val.resize(m.val.size() + d, 0.0); } }
        else if (op == 2) { l.zero(); for (auto& x : m.val) x = 0; }
        else { l.clear(); m = Model(); }
        check(l, m);
        if (o == ops - 1) { VariablesLabeller copy(l); Model mc = m; assignFresh(copy, mc, 0); check(copy, mc); check(l, m); l = copy; m = mc; check(l, m); }
        assignFresh(l, m, o % 4); check(l, m);
    }
}

//@ spec V01 spec_V01_histories paths=40000
extern "C" void spec_V01_histories() { histories(3, true); }
//@ spec V01 spec_V01_views
extern "C" void spec_V01_views() { Lay L; makeLay(L, (int)vp_choose_("layout", 0, 2), 2, 3, 4); Model m; for (auto& n : L.s.listOfLabels()) { iDynTree::IndexRange r = L.s.getIndexRange(n); m.name.push_back(n); m.dim.push_back((size_t)r.size); m.off.push_back((size_t)r.offset); } m.val.resize(L.ns, 0.0); check(L.s, m); assignFresh(L.s, m, (int)vp_choose_("how", 0, 3)); check(L.s, m); L.s.zero(); m.val.assign(L.ns, 0.0); check(L.s, m); }
