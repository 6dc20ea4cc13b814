// Robots used by the kinematics contracts: trees of revolute joints whose masses,
// inertias and geometry are universally quantified; built with the library's own
// model API, so the same robot is loaded in the native runs.
#pragma once
#include "common.h"
#include <levi/levi.h>
#include <DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h>
#include <DynamicalPlannerPrivate/Utilities/TimelySharedKinDynComputations.h>
#include <DynamicalPlannerPrivate/Utilities/ExpressionsServer.h>
#include <iDynTree/Model/Model.h>
#include <iDynTree/Model/Link.h>
#include <iDynTree/Model/RevoluteJoint.h>
#include <iDynTree/KinDynComputations.h>
struct Robot {
    iDynTree::Model m; double mass = 0;
    // geo: 0 = simple numbers, 1 = quantified offsets
    iDynTree::Position pos(const char* n, bool sym, double x, double y, double z) { return sym ? iDynTree::Position(vp_real(n), vp_real(n), vp_real(n)) : iDynTree::Position(x, y, z); }
    void link(const std::string& n, bool sym, double k, bool fullInertia) {
        double ml = sym ? vp_pos("mass") : k; mass += ml; iDynTree::RotationalInertiaRaw I; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) I(i, j) = 0;
        for (int i = 0; i < 3; ++i) I(i, i) = sym && fullInertia ? vp_pos("inertia") : 0.125 * k * (i + 1);
        if (sym && fullInertia) { I(0, 1) = I(1, 0) = vp_real("inertia"); I(0, 2) = I(2, 0) = vp_real("inertia"); I(1, 2) = I(2, 1) = vp_real("inertia"); }
        iDynTree::SpatialInertia si(ml, pos("com", sym, 0.25 * k, -0.5, 0.125), I); iDynTree::Link l; l.setInertia(si); m.addLink(n, l); }
    void joint(const std::string& n, int parent, int child, int axis, bool sym, int turn) { // turn: the child frame at rest is turned by 90 degrees about axis `turn`
        iDynTree::Rotation R = turn == 0 ? iDynTree::Rotation(1, 0, 0, 0, 0, -1, 0, 1, 0) : turn == 1 ? iDynTree::Rotation(0, 0, 1, 0, 1, 0, -1, 0, 0) : turn == 2 ? iDynTree::Rotation(0, -1, 0, 1, 0, 0, 0, 0, 1) : iDynTree::Rotation(1, 0, 0, 0, 1, 0, 0, 0, 1);
        iDynTree::Transform T(R, pos("offset", sym, 0.5, 0.25 * (child + 1), -1)); double d[3] = {0, 0, 0}; d[axis] = 1;
        iDynTree::RevoluteJoint j(T, iDynTree::Axis(iDynTree::Direction(d[0], d[1], d[2]), T.getPosition())); j.setAttachedLinks(parent, child); m.addJoint(n, &j); }
    void frame(const std::string& l, const std::string& f, bool sym, int turn) { iDynTree::Rotation R = turn == 2 ? iDynTree::Rotation(0, -1, 0, 1, 0, 0, 0, 0, 1) : turn == 0 ? iDynTree::Rotation(1, 0, 0, 0, 0, -1, 0, 1, 0) : iDynTree::Rotation(1, 0, 0, 0, 1, 0, 0, 0, 1); m.addAdditionalFrameToLink(l, f, iDynTree::Transform(R, pos("frame", sym, 0.125, -0.25, -0.5))); }
    // a floating base with one, two or three joints
    void build(int dofs, bool sym, bool chain = true, bool fullInertia = false) {
        link("base", sym, 1, fullInertia); for (int i = 0; i < dofs; ++i) link("link" + std::to_string(i), sym, 2 + i, fullInertia);
        for (int i = 0; i < dofs; ++i) joint("j" + std::to_string(i), chain ? i : 0, i + 1, i == 0 ? 2 : i == 1 ? 1 : 0, sym, i == 1 ? 0 : -1);
        if (dofs) { frame("link" + std::to_string(dofs - 1), "l_foot", sym, 2); frame(chain ? (dofs > 1 ? "link0" : "base") : "link0", "r_foot", sym, 0); }
        else { frame("base", "l_foot", sym, 2); frame("base", "r_foot", sym, 0); } }
};
typedef std::shared_ptr<DynamicalPlanner::Private::TimelySharedKinDynComputations> Timed;
inline Timed timed(const iDynTree::Model& m, double tol = -1) { Timed t(new DynamicalPlanner::Private::TimelySharedKinDynComputations()); bool ok = t->loadRobotModel(m); vp_assert_(ok, "robot loaded"); if (tol >= 0) t->setToleranceForUpdate(tol); return t; }
