// Contract of RotatedVectorQuaternionJacobian (verified by spec_Q01_rotated and
// spec_C04_rotated for every vector and quaternion): the Jacobian, with respect to the
// quaternion (w, r), of x + 2 w (r x x) + 2 r x (r x x).
#include <iDynTree/Core/VectorFixSize.h>
#include <iDynTree/Core/MatrixFixSize.h>
#include <DynamicalPlannerPrivate/Utilities/QuaternionUtils.h>
iDynTree::MatrixFixSize<3, 4> contract(const iDynTree::Vector3& x, const iDynTree::Vector4& q) asm("vpcontract__ZN16DynamicalPlanner7Private31RotatedVectorQuaternionJacobianERKN8iDynTree13VectorFixSizeILj3EEERKNS2_ILj4EEE");
iDynTree::MatrixFixSize<3, 4> contract(const iDynTree::Vector3& x, const iDynTree::Vector4& q) {
    iDynTree::MatrixFixSize<3, 4> J; double w = q(0), r[3] = {q(1), q(2), q(3)}, d = r[0] * x(0) + r[1] * x(1) + r[2] * x(2), X[3][3] = {{0, -x(2), x(1)}, {x(2), 0, -x(0)}, {-x(1), x(0), 0}};
    // r x (r x x) = r (r.x) - x (r.r)
    for (unsigned i = 0; i < 3; ++i) { unsigned j = (i + 1) % 3, k = (i + 2) % 3; J(i, 0) = 2 * (r[j] * x(k) - r[k] * x(j));
        for (unsigned m = 0; m < 3; ++m) J(i, m + 1) = -2 * w * X[i][m] + 2 * ((i == m ? d : 0) + r[i] * x(m) - 2 * x(i) * r[m]); }
    return J; }
