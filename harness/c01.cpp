// C01: pose conversions
#include "geom.h"
#include <rct_optimizations/eigen_conversions.h>
using namespace hv;
static void rt(Rng& r)
{
  double ang;
  switch (r.i(0, 9))
  {
    case 0: ang = 0; break;
    case 1: ang = M_PI; break;
    case 2: ang = r.u(0, 1e-9); break;
    case 3: ang = r.u(1e-9, 1e-6); break;
    case 4: ang = M_PI - r.u(0, 1e-7); break;
    case 5: ang = M_PI / 2 * r.i(1, 2); break;
    default: ang = r.u(0, M_PI);
  }
  V3 ax = r.axis();
  if (r.b(0.3)) { ax.setZero(); ax[r.i(0, 2)] = r.b() ? 1 : -1; }
  Iso T = Iso::Identity();
  T.linear() = Eigen::AngleAxisd(ang, ax).toRotationMatrix();
  T.translation() = r.v3(r.b(0.2) ? 1e4 : 3);
  DESC = "pose " + str(T);
  nontrivial();
  ro::Pose6d p = ro::poseEigenToCal(T);
  V3 w(p.values[0], p.values[1], p.values[2]), t(p.values[3], p.values[4], p.values[5]);
  HV_NEAR((t - T.translation()).norm(), 0, 1e-12, "cal:translation", "translation of the 6-vector");
  HV_NEAR((rod(w) - T.linear()).norm(), 0, 1e-6, "cal:rotation", "exponential of the rotation part differs from the rotation by");
  Iso back = ro::poseCalToEigen(p);
  HV_ISO(back, T, 1e-6, "roundtrip", "pose -> 6-vector -> pose");
}
static void cal(Rng& r)
{
  ro::Pose6d p;
  V3 w = r.axis();
  switch (r.i(0, 6))
  {
    case 0: w *= 0; break;
    case 1: w *= r.u(0, 1.4e-8); break;
    case 2: w *= r.u(1.6e-8, 1e-6); break;
    case 3: w *= r.u(3, 15); break;
    case 4: { double m = r.u(0, 3); int k = r.i(0, 2); w.setZero(); w[k] = m; break; }
    default: w *= r.u(0, M_PI);
  }
  V3 t = r.v3(4);
  for (int i = 0; i < 3; ++i) { p.values[i] = w[i]; p.values[3 + i] = t[i]; }
  DESC = "6-vector " + str(w.transpose()) + " " + str(t.transpose());
  nontrivial();
  Iso T = ro::poseCalToEigen(p);
  Iso want = Iso::Identity();
  want.linear() = rod(w);
  want.translation() = t;
  HV_ISO(T, want, 1e-9, "eigen", "pose of a 6-vector");
  HV_NEAR((T.linear().transpose() * T.linear() - Eigen::Matrix3d::Identity()).norm(), 0, 1e-9, "orthonormal", "R^T R - I");
  HV_CHECK(T.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), "bottom-row", "bottom row " << T.matrix().row(3));
  ro::Pose6d q = ro::poseEigenToCal(T);
  HV_NEAR((rod(V3(q.rx(), q.ry(), q.rz())) - want.linear()).norm(), 0, 1e-6, "cal-roundtrip", "6-vector -> pose -> 6-vector, rotation");
  HV_NEAR((V3(q.x(), q.y(), q.z()) - t).norm(), 0, 1e-12, "cal-roundtrip-t", "6-vector -> pose -> 6-vector, translation");
}
int main(int c, char** v) { return run(c, v, { { "pose", 4000, 400000, rt }, { "vector", 4000, 400000, cal } }); }
