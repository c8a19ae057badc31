// Reference geometry, written from the model equations only.
#pragma once
#include "common.h"
#include <rct_optimizations/types.h>
#include <rct_optimizations/covariance_types.h>

namespace hv
{
namespace ro = rct_optimizations;
inline ro::CameraIntrinsics camera(Rng& r)
{
  ro::CameraIntrinsics k;
  k.fx() = r.u(200, 1200);
  k.fy() = r.u(200, 1200);
  k.cx() = r.u(100, 900);
  k.cy() = r.u(100, 700);
  return k;
}
inline V2 pix(const ro::CameraIntrinsics& k, const V3& p) { return V2(k.values[0] * p[0] / p[2] + k.values[2], k.values[1] * p[1] / p[2] + k.values[3]); }
// angle-axis vector -> rotation (Rodrigues)
inline Eigen::Matrix3d rod(const V3& w)
{
  double a = w.norm();
  Eigen::Matrix3d K;
  K << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0;
  if (a < 1e-12) return Eigen::Matrix3d::Identity() + K;
  return Eigen::Matrix3d::Identity() + std::sin(a) / a * K + (1 - std::cos(a)) / (a * a) * K * K;
}
inline V3 rlog(const Eigen::Matrix3d& R)
{
  Eigen::Quaterniond q(R);
  if (q.w() < 0) q.coeffs() *= -1;
  double s = q.vec().norm();
  if (s < 1e-14) return V3::Zero();
  return 2 * std::atan2(s, q.w()) * q.vec() / s;
}
// a pose from which a target at the origin (points with |p|<0.5) is in front of the camera: camera <- target
inline Iso camToTarget(Rng& r, double ang = 0.9)
{
  Iso t = Iso::Identity();
  t.linear() = rod(r.axis() * r.u(0, ang));
  if (r.b(0.2)) t.linear() = rod(r.axis() * r.u(0, 3.0));
  t.translation() = V3(r.u(-0.4, 0.4), r.u(-0.4, 0.4), r.u(1.5, 3.0));
  return t;
}
inline Iso jiggle(Rng& r, const Iso& t, double a = 0.05, double d = 0.05)
{
  Iso o = t;
  V3 ax = r.axis();
  o.linear() = t.linear() * rod(ax * r.u(0, a));
  o.translation() += r.v3(d);
  return o;
}
inline V3 tpoint(Rng& r) { double z = r.b(0.5) ? 0 : r.u(-0.2, 0.2); double x = r.u(-0.4, 0.4), y = r.u(-0.4, 0.4); return V3(x, y, z); }

// covariance labels: the standard deviation named <prefix>_<c> must be that of the scalar that holds component c of the pose
// (or of its inverse, when the optimiser works on the inverse)


}  // namespace hv
