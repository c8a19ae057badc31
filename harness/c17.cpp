// C17: back-projection of pixels onto planes in arbitrary poses, and the 3D projection errors of observations
#include "geom.h"
#include <rct_optimizations/validation/projection.h>
using namespace hv;
static Iso planePose(Rng& r)
{
  Iso t = camToTarget(r, 1.2);
  if (r.b(0.2)) t.translation() *= -1;  // a plane behind the camera is still met by the line of the pixel
  if (r.b(0.1)) t.translation() *= 100;
  return t;
}
static void intersection(Rng& r)
{
  V3 n = r.axis(), p = r.v3(5), l = r.axis(), o = r.v3(5);
  double eps = std::pow(10, r.u(-8, -1));
  if (r.b(0.3)) { l = (l - n * n.dot(l)).normalized(); l = (l + n * eps * r.u(-3, 3)).normalized(); }
  if (r.b(0.2)) n *= r.u(0.1, 3);
  if (r.b(0.2)) l *= r.u(0.1, 3);
  bool dflt = r.b(0.3);
  if (dflt) eps = 1e-6;
  std::ostringstream s;
  s << "normal " << n.transpose() << " point " << p.transpose() << " line " << l.transpose() << " through " << o.transpose() << " eps " << eps;
  DESC = s.str();
  double dp = std::abs(n.dot(l));
  if (std::abs(dp - eps) < 1e-12) return;
  nontrivial();
  try
  {
    V3 x = dflt ? ro::computeLinePlaneIntersection(n, p, l, o) : ro::computeLinePlaneIntersection(n, p, l, o, eps);
    HV_CHECK(dp >= eps, "intersection:parallel-accepted", "a parallel line is accepted");
    double sc = 1 + (x - o).norm();
    HV_NEAR(n.dot(x - p) / sc, 0, 1e-9, "intersection:plane", "distance from the plane");
    HV_NEAR((x - o).cross(l).norm() / sc, 0, 1e-9, "intersection:line", "distance from the line");
  }
  catch (const std::runtime_error&)
  {
    HV_CHECK(dp < eps, "intersection:refused", "a line that meets the plane is refused, |cos| " << dp);
  }
}
static void projection(Rng& r)
{
  ro::CameraIntrinsics k = camera(r);
  Iso T = planePose(r);
  int n = r.i(0, 12);
  double skew = r.b(0.3) ? r.u(-50, 50) : 0;
  Eigen::Matrix3d K;
  K << k.fx(), skew, k.cx(), 0, k.fy(), k.cy(), 0, 0, 1;
  Eigen::MatrixX2d px(n, 2);
  for (int i = 0; i < n; ++i) px.row(i) << r.u(0, 1200), r.u(0, 1000);
  DESC = "pose " + str(T) + " camera " + str(K) + " pixels " + str(px);
  // rays and their angle with the plane
  bool parallel = false;
  for (int i = 0; i < n; ++i)
  {
    double y = (px(i, 1) - k.cy()) / k.fy();
    V3 d((px(i, 0) - k.cx() - skew * y) / k.fx(), y, 1);
    double c = std::abs(d.normalized().dot(T.linear().col(2)));
    if (c < 1e-3 && c > 1e-9) return;
    if (c < 1e-3) parallel = true;
  }
  if (parallel) return;
  nontrivial();
  Eigen::MatrixX3d q = ro::project3D(px, T, K);
  HV_CHECK(q.rows() == n, "project:count", q.rows() << " points for " << n << " pixels");
  if (q.rows() != n) return;
  for (int i = 0; i < n; ++i)
  {
    V3 x = q.row(i).transpose(), c = T * x;
    double sc = 1 + c.norm();
    HV_NEAR(x[2] / sc, 0, 1e-7, "project:plane", "height over the plane of point " << i);
    V3 h = K * c;
    HV_NEAR(h[0] / h[2] / 1000, px(i, 0) / 1000, 1e-6, "project:u", "pixel " << i << " projected back");
    HV_NEAR(h[1] / h[2] / 1000, px(i, 1) / 1000, 1e-6, "project:v", "pixel " << i << " projected back");
  }
}
static void parallel(Rng& r)
{
  ro::CameraIntrinsics k = camera(r);
  Eigen::Matrix3d K;
  K << k.fx(), 0, k.cx(), 0, k.fy(), k.cy(), 0, 0, 1;
  int n = r.i(1, 6), bad = r.i(0, n - 1);
  Eigen::MatrixX2d px(n, 2);
  for (int i = 0; i < n; ++i) px.row(i) << r.u(0, 1200), r.u(0, 1000);
  V3 d((px(bad, 0) - k.cx()) / k.fx(), (px(bad, 1) - k.cy()) / k.fy(), 1);
  d.normalize();
  Iso T = Iso::Identity();
  V3 z = d.cross(r.axis()).normalized();
  T.linear().col(0) = d; T.linear().col(1) = z.cross(d); T.linear().col(2) = z;
  T.translation() = V3(0.1, 0.2, 2);
  DESC = "pose " + str(T) + " pixel " + str(px.row(bad));
  nontrivial();
  bool thrown = false;
  try { ro::project3D(px, T, K); }
  catch (const std::runtime_error&) { thrown = true; }
  HV_CHECK(thrown, "project:parallel", "a ray parallel to the plane is accepted");
}
static void errors(Rng& r)
{
  ro::CameraIntrinsics k = camera(r);
  Iso C = r.iso(3, 1), B = r.iso(3, 1);
  ro::Observation2D3D::Set set;
  std::vector<double> want;
  int no = r.i(0, 5);
  for (int i = 0; i < no; ++i)
  {
    ro::Observation2D3D o;
    Iso ct = camToTarget(r, 0.9);
    o.to_target_mount = r.iso(3, 2);
    o.to_camera_mount = o.to_target_mount * B * ct.inverse() * C.inverse();
    // C^-1 cm^-1 tm B = ct
    int n = r.b(0.1) ? 0 : r.i(1, 8);
    bool flat = std::abs(ct.linear()(2, 2)) < 0.3;
    if (flat) n = 0;
    for (int j = 0; j < n; ++j)
    {
      V3 p = tpoint(r), plane(p[0], p[1], 0);
      ro::Correspondence2D3D c;
      c.in_image = pix(k, ct * plane);
      V3 off = r.v3(0.05);
      if (r.b(0.2)) off.setZero();
      c.in_target = plane + off;
      o.correspondence_set.push_back(c);
      want.push_back(off.norm());
    }
    set.push_back(o);
  }
  std::ostringstream s;
  s << no << " observations, " << want.size() << " correspondences";
  DESC = s.str();
  nontrivial();
  Eigen::ArrayXd e = ro::compute3DProjectionError(set, k, C, B);
  HV_CHECK(e.size() == (Eigen::Index)want.size(), "error:count", e.size() << " errors for " << want.size() << " correspondences");
  if (e.size() == (Eigen::Index)want.size())
    for (std::size_t i = 0; i < want.size(); ++i) HV_NEAR(e[i], want[i], 1e-6, "error:value", "error " << i);
  std::size_t a = 0;
  for (const auto& o : set)
  {
    Eigen::ArrayXd f = ro::compute3DProjectionError(o, k, C, B);
    HV_CHECK(f.size() == (Eigen::Index)o.correspondence_set.size(), "error:one:count", f.size());
    for (Eigen::Index i = 0; i < f.size() && a < want.size(); ++i) HV_NEAR(f[i], want[a++], 1e-6, "error:one:value", "error " << i);
  }
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "intersection", 3000, 40000, intersection }, { "projection", 3000, 40000, projection }, { "parallel", 300, 4000, parallel }, { "errors", 1500, 20000, errors } });
}
