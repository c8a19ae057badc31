// C02: point transformation and projection
#include "geom.h"
#include <ceres/jet.h>
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_image_tools/image_utils.h>
using namespace hv;
using J = ceres::Jet<double, 3>;

static V3 anyPoint(Rng& r)
{
  double s = std::pow(10.0, r.u(-2, 2));
  V3 p = r.v3(s);
  if (r.b(0.2)) p[0] = 0;
  if (r.b(0.2)) p[1] = 0;
  if (std::abs(p[2]) < 1e-3 * s) p[2] = (r.b() ? 1 : -1) * s * 0.1;
  return p;
}
static void transform(Rng& r)
{
  ro::Pose6d q;
  V3 w = r.axis() * (r.b(0.1) ? 0.0 : r.b(0.1) ? 1e-9 : r.u(0, 6.5));
  V3 t = r.v3(3);
  q.values = { w[0], w[1], w[2], t[0], t[1], t[2] };
  V3 p = anyPoint(r), o, o2;
  DESC = "pose=" + strv({ w[0], w[1], w[2], t[0], t[1], t[2] }) + " point=" + strv({ p[0], p[1], p[2] });
  nontrivial();
  ro::transformPoint(w.data(), t.data(), p.data(), o.data());
  ro::poseTransformPoint(q, p.data(), o2.data());
  V3 s = rod(w) * p + t;
  for (int i = 0; i < 3; ++i)
  {
    HV_NEAR(o[i], s[i], 1e-8, "transformPoint", "component " << i);
    HV_NEAR(o2[i], s[i], 1e-8, "poseTransformPoint", "component " << i);
  }
  // derivative with respect to the point is the rotation
  J jp[3], jo[3];
  for (int i = 0; i < 3; ++i) jp[i] = J(p[i], i);
  ro::poseTransformPoint(q, jp, jo);
  Eigen::Matrix3d R = rod(w);
  for (int i = 0; i < 3; ++i)
  {
    HV_NEAR(jo[i].a, s[i], 1e-8, "poseTransformPoint:jet", "component " << i);
    for (int k = 0; k < 3; ++k) HV_NEAR(jo[i].v[k], R(i, k), 1e-7, "poseTransformPoint:derivative", "d" << i << "/d" << k);
  }
  // derivative with respect to the rotation vector and translation
  using K = ceres::Jet<double, 6>;
  K jw[3], jt[3], kp[3], ko[3];
  for (int i = 0; i < 3; ++i) { jw[i] = K(w[i], i); jt[i] = K(t[i], 3 + i); kp[i] = K(p[i]); }
  ro::transformPoint(jw, jt, kp, ko);
  for (int k = 0; k < 6; ++k)
  {
    double h = 1e-5;
    V3 w1 = w, w2 = w, t1 = t, t2 = t;
    if (k < 3) { w1[k] += h; w2[k] -= h; } else { t1[k - 3] += h; t2[k - 3] -= h; }
    V3 d = ((rod(w1) * p + t1) - (rod(w2) * p + t2)) / (2 * h);
    for (int i = 0; i < 3; ++i) HV_NEAR(ko[i].v[k], d[i], 1e-4 * (1 + p.norm()), "transformPoint:derivative", "d" << i << "/d" << k);
  }
}
static void project(Rng& r)
{
  ro::CameraIntrinsics k = camera(r);
  if (r.b(0.3)) { k.cx() = r.u(-50, 50); k.cy() = 0; }
  V3 p = anyPoint(r);
  if (r.b(0.2)) p[2] = (r.b() ? 1 : -1) * std::pow(10.0, r.u(-7, 3));  // depths from close to the camera to very far away
  double uv[2];
  DESC = "intr=" + strv({ k.values[0], k.values[1], k.values[2], k.values[3] }) + " point=" + strv({ p[0], p[1], p[2] });
  nontrivial();
  V2 s = pix(k, p);
  ro::projectPoint(k, p.data(), uv);
  V2 e = ro::projectPoint(k, p);
  J jp[3], juv[2];
  Eigen::Matrix<J, 3, 1> ep;
  for (int i = 0; i < 3; ++i) ep[i] = jp[i] = J(p[i], i);
  ro::projectPoint(k, jp, juv);
  Eigen::Matrix<J, 2, 1> je = ro::projectPoint(k, ep);
  const char* side = p[2] > 0 ? "" : ":behind";
  double D[2][3] = { { k.values[0] / p[2], 0, -k.values[0] * p[0] / p[2] / p[2] }, { 0, k.values[1] / p[2], -k.values[1] * p[1] / p[2] / p[2] } };
  for (int i = 0; i < 2; ++i)
  {
    HV_NEAR(uv[i], s[i], 1e-9, std::string("projectPoint:array") + side, "component " << i);
    HV_NEAR(e[i], s[i], 1e-9, std::string("projectPoint:vector") + side, "component " << i);
    HV_NEAR(juv[i].a, s[i], 1e-9, std::string("projectPoint:array:jet") + side, "component " << i);
    HV_NEAR(je[i].a, s[i], 1e-9, std::string("projectPoint:vector:jet") + side, "component " << i);
    for (int q = 0; q < 3; ++q)
    {
      HV_NEAR(juv[i].v[q], D[i][q], 1e-8, std::string("projectPoint:array:derivative") + side, "d" << i << "/d" << q);
      HV_NEAR(je[i].v[q], D[i][q], 1e-8, std::string("projectPoint:vector:derivative") + side, "d" << i << "/d" << q);
    }
  }
}
static void reproj(Rng& r)
{
  ro::CameraIntrinsics k = camera(r);
  Iso T = r.iso(M_PI, 2);
  std::vector<V3> pts;
  int n = r.i(0, 30);
  for (int i = 0; i < n; ++i)
  {
    V3 p = anyPoint(r);
    if (std::abs((T * p)[2]) < 1e-3) continue;
    pts.push_back(p);
  }
  DESC = "n=" + std::to_string(pts.size()) + " T=" + str(T);
  nontrivial();
  auto o = rct_image_tools::getReprojections(T, k, pts);
  HV_CHECK(o.size() == pts.size(), "getReprojections:count", o.size() << " pixels for " << pts.size() << " points");
  for (std::size_t i = 0; i < std::min(o.size(), pts.size()); ++i)
  {
    V2 s = pix(k, T * pts[i]);
    HV_NEAR(o[i].x, s[0], 1e-8, "getReprojections", "u of point " << i);
    HV_NEAR(o[i].y, s[1], 1e-8, "getReprojections", "v of point " << i);
  }
}
int main(int c, char** v) { return run(c, v, { { "transform", 2000, 200000, transform }, { "project", 2000, 200000, project }, { "reproject", 400, 20000, reproj } }); }
