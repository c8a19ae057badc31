// C04: static cameras, moving target
#include "ceres_spy.h"
#include "geom.h"
#include <rct_optimizations/extrinsic_multi_static_camera.h>
using namespace hv;
struct Setup
{
  ro::ExtrinsicMultiStaticCameraMovingTargetProblem p;
  std::vector<Iso> C;
  Iso T;
  Setup(Rng& r, int ncam, int nimg, int ncorr, double noise, double ja, double jd, bool sparse)
  {
    T = r.iso(M_PI, 0.5);
    p.wrist_to_target_guess = jiggle(r, T, ja, jd);
    for (int c = 0; c < ncam; ++c)
    {
      p.intr.push_back(camera(r));
      C.push_back(r.iso(M_PI, 2));
      p.base_to_camera_guess.push_back(jiggle(r, C.back(), ja, jd));
      p.wrist_poses.emplace_back();
      p.image_observations.emplace_back();
      int n = sparse ? r.i(0, nimg) : nimg;
      for (int i = 0; i < n; ++i)
      {
        Iso ct = camToTarget(r);
        p.wrist_poses.back().push_back(C.back() * ct * T.inverse());
        ro::Correspondence2D3D::Set s;
        int m = sparse ? r.i(0, ncorr) : ncorr;
        for (int j = 0; j < m; ++j)
        {
          V3 t = tpoint(r);
          s.emplace_back(pix(p.intr[c], ct * t) + V2(r.u(-noise, noise), r.u(-noise, noise)), t);
        }
        p.image_observations.back().push_back(s);
      }
    }
  }
  std::vector<double> sqs(const std::vector<Iso>& cams, const Iso& wt) const
  {
    std::vector<double> v;
    for (std::size_t c = 0; c < C.size(); ++c)
      for (std::size_t i = 0; i < p.wrist_poses[c].size(); ++i)
        for (auto& q : p.image_observations[c][i]) v.push_back((pix(p.intr[c], cams[c].inverse() * (p.wrist_poses[c][i] * (wt * q.in_target))) - q.in_image).squaredNorm());
    return v;
  }
};
static void spied(Rng& r)
{
  arm(r);
  Setup s(r, r.i(1, 4), r.i(1, 4), 5, 3, 0.05, 0.05, true);
  auto g = s.sqs(s.p.base_to_camera_guess, s.p.wrist_to_target_guess);
  if (g.empty()) return;
  // the stand-in knows a covariance only for parameters in the problem
  bool every = true;
  for (auto& c : s.p.image_observations) { bool any = false; for (auto& i : c) any |= !i.empty(); every &= any; }
  if (!every) return;
  if (r.b()) { s.p.label_base_to_camera = "cam"; s.p.label_wrist_to_target = "tgt"; }
  DESC = "cameras=" + std::to_string(s.C.size()) + " correspondences=" + std::to_string(g.size()) + " target guess=" + str(s.p.wrist_to_target_guess);
  nontrivial();
  auto res = ro::optimize(s.p);
  HV_CHECK(res.base_to_camera.size() == s.C.size(), "multi-moving:size", "camera poses returned: " << res.base_to_camera.size());
  if (res.base_to_camera.size() != s.C.size()) return;
  checkOptimizer("multi-moving", { res.converged, res.initial_cost_per_obs, res.final_cost_per_obs }, s.sqs(res.base_to_camera, res.wrist_to_target), g);
  for (std::size_t c = 0; c < s.C.size(); ++c) checkPoseLabels("multi-moving", res.covariance, s.p.label_base_to_camera + std::to_string(c), res.base_to_camera[c]);
  checkPoseLabels("multi-moving", res.covariance, s.p.label_wrist_to_target, res.wrist_to_target);
}
static void real(Rng& r)
{
  spy.real = true;
  spy.fake_cov = false;
  Setup s(r, r.i(1, 3), 8, 14, 0, 0.03, 0.03, false);
  DESC = "cameras=" + std::to_string(s.C.size());
  nontrivial();
  auto res = ro::optimize(s.p);
  HV_CHECK(res.converged, "multi-moving:real-converged", "noise-free problem with a close guess does not converge");
  for (std::size_t c = 0; c < s.C.size(); ++c) HV_ISO(res.base_to_camera[c], s.C[c], 1e-3, "multi-moving:real-camera", "camera pose");
  HV_ISO(res.wrist_to_target, s.T, 1e-3, "multi-moving:real-target", "wrist to target");
  spy.real = false;
  spy.fake_cov = true;
}
int main(int c, char** v) { return run(c, v, { { "spied", 600, 20000, spied }, { "real", 24, 400, real } }); }
