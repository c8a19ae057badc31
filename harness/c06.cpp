// C06: wrist-only calibration of cameras known relative to each other
#include "ceres_spy.h"
#include "geom.h"
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
using namespace hv;
struct Setup
{
  ro::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
  std::vector<Iso> C;
  Iso T;
  Setup(Rng& r, int ncam, int nimg, int ncorr, double noise, double ja, double jd, bool sparse)
  {
    T = r.iso(M_PI, 0.5);
    p.wrist_to_target_guess = jiggle(r, T, ja, jd);
    Iso W = r.iso(M_PI, 2), D = jiggle(r, Iso::Identity(), ja, jd);
    for (int i = 0; i < nimg; ++i)
    {
      Iso t = Iso::Identity();
      t.linear() = rod(r.axis() * r.u(0, 0.8));
      t.translation() = r.v3(0.2);
      p.wrist_poses.push_back(W * t * T.inverse());
    }
    for (int c = 0; c < ncam; ++c)
    {
      p.intr.push_back(camera(r));
      C.push_back(W * camToTarget(r).inverse());
      p.base_to_camera_guess.push_back(D * C.back());
      p.image_observations.emplace_back();
      for (int i = 0; i < nimg; ++i)
      {
        ro::Correspondence2D3D::Set s;
        int m = sparse ? r.i(0, ncorr) : ncorr;
        for (int j = 0; j < m; ++j)
        {
          V3 t = tpoint(r);
          s.emplace_back(pix(p.intr[c], C[c].inverse() * (p.wrist_poses[i] * (T * t))) + V2(r.u(-noise, noise), r.u(-noise, noise)), t);
        }
        p.image_observations.back().push_back(s);
      }
    }
  }
  std::vector<double> sqs(const std::vector<Iso>& cams, const Iso& wt) const
  {
    std::vector<double> v;
    for (std::size_t c = 0; c < C.size(); ++c)
      for (std::size_t i = 0; i < p.wrist_poses.size(); ++i)
        for (auto& q : p.image_observations[c][i]) v.push_back((pix(p.intr[c], cams[c].inverse() * (p.wrist_poses[i] * (wt * q.in_target))) - q.in_image).squaredNorm());
    return v;
  }
};
static void spied(Rng& r)
{
  arm(r);
  Setup s(r, r.i(1, 4), r.i(1, 4), 5, 3, 0.05, 0.05, true);
  auto g = s.sqs(s.p.base_to_camera_guess, s.p.wrist_to_target_guess);
  if (g.empty()) return;
  DESC = "cameras=" + std::to_string(s.C.size()) + " images=" + std::to_string(s.p.wrist_poses.size()) + " correspondences=" + std::to_string(g.size());
  nontrivial();
  auto res = ro::optimize(s.p);
  HV_CHECK(res.base_to_camera.size() == s.C.size(), "wrist-only:size", "camera poses returned: " << res.base_to_camera.size());
  if (res.base_to_camera.size() != s.C.size()) return;
  checkOptimizer("wrist-only", { res.converged, res.initial_cost_per_obs, res.final_cost_per_obs }, s.sqs(res.base_to_camera, res.wrist_to_target), g);
  Iso d0 = res.base_to_camera[0] * s.p.base_to_camera_guess[0].inverse();
  for (std::size_t c = 1; c < s.C.size(); ++c) HV_ISO(res.base_to_camera[c] * s.p.base_to_camera_guess[c].inverse(), d0, 1e-7, "wrist-only:rigid", "the cameras do not move as one");
  HV_CHECK(!nearIso(d0, Iso::Identity(), 1e-9), "wrist-only:free", "the common correction is not optimised");
  HV_CHECK(!nearIso(res.wrist_to_target, s.p.wrist_to_target_guess, 1e-9), "wrist-only:free", "wrist to target is not optimised");
}
static void real(Rng& r)
{
  spy.real = true;
  spy.fake_cov = false;
  Setup s(r, r.i(1, 3), 10, 14, 0, 0.03, 0.03, false);
  DESC = "cameras=" + std::to_string(s.C.size());
  nontrivial();
  auto res = ro::optimize(s.p);
  HV_CHECK(res.converged, "wrist-only:real-converged", "noise-free problem with a close guess does not converge");
  for (std::size_t c = 0; c < s.C.size(); ++c) HV_ISO(res.base_to_camera[c], s.C[c], 1e-3, "wrist-only:real-camera", "camera pose");
  HV_ISO(res.wrist_to_target, s.T, 1e-3, "wrist-only:real-target", "wrist to target");
  spy.real = false;
  spy.fake_cov = true;
}
int main(int c, char** v) { return run(c, v, { { "spied", 600, 20000, spied }, { "real", 24, 400, real } }); }
