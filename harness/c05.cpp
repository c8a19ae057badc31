// C05: static cameras, target at several static poses
#include "ceres_spy.h"
#include "geom.h"
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
using namespace hv;
struct Setup
{
  ro::ExtrinsicMultiStaticCameraOnlyProblem p;
  std::vector<Iso> C, T;
  Setup(Rng& r, int ncam, int npose, int ncorr, double noise, double ja, double jd, bool sparse)
  {
    p.fix_first_camera = r.b();
    Iso W = r.iso(M_PI, 2);  // the rig looks at a common region
    for (int i = 0; i < npose; ++i)
    {
      Iso t = Iso::Identity();
      t.linear() = rod(r.axis() * r.u(0, 0.8));
      t.translation() = r.v3(0.2);
      T.push_back(W * t);
      p.base_to_target_guess.push_back(jiggle(r, T.back(), ja, jd));
    }
    for (int c = 0; c < ncam; ++c)
    {
      p.intr.push_back(camera(r));
      C.push_back(W * camToTarget(r).inverse());
      p.base_to_camera_guess.push_back(c == 0 && p.fix_first_camera && !sparse ? C.back() : jiggle(r, C.back(), ja, jd));
      p.image_observations.emplace_back();
      for (int i = 0; i < npose; ++i)
      {
        ro::Correspondence2D3D::Set s;
        int m = sparse ? r.i(0, ncorr) : ncorr;
        for (int j = 0; j < m; ++j)
        {
          V3 t = tpoint(r);
          s.emplace_back(pix(p.intr[c], C[c].inverse() * (T[i] * t)) + V2(r.u(-noise, noise), r.u(-noise, noise)), t);
        }
        p.image_observations.back().push_back(s);
      }
    }
  }
  std::vector<double> sqs(const std::vector<Iso>& cams, const std::vector<Iso>& ts) const
  {
    std::vector<double> v;
    for (std::size_t c = 0; c < C.size(); ++c)
      for (std::size_t i = 0; i < T.size(); ++i)
        for (auto& q : p.image_observations[c][i]) v.push_back((pix(p.intr[c], cams[c].inverse() * (ts[i] * q.in_target)) - q.in_image).squaredNorm());
    return v;
  }
};
static void spied(Rng& r)
{
  arm(r);
  Setup s(r, r.i(1, 4), r.i(1, 4), 5, 3, 0.05, 0.05, true);
  auto g = s.sqs(s.p.base_to_camera_guess, s.p.base_to_target_guess);
  if (g.empty()) return;
  DESC = "cameras=" + std::to_string(s.C.size()) + " target poses=" + std::to_string(s.T.size()) + " correspondences=" + std::to_string(g.size()) + " fix_first_camera=" + std::to_string(s.p.fix_first_camera);
  nontrivial();
  auto res = ro::optimize(s.p);
  HV_CHECK(res.base_to_camera.size() == s.C.size() && res.base_to_target.size() == s.T.size(), "multi-static:size", "poses returned: cameras " << res.base_to_camera.size() << ", targets " << res.base_to_target.size());
  if (res.base_to_camera.size() != s.C.size() || res.base_to_target.size() != s.T.size()) return;
  checkOptimizer("multi-static", { res.converged, res.initial_cost_per_obs, res.final_cost_per_obs }, s.sqs(res.base_to_camera, res.base_to_target), g, false);
  // only the fixed first camera may be held constant
  HV_CHECK((int)spy.constant.size() <= (s.p.fix_first_camera ? 1 : 0), "multi-static:constant", spy.constant.size() << " parameter blocks are held constant");
  if (s.p.fix_first_camera) HV_ISO(res.base_to_camera[0], s.p.base_to_camera_guess[0], 1e-9, "multi-static:fixed", "fixed first camera");
  for (std::size_t c = s.p.fix_first_camera; c < s.C.size(); ++c)
  {
    bool any = false;
    for (auto& i : s.p.image_observations[c]) any |= !i.empty();
    HV_CHECK(!any || !nearIso(res.base_to_camera[c], s.p.base_to_camera_guess[c], 1e-9), "multi-static:free", "camera " << c << " is not optimised");
    if (!any) HV_ISO(res.base_to_camera[c], s.p.base_to_camera_guess[c], 1e-9, "multi-static:unobserved", "a camera without observations");
  }
  for (std::size_t i = 0; i < s.T.size(); ++i)
  {
    bool any = false;
    for (auto& c : s.p.image_observations) any |= !c[i].empty();
    HV_CHECK(!any || !nearIso(res.base_to_target[i], s.p.base_to_target_guess[i], 1e-9), "multi-static:free", "target pose " << i << " is not optimised");
    if (!any) HV_ISO(res.base_to_target[i], s.p.base_to_target_guess[i], 1e-9, "multi-static:unobserved", "a target pose without observations");
  }
}
static void empty(Rng& r)
{
  arm(r);
  Setup s(r, r.i(1, 3), 0, 3, 0, 0.05, 0.05, true);
  DESC = "no target poses, cameras=" + std::to_string(s.C.size());
  nontrivial();
  auto res = ro::optimize(s.p);
  HV_CHECK(res.base_to_camera.size() == s.C.size(), "multi-static:size", "camera poses returned: " << res.base_to_camera.size());
  for (std::size_t c = 0; c < s.C.size() && c < res.base_to_camera.size(); ++c) HV_ISO(res.base_to_camera[c], s.p.base_to_camera_guess[c], 1e-9, "multi-static:no-target-poses", "camera pose without any target pose");
}
static void real(Rng& r)
{
  spy.real = true;
  spy.fake_cov = false;
  Setup s(r, r.i(2, 3), 5, 14, 0, 0.03, 0.03, false);
  s.p.fix_first_camera = true;
  s.p.base_to_camera_guess[0] = s.C[0];
  DESC = "cameras=" + std::to_string(s.C.size());
  nontrivial();
  auto res = ro::optimize(s.p);
  HV_CHECK(res.converged, "multi-static:real-converged", "noise-free problem with a close guess does not converge");
  for (std::size_t c = 0; c < s.C.size(); ++c) HV_ISO(res.base_to_camera[c], s.C[c], 1e-3, "multi-static:real-camera", "camera pose");
  for (std::size_t c = 0; c < s.T.size(); ++c) HV_ISO(res.base_to_target[c], s.T[c], 1e-3, "multi-static:real-target", "target pose");
  spy.real = false;
  spy.fake_cov = true;
}
int main(int c, char** v) { return run(c, v, { { "spied", 600, 20000, spied }, { "no-target-poses", 10, 100, empty }, { "real", 24, 400, real } }); }
