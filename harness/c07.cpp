// C07: PnP (2D and 3D)
#include "ceres_spy.h"
#include "geom.h"
#include <rct_optimizations/pnp.h>
using namespace hv;

template <typename R>
static OptView view(const R& r) { return { r.converged, r.initial_cost_per_obs, r.final_cost_per_obs }; }

static void pnp2d(Rng& r)
{
  arm(r);
  ro::PnPProblem p;
  p.intr = camera(r);
  Iso truth = camToTarget(r);
  p.camera_to_target_guess = jiggle(r, truth, 0.1, 0.1);
  int n = r.i(r.b(0.2) ? 1 : 4, 40);
  std::vector<double> f, g;
  for (int i = 0; i < n; ++i)
  {
    V3 t = tpoint(r);
    p.correspondences.emplace_back(pix(p.intr, truth * t) + V2(r.u(-3, 3), r.u(-3, 3)), t);
  }
  DESC = "n=" + std::to_string(n) + " guess=" + str(p.camera_to_target_guess);
  nontrivial();
  ro::PnPResult res = ro::optimize(p);
  for (auto& c : p.correspondences)
  {
    f.push_back((pix(p.intr, res.camera_to_target * c.in_target) - c.in_image).squaredNorm());
    g.push_back((pix(p.intr, p.camera_to_target_guess * c.in_target) - c.in_image).squaredNorm());
  }
  checkOptimizer("pnp2d", view(res), f, g);
  checkPoseLabels("pnp2d", res.covariance, p.label_camera_to_target_guess, res.camera_to_target);
}
static void pnp3d(Rng& r)
{
  arm(r);
  ro::PnPProblem3D p;
  Iso truth = camToTarget(r);
  p.camera_to_target_guess = jiggle(r, truth, 0.1, 0.1);
  int n = r.i(1, 40);
  std::vector<double> f, g;
  for (int i = 0; i < n; ++i)
  {
    V3 t = tpoint(r);
    p.correspondences.emplace_back(truth * t + r.v3(0.01), t);
  }
  DESC = "n=" + std::to_string(n) + " guess=" + str(p.camera_to_target_guess);
  nontrivial();
  ro::PnPResult res = ro::optimize(p);
  for (auto& c : p.correspondences)
  {
    f.push_back((res.camera_to_target * c.in_target - c.in_image).squaredNorm());
    g.push_back((p.camera_to_target_guess * c.in_target - c.in_image).squaredNorm());
  }
  checkOptimizer("pnp3d", view(res), f, g);
  checkPoseLabels("pnp3d", res.covariance, p.label_camera_to_target_guess, res.camera_to_target);
}
// end to end with the real solver: noise-free data, guess near the truth (or exactly the identity rotation)
template <typename P, bool D3>
static void real(Rng& r, const char* key)
{
  spy.real = true;
  spy.fake_cov = false;
  P p;
  ro::CameraIntrinsics k = camera(r);
  if constexpr (!D3) p.intr = k;
  Iso truth = Iso::Identity();
  bool ident = r.b(0.4);
  double a = r.u(0.2, 0.6);
  truth.linear() = rod(r.axis() * (ident ? 0.25 : a));
  truth.translation() = V3(r.u(-0.2, 0.2), r.u(-0.2, 0.2), r.u(1.5, 3));
  Iso guess = jiggle(r, truth, 0.1, 0.05);
  if (ident) guess.linear().setIdentity();
  p.camera_to_target_guess = guess;
  for (int i = 0; i < 30; ++i)
  {
    V3 t = tpoint(r);
    if constexpr (D3) p.correspondences.emplace_back(truth * t, t);
    else p.correspondences.emplace_back(pix(k, truth * t), t);
  }
  DESC = std::string(ident ? "identity-rotation guess " : "") + "truth=" + str(truth) + " guess=" + str(guess);
  nontrivial();
  auto res = ro::optimize(p);
  std::string kk = std::string(key) + (ident ? ":identity-guess" : "");
  HV_CHECK(res.converged, kk + ":real-converged", "noise-free problem with a close guess does not converge");
  HV_ISO(res.camera_to_target, truth, 1e-3, kk + ":real-pose", "recovered pose");
  HV_CHECK(res.final_cost_per_obs < 1e-4, kk + ":real-cost", "final cost " << res.final_cost_per_obs);
  spy.real = false;
  spy.fake_cov = true;
}
int main(int c, char** v)
{
  return run(c, v,
             { { "pnp2d", 300, 20000, pnp2d },
               { "pnp3d", 300, 20000, pnp3d },
               { "real2d", 40, 1000, [](Rng& r) { real<ro::PnPProblem, false>(r, "pnp2d"); } },
               { "real3d", 40, 1000, [](Rng& r) { real<ro::PnPProblem3D, true>(r, "pnp3d"); } } });
}
