// C08: PnP with several cameras of known pose
#include "ceres_spy.h"
#include "geom.h"
#include <rct_optimizations/experimental/multi_camera_pnp.h>
using namespace hv;
struct Setup
{
  ro::MultiCameraPnPProblem p;
  Iso T;
  Setup(Rng& r, int ncam, int ncorr, double noise, double ja, double jd, bool sparse)
  {
    T = r.iso(M_PI, 2);
    if (sparse && r.b(0.1)) T.linear().setIdentity();
    p.base_to_target_guess = r.b(0.1) ? T : jiggle(r, T, ja, jd);
    for (int c = 0; c < ncam; ++c)
    {
      p.intr.push_back(camera(r));
      p.base_to_camera.push_back(T * camToTarget(r).inverse());
      ro::Correspondence2D3D::Set s;
      int m = sparse ? r.i(0, ncorr) : ncorr;
      for (int j = 0; j < m; ++j)
      {
        V3 t = tpoint(r);
        s.emplace_back(pix(p.intr[c], p.base_to_camera[c].inverse() * (T * t)) + V2(r.u(-noise, noise), r.u(-noise, noise)), t);
      }
      p.image_observations.push_back(s);
    }
  }
  std::vector<double> sqs(const Iso& t) const
  {
    std::vector<double> v;
    for (std::size_t c = 0; c < p.intr.size(); ++c)
      for (auto& q : p.image_observations[c]) v.push_back((pix(p.intr[c], p.base_to_camera[c].inverse() * (t * q.in_target)) - q.in_image).squaredNorm());
    return v;
  }
};
static void spied(Rng& r)
{
  arm(r);
  Setup s(r, r.i(1, 5), 8, 3, 0.05, 0.05, true);
  auto g = s.sqs(s.p.base_to_target_guess);
  if (g.empty()) return;
  DESC = "cameras=" + std::to_string(s.p.intr.size()) + " correspondences=" + std::to_string(g.size()) + " guess=" + str(s.p.base_to_target_guess);
  nontrivial();
  auto res = ro::optimize(s.p);
  checkOptimizer("multi-pnp", { res.converged, res.initial_cost_per_obs, res.final_cost_per_obs }, s.sqs(res.base_to_target), g);
  HV_CHECK(!nearIso(res.base_to_target, s.p.base_to_target_guess, 1e-9), "multi-pnp:free", "the pose is not optimised");
}
static void real(Rng& r)
{
  spy.real = true;
  spy.fake_cov = false;
  Setup s(r, r.i(1, 4), 14, 0, 0.05, 0.05, false);
  DESC = "cameras=" + std::to_string(s.p.intr.size());
  nontrivial();
  auto res = ro::optimize(s.p);
  HV_CHECK(res.converged, "multi-pnp:real-converged", "noise-free problem with a close guess does not converge");
  HV_ISO(res.base_to_target, s.T, 1e-3, "multi-pnp:real-target", "base to target");
  spy.real = false;
  spy.fake_cov = true;
}
int main(int c, char** v) { return run(c, v, { { "spied", 900, 30000, spied }, { "real", 40, 800, real } }); }
