// C09: intrinsic calibration
#include "ceres_spy.h"
#include "geom.h"
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/pnp.h>
using namespace hv;

static V2 distort(const ro::CameraIntrinsics& k, const std::array<double, 5>& d, const V3& q)
{
  double x = q[0] / q[2], y = q[1] / q[2], r2 = x * x + y * y;
  double g = 1 + d[0] * r2 + d[1] * r2 * r2 + d[4] * r2 * r2 * r2;
  double xd = x * g + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x);
  double yd = y * g + d[2] * (r2 + 2 * y * y) + 2 * d[3] * x * y;
  return V2(k.fx() * xd + k.cx(), k.fy() * yd + k.cy());
}

static void calib(Rng& r)
{
  arm(r);
  spy.check_jac = false;
  ro::IntrinsicEstimationProblem p;
  p.intrinsics_guess = camera(r);
  p.use_extrinsic_guesses = r.b();
  int n = r.i(1, 6);
  std::set<int> bad;  // number of correspondences of the images whose PnP fails
  std::vector<bool> usable;
  std::vector<Iso> truth;
  std::string desc;
  int kind = r.i(0, 3);  // 0: all images fail
  for (int i = 0; i < n; ++i)
  {
    Iso T = Iso::Identity();
    T.linear() = rod(r.axis() * r.u(0.05, 0.4)) * rod(V3(M_PI, 0, 0));
    T.translation() = V3(r.u(-0.2, 0.2), r.u(-0.2, 0.2), r.u(1.2, 2.5));
    truth.push_back(T);
    int m = 8 + i * 3 + r.i(0, 2);
    ro::Correspondence2D3D::Set c;
    for (int j = 0; j < m; ++j)
    {
      V3 t(r.u(-0.5, 0.5), r.u(-0.5, 0.5), r.u(-0.1, 0.1));
      c.emplace_back(pix(p.intrinsics_guess, T * t) + V2(r.u(-2, 2), r.u(-2, 2)), t);
    }
    bool u = kind == 0 ? false : kind == 1 ? true : r.b(0.6);
    if (!u) bad.insert(m);
    usable.push_back(u);
    p.image_observations.push_back(c);
    desc += " image" + std::to_string(i) + ":" + std::to_string(m) + (u ? "" : "(PnP fails)");
  }
  bool any = false;
  spy.mode = [&](ceres::Problem* q) {
    std::vector<double*> ps;
    q->GetParameterBlocks(&ps);
    for (auto* b : ps)
      if (q->ParameterBlockSize(b) == 9) return 0;
    return bad.count(q->NumResidualBlocks()) ? 2 : 1;
  };
  // PnP solutions of the images, from a different guess; an image whose solution is not unique up to tolerance is not usable here
  std::vector<Iso> pnp;
  for (int i = 0; i < n; ++i)
  {
    ro::PnPProblem q;
    q.intr = p.intrinsics_guess;
    q.correspondences = p.image_observations[i];
    q.camera_to_target_guess = truth[i];
    auto saved = bad;
    bad.clear();
    ro::PnPResult s = ro::optimize(q);
    bad = saved;
    if (!s.converged) { usable[i] = false; bad.insert((int)q.correspondences.size()); }
    pnp.push_back(s.camera_to_target);
    any |= usable[i];
  }
  DESC = "images=" + std::to_string(n) + desc + " fx=" + std::to_string(p.intrinsics_guess.fx());
  nontrivial();
  ro::IntrinsicEstimationResult res;
  bool threw = false;
  // hush the per-image notes
  std::streambuf* old = std::cout.rdbuf(nullptr);
  try { res = ro::optimize(p); }
  catch (const std::runtime_error&) { threw = true; }
  std::cout.rdbuf(old);
  std::cout.clear();
  HV_CHECK(threw == !any, "intrinsic:no-image", (threw ? "threw although some image has a PnP solution" : "returned although no image has a PnP solution"));
  if (threw || !any) { spy.mode = nullptr; return; }
  HV_CHECK(res.target_transforms.size() == (std::size_t)n, "intrinsic:poses", "target poses: " << res.target_transforms.size() << " for " << n << " images");
  std::vector<double> f, g;
  std::array<double, 5> zero{ { 0, 0, 0, 0, 0 } };
  for (int i = 0; i < n && i < (int)res.target_transforms.size(); ++i)
  {
    if (!usable[i]) continue;
    for (auto& c : p.image_observations[i])
    {
      f.push_back((distort(res.intrinsics, res.distortions, res.target_transforms[i] * c.in_target) - c.in_image).squaredNorm());
      g.push_back((distort(p.intrinsics_guess, zero, pnp[i] * c.in_target) - c.in_image).squaredNorm());
    }
  }
  // the start: total squared error of the PnP solutions (the local minimum the code's own PnP finds may differ by tolerance only)
  double s0 = 0, s1 = 0;
  for (auto& b : spy.blocks) s0 += b.sq0;
  for (double x : g) s1 += x;
  HV_CHECK(std::abs(s0 - s1) <= 0.01 * s1 + 1e-3, "intrinsic:guess", "the optimisation does not start from the guessed intrinsics and the PnP poses: squared error " << s0 << " instead of " << s1);
  std::vector<double> start;
  for (auto& b : spy.blocks) start.push_back(b.sq0);
  checkOptimizer("intrinsic", { res.converged, res.initial_cost_per_obs, res.final_cost_per_obs }, f, start);
  for (int i = 0; i < n; ++i)
  {
    std::string pre = "pose" + std::to_string(i);
    if (usable[i]) checkPoseLabels("intrinsic", res.covariance, pre, res.target_transforms[i]);
    else
      for (auto& sd : res.covariance.standard_deviations)
        HV_CHECK(sd.names.first.rfind(pre + "_", 0) != 0, "intrinsic:labels:unused", sd.names.first << " is reported although image " << i << " is not part of the optimisation");
  }
  std::map<std::string, double> want = { { "fx", res.intrinsics.fx() }, { "fy", res.intrinsics.fy() }, { "cx", res.intrinsics.cx() }, { "cy", res.intrinsics.cy() },
    { "k1", res.distortions[0] }, { "k2", res.distortions[1] }, { "p1", res.distortions[2] }, { "p2", res.distortions[3] }, { "k3", res.distortions[4] } };
  for (auto& kv : want)
  {
    int found = 0;
    bool match = false;
    for (auto& sd : res.covariance.standard_deviations)
      if (sd.names.first == kv.first)
      {
        ++found;
        for (auto& s : spy.sigma)
          if (near(s.second, sd.value, 1e-9) && near(spy.x[s.first], kv.second, 1e-9)) match = true;
      }
    HV_CHECK(found == 1 && match, "intrinsic:labels:" + kv.first, kv.first << " is reported " << found << " times" << (match ? "" : ", not as the standard deviation of that parameter"));
  }
  spy.mode = nullptr;
}

int main(int c, char** v) { return run(c, v, { { "intrinsic", 120, 6000, calib } }); }
