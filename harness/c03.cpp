// C03: hand-eye calibration
#include "ceres_spy.h"
#include "geom.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
using namespace hv;

template <typename R>
static OptView view(const R& r) { return { r.converged, r.initial_cost_per_obs, r.final_cost_per_obs }; }

// camera mount -> camera, target mount -> target and observations in which the camera sees the target
template <bool D2>
struct Setup
{
  using P = std::conditional_t<D2, ro::ExtrinsicHandEyeProblem2D3D, ro::ExtrinsicHandEyeProblem3D3D>;
  using O = std::conditional_t<D2, ro::Observation2D3D, ro::Observation3D3D>;
  P p;
  Iso C, T;
  ro::CameraIntrinsics k;
  Setup(Rng& r, double noise, int nobs, int ncorr, double ja, double jd, bool allow_empty)
  {
    k = camera(r);
    if constexpr (D2) p.intr = k;
    C = r.iso(M_PI, 0.5);
    T = r.iso(M_PI, 0.5);
    p.camera_mount_to_camera_guess = jiggle(r, C, ja, jd);
    p.target_mount_to_target_guess = jiggle(r, T, ja, jd);
    int mode = r.i(0, 2);  // camera moves / target moves / both
    for (int i = 0; i < nobs; ++i)
    {
      O o;
      Iso ct = camToTarget(r);  // camera <- target
      // base <- target, through both chains: Mc C ct = Mt T
      if (mode == 0) { o.to_target_mount = r.iso(0.0, 0.0); o.to_camera_mount = o.to_target_mount * T * ct.inverse() * C.inverse(); }
      else
      {
        o.to_camera_mount = mode == 1 ? Iso::Identity() : r.iso(M_PI, 2);
        o.to_target_mount = o.to_camera_mount * C * ct * T.inverse();
      }
      int m = allow_empty && r.b(0.15) ? 0 : r.i(1, ncorr);
      for (int j = 0; j < m; ++j)
      {
        V3 t = tpoint(r);
        if constexpr (D2) o.correspondence_set.emplace_back(pix(k, ct * t) + V2(r.u(-noise, noise), r.u(-noise, noise)), t);
        else o.correspondence_set.emplace_back(ct * t + r.v3(noise * 0.001), t);
      }
      p.observations.push_back(o);
    }
  }
  V3 inCamera(const Iso& c, const Iso& t, const O& o, const V3& x) const { return c.inverse() * (o.to_camera_mount.inverse() * (o.to_target_mount * (t * x))); }
  std::vector<double> sqs(const Iso& c, const Iso& t) const
  {
    std::vector<double> v;
    for (auto& o : p.observations)
      for (auto& q : o.correspondence_set)
      {
        V3 x = inCamera(c, t, o, q.in_target);
        if constexpr (D2) v.push_back((pix(k, x) - q.in_image).squaredNorm());
        else v.push_back((x - q.in_image).squaredNorm());
      }
    return v;
  }
};

template <bool D2>
static void spied(Rng& r, const std::string& key)
{
  arm(r);
  Setup<D2> s(r, 3, r.i(1, 6), 8, 0.05, 0.05, true);
  std::vector<double> g = s.sqs(s.p.camera_mount_to_camera_guess, s.p.target_mount_to_target_guess);
  if (g.empty()) return;
  DESC = "observations=" + std::to_string(s.p.observations.size()) + " correspondences=" + std::to_string(g.size()) + " camera guess=" + str(s.p.camera_mount_to_camera_guess);
  nontrivial();
  auto res = ro::optimize(s.p);
  checkOptimizer(key, view(res), s.sqs(res.camera_mount_to_camera, res.target_mount_to_target), g);
  checkPoseLabels(key, res.covariance, s.p.label_camera_mount_to_camera, res.camera_mount_to_camera);
  checkPoseLabels(key, res.covariance, s.p.label_target_mount_to_target, res.target_mount_to_target);
}
// one point behind the camera at the guess, at a random position of a random observation
static void behind(Rng& r)
{
  arm(r);
  Setup<true> s(r, 1, r.i(1, 5), 6, 0.02, 0.02, false);
  int oi = r.i(0, s.p.observations.size() - 1);
  auto& cs = s.p.observations[oi].correspondence_set;
  int ci = r.i(0, cs.size() - 1);
  V3 cam(r.u(-1, 1), r.u(-1, 1), -r.u(0.05, 3));
  const auto& o = s.p.observations[oi];
  cs[ci].in_target = (s.p.camera_mount_to_camera_guess.inverse() * o.to_camera_mount.inverse() * o.to_target_mount * s.p.target_mount_to_target_guess).inverse() * cam;
  DESC = "correspondence " + std::to_string(ci) + " of observation " + std::to_string(oi) + " of " + std::to_string(s.p.observations.size()) + " is behind the camera";
  nontrivial();
  bool thrown = false;
  try { ro::optimize(s.p); }
  catch (const std::runtime_error&) { thrown = true; }
  HV_CHECK(thrown, "hand-eye-2d:behind", "a target feature behind the camera is accepted");
  HV_CHECK(spy.calls == 0, "hand-eye-2d:behind-solve", "the solver ran although an exception is due");
}
// one point barely in front of the camera at the guess: that is no reason to refuse the problem
static void nearPlane(Rng& r)
{
  arm(r);
  Setup<true> s(r, 1, r.i(1, 5), 6, 0.02, 0.02, false);
  int oi = r.i(0, s.p.observations.size() - 1);
  auto& cs = s.p.observations[oi].correspondence_set;
  int ci = r.i(0, cs.size() - 1);
  double z = std::pow(10, r.u(-9, -0.5));
  V3 cam(r.u(-1, 1), r.u(-1, 1), z);
  const auto& o = s.p.observations[oi];
  cs[ci].in_target = (s.p.camera_mount_to_camera_guess.inverse() * o.to_camera_mount.inverse() * o.to_target_mount * s.p.target_mount_to_target_guess).inverse() * cam;
  // by rounding, or by its guess, some point may be behind after all
  for (auto& ob : s.p.observations)
    for (auto& q : ob.correspondence_set)
      if (s.inCamera(s.p.camera_mount_to_camera_guess, s.p.target_mount_to_target_guess, ob, q.in_target).z() < 1e-10) return;
  DESC = "correspondence " + std::to_string(ci) + " of observation " + std::to_string(oi) + " of " + std::to_string(s.p.observations.size()) + " is " + std::to_string(z) + " in front of the camera";
  nontrivial();
  std::string what;
  try { ro::optimize(s.p); }
  catch (const std::exception& e) { what = e.what(); }
  HV_CHECK(what.empty(), "hand-eye-2d:near", "refused: " << what);
  HV_CHECK(spy.calls == 1, "hand-eye-2d:near-solve", "the solver ran " << spy.calls << " times");
}
template <bool D2>
static void real(Rng& r, const std::string& key)
{
  spy.real = true;
  spy.fake_cov = false;
  Setup<D2> s(r, 0, 10, 14, 0.03, 0.02, false);
  s.p.observations.clear();
  // enough rotation between the observations, always both chains moving
  for (int i = 0; i < 10; ++i)
  {
    typename Setup<D2>::O o;
    Iso ct = Iso::Identity();
    ct.linear() = rod(r.axis() * r.u(0.2, 0.9));
    ct.translation() = V3(r.u(-0.2, 0.2), r.u(-0.2, 0.2), r.u(1.5, 2.5));
    o.to_camera_mount = r.iso(M_PI, 2);
    o.to_target_mount = o.to_camera_mount * s.C * ct * s.T.inverse();
    for (int j = 0; j < 14; ++j)
    {
      V3 t(r.u(-0.4, 0.4), r.u(-0.4, 0.4), r.u(-0.1, 0.1));
      if constexpr (D2) o.correspondence_set.emplace_back(pix(s.k, ct * t), t);
      else o.correspondence_set.emplace_back(ct * t, t);
    }
    s.p.observations.push_back(o);
  }
  DESC = "C=" + str(s.C) + " T=" + str(s.T);
  nontrivial();
  auto res = ro::optimize(s.p);
  HV_CHECK(res.converged, key + ":real-converged", "noise-free problem with a close guess does not converge");
  HV_ISO(res.camera_mount_to_camera, s.C, 1e-3, key + ":real-camera", "camera mount to camera");
  HV_ISO(res.target_mount_to_target, s.T, 1e-3, key + ":real-target", "target mount to target");
  HV_CHECK(res.final_cost_per_obs < 1e-4, key + ":real-cost", "final cost " << res.final_cost_per_obs);
  spy.real = false;
  spy.fake_cov = true;
}
int main(int c, char** v)
{
  return run(c, v,
             { { "spied2d", 300, 10000, [](Rng& r) { spied<true>(r, "hand-eye-2d"); } },
               { "spied3d", 300, 10000, [](Rng& r) { spied<false>(r, "hand-eye-3d"); } },
               { "behind", 200, 10000, behind },
               { "near", 300, 10000, nearPlane },
               { "real2d", 24, 400, [](Rng& r) { real<true>(r, "hand-eye-2d"); } },
               { "real3d", 24, 400, [](Rng& r) { real<false>(r, "hand-eye-3d"); } } });
}
