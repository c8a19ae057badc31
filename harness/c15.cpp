// C15: intrinsic calibration validation (the PnP solver is replaced by preset solutions)
#include "common.h"
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
namespace ro = rct_optimizations;
using namespace hv;
struct Call
{
  std::vector<int> idx;
  ro::CameraIntrinsics intr;
  Iso guess;
};
static std::vector<Call> CALLS;
static uint64_t SALT;
static double PBAD;
static double SPREAD;
static ro::PnPResult solution(std::vector<int> idx)
{
  std::sort(idx.begin(), idx.end());
  uint64_t h = mix(SALT);
  for (int i : idx) h = mix(h ^ (uint64_t)(i + 1));
  Rng r(h);
  ro::PnPResult res;
  bool bad = r.b(PBAD);
  res.converged = !(bad && r.b());
  res.initial_cost_per_obs = r.u(0, 100);
  res.final_cost_per_obs = bad && res.converged ? r.u(1.01, 3) : (res.converged && r.b(0.1) ? 1.0 : r.u(0, 0.99));
  res.camera_to_target = Iso::Identity();
  res.camera_to_target.linear() = (Eigen::AngleAxisd(0.7, V3::UnitX()) * Eigen::AngleAxisd(r.u(-SPREAD, SPREAD), r.axis())).toRotationMatrix();
  res.camera_to_target.translation() = V3(0.3, -0.2, 1) + r.v3(SPREAD);
  return res;
}
namespace rct_optimizations
{
__attribute__((weak)) PnPResult optimize(const PnPProblem& p)
{
  Call c;
  for (const auto& x : p.correspondences) c.idx.push_back((int)std::lround(x.in_image.x()));
  c.intr = p.intr;
  c.guess = p.camera_to_target_guess;
  CALLS.push_back(c);
  return solution(c.idx);
}
}  // namespace rct_optimizations
static ro::Correspondence2D3D::Set corrs(Rng& r, int base, int n)
{
  ro::Correspondence2D3D::Set s(n);
  for (int i = 0; i < n; ++i)
  {
    s[i].in_image << base + i, r.u(0, 400);
    s[i].in_target = r.v3();
  }
  return s;
}
static std::vector<int> range(int a, int b)
{
  std::vector<int> v;
  for (int i = a; i < b; ++i) v.push_back(i);
  return v;
}
struct Want
{
  bool ok;
  double pos, ang;
  Iso d;
};
static Want want(int base, int n, double thr)
{
  auto a = solution(range(base, base + n / 2)), b = solution(range(base + n / 2, base + n));
  Want w;
  w.ok = a.converged && b.converged && a.final_cost_per_obs <= thr && b.final_cost_per_obs <= thr;
  w.d = a.camera_to_target.inverse() * b.camera_to_target;
  w.pos = w.d.translation().norm();
  Eigen::Quaterniond q(w.d.linear());
  w.ang = 2 * std::atan2(q.vec().norm(), std::abs(q.w()));
  return w;
}
static ro::CameraIntrinsics intrinsics(Rng& r)
{
  ro::CameraIntrinsics in;
  for (double& x : in.values) x = r.u(100, 700);
  return in;
}
static void arm(Rng& r, double pbad)
{
  SALT = r.g();
  PBAD = pbad;
  SPREAD = r.b() ? 0.02 : r.u(0.1, 1);
  CALLS.clear();
}
// the calls for one list of correspondences: each half solved, from the given guess, with the given camera
static void calls(int base, int n, const ro::CameraIntrinsics& in, const Iso& guess, const std::string& K)
{
  for (int h = 0; h < 2; ++h)
  {
    auto want = h ? range(base + n / 2, base + n) : range(base, base + n / 2);
    if (want.empty()) continue;
    const Call* c = nullptr;
    for (const auto& x : CALLS)
    {
      auto v = x.idx;
      std::sort(v.begin(), v.end());
      if (v == want) c = &x;
    }
    HV_CHECK(c != nullptr, K + ":halves", "no PnP problem has half " << h << " of the " << n << " correspondences");
    if (!c) continue;
    HV_CHECK(c->intr == in, K + ":camera", "a half is solved with other intrinsics");
    HV_ISO(c->guess, guess, 1e-9, K + ":guess", "guess of a half");
  }
}
static void diff(Rng& r)
{
  arm(r, 0.3);
  int n = r.i(0, 40), base = r.i(0, 9) * 1000;
  auto in = intrinsics(r);
  Iso guess = r.iso();
  bool dthr = r.b(0.3);
  double thr = dthr || r.b() ? 1.0 : r.u(0.2, 2.5);
  DESC = std::to_string(n) + " correspondences, threshold " + std::to_string(thr);
  Want w = want(base, n, thr);
  auto s = corrs(r, base, n);
  bool thrown = false;
  ro::VirtualCorrespondenceResult v;
  try { v = dthr ? ro::measureVirtualTargetDiff(s, in, guess) : ro::measureVirtualTargetDiff(s, in, guess, thr); }
  catch (const std::runtime_error&) { thrown = true; }
  if (CALLS.empty()) return;  // the real solver is linked
  nontrivial();
  HV_CHECK(thrown == !w.ok, "diff:refuse", (thrown ? "an exception although both halves are solved" : "no exception although a half is not solved within the threshold"));
  if (thrown || !w.ok) return;
  calls(base, n, in, guess, "diff");
  HV_ISO(v.t1_to_t2, w.d, 1e-9, "diff:t1_to_t2", "transform");
  HV_NEAR(v.positional_error, w.pos, 1e-9, "diff:position", "positional error");
  HV_NEAR(v.angular_error, w.ang, 1e-6, "diff:angle", "angular error");
}
static void accuracy(Rng& r)
{
  bool bad = r.b(0.3), uneven = r.b(0.2);
  arm(r, bad ? 0.15 : 0);
  int m = r.b(0.1) ? 0 : r.i(1, 12), n = r.i(2, 20);
  auto in = intrinsics(r);
  Iso cam = r.iso(), tgt = r.iso(), base = r.b(0.3) ? Iso::Identity() : r.iso();
  double thr = r.b() ? 1.0 : r.u(0.2, 2.5);
  ro::Observation2D3D::Set obs(m);
  bool differ = false, ok = m > 0;
  std::vector<int> sizes;
  double sp = 0, sa = 0;
  std::vector<Want> ws;
  for (int k = 0; k < m; ++k)
  {
    int c = uneven && r.b(0.3) ? n + r.i(0, 2) : n;
    sizes.push_back(c);
    differ |= k && c != sizes[k - 1];
    obs[k].to_camera_mount = r.iso();
    obs[k].to_target_mount = r.iso();
    obs[k].correspondence_set = corrs(r, 1000 * k, c);
    ws.push_back(want(1000 * k, c, thr));
    ok &= ws.back().ok;
  }
  DESC = std::to_string(m) + " observations of about " + std::to_string(n) + " correspondences" + (differ ? ", uneven" : "");
  nontrivial();
  bool thrown = false;
  ro::IntrinsicCalibrationAccuracyResult v;
  try { v = r.b(0.3) && thr == 1.0 ? ro::measureIntrinsicCalibrationAccuracy(obs, in, cam, tgt, base) : ro::measureIntrinsicCalibrationAccuracy(obs, in, cam, tgt, base, thr); }
  catch (const std::runtime_error&) { thrown = true; }
  if (m && !differ && CALLS.empty()) return;
  if (!m) HV_CHECK(thrown, "accuracy:empty", "numbers for no observations");
  if (differ) HV_CHECK(thrown, "accuracy:uneven", "no exception for different numbers of correspondences");
  if (m && !differ) HV_CHECK(thrown == !ok, "accuracy:refuse", (thrown ? "an exception although all halves are solved" : "no exception although a half is not solved"));
  if (thrown || !ok || differ) return;
  for (int k = 0; k < m; ++k) calls(1000 * k, sizes[k], in, (obs[k].to_camera_mount * cam).inverse() * base * obs[k].to_target_mount * tgt, "accuracy");
  for (const auto& w : ws) { sp += w.pos / m; sa += w.ang / m; }
  double vp = 0, va = 0;
  for (const auto& w : ws) { vp += (w.pos - sp) * (w.pos - sp) / m; va += (w.ang - sa) * (w.ang - sa) / m; }
  HV_NEAR(v.pos_error.first, sp, 1e-8, "accuracy:position-mean", "mean positional error");
  HV_NEAR(v.ang_error.first, sa, 1e-6, "accuracy:angle-mean", "mean angular error");
  HV_NEAR(v.pos_error.second, std::sqrt(vp), 1e-6, "accuracy:position-stdev", "deviation of the positional error");
  HV_NEAR(v.ang_error.second, std::sqrt(va), 1e-5, "accuracy:angle-stdev", "deviation of the angular error");
}
int main(int argc, char** argv) { return run(argc, argv, { { "difference", 1500, 20000, diff }, { "accuracy", 1000, 15000, accuracy } }); }
