// C14: statistics of the PnP solutions that converged (the solver is replaced by preset solutions)
#include "common.h"
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/noise_qualification.h>
namespace ro = rct_optimizations;
using namespace hv;
using Q = Eigen::Quaterniond;
static std::vector<ro::PnPResult> PRESET;
static std::vector<int> CALLS;
static ro::PnPResult lookup(double key)
{
  std::size_t k = (std::size_t)std::lround(key);
  if (k < CALLS.size()) ++CALLS[k];
  return k < PRESET.size() ? PRESET[k] : ro::PnPResult();
}
namespace rct_optimizations
{
__attribute__((weak)) PnPResult optimize(const PnPProblem& p) { return lookup(p.correspondences.at(0).in_image.x()); }
__attribute__((weak)) PnPResult optimize(const PnPProblem3D& p) { return lookup(p.correspondences.at(0).in_image.x()); }
}  // namespace rct_optimizations
template <typename P, typename C>
static P problem(Rng& r, int k)
{
  P p;
  C c;
  c.in_image.setZero();
  c.in_image.x() = k;
  c.in_target = r.v3();
  p.correspondences.push_back(c);
  p.camera_to_target_guess = r.iso();
  return p;
}
static Q meanOf(const std::vector<Q>& qs, double& gap)
{
  Eigen::Matrix4d M = Eigen::Matrix4d::Zero();
  for (const auto& q : qs) M += q.coeffs() * q.coeffs().transpose();
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> s(M);
  gap = (s.eigenvalues()[3] - s.eigenvalues()[2]) / s.eigenvalues()[3];
  Q q;
  q.coeffs() = s.eigenvectors().col(3);
  return q;
}
static double ang(const Q& a, const Q& b)
{
  double d = std::min(1.0, std::abs(a.coeffs().dot(b.coeffs())));
  Q e = a.conjugate() * b;
  return d < 0.9 ? 2 * std::acos(d) : 2 * std::asin(std::min(1.0, e.vec().norm()));
}
static void stats(const ro::QuaternionStats& s, const std::vector<Q>& qs, const std::string& K)
{
  double gap;
  Q m = meanOf(qs, gap);
  if (gap < 1e-3) return;
  HV_CHECK(std::abs(s.mean.norm() - 1) < 1e-9, K + ":unit", "mean quaternion of norm " << s.mean.norm());
  HV_CHECK(ang(s.mean, m) < 1e-6, K + ":mean-rotation", "mean rotation is " << ang(s.mean, m) << " away from the average of " << qs.size() << " rotations");
  double v = 0;
  for (const auto& q : qs) v += ang(m, q) * ang(m, q);
  HV_NEAR(s.stdev, std::sqrt(v / (qs.size() - 1)), 1e-5, K + ":stdev-rotation", "standard deviation of the rotation");
}
static std::vector<Q> rotations(Rng& r, int n)
{
  std::vector<Q> qs;
  Q base(r.iso().linear());
  double spread = r.b(0.3) ? 1e-3 : r.u(0.01, 1.2);
  for (int i = 0; i < n; ++i)
  {
    Q q = base * Q(Eigen::AngleAxisd(r.u(-spread, spread), r.axis()));
    if (r.b()) q.coeffs() *= -1;
    qs.push_back(q);
  }
  return qs;
}
static void quats(Rng& r)
{
  auto qs = rotations(r, r.i(2, 20));
  DESC = std::to_string(qs.size()) + " rotations";
  nontrivial();
  stats(ro::computeQuaternionStats(qs), qs, "quaternions");
  double gap;
  Q m = meanOf(qs, gap);
  if (gap > 1e-3)
  {
    HV_CHECK(ang(ro::computeQuaternionMean(qs), m) < 1e-6, "mean:value", "mean of " << qs.size() << " quaternions");
    auto rev = qs;
    std::reverse(rev.begin(), rev.end());
    for (auto& q : rev) if (r.b()) q.coeffs() *= -1;
    HV_CHECK(ang(ro::computeQuaternionMean(rev), ro::computeQuaternionMean(qs)) < 1e-6, "mean:order", "the mean depends on the order or the signs");
  }
  HV_CHECK(ang(ro::computeQuaternionMean({ qs[0] }), qs[0]) < 1e-6, "mean:single", "mean of one quaternion");
}
template <typename P, typename C, typename F>
static void noise(Rng& r, F f, const std::string& K)
{
  int n = r.i(2, 25);
  double pfail = r.b() ? 0 : r.u(0.1, 0.6);
  auto qs = rotations(r, n);
  PRESET.clear();
  CALLS.assign(n, 0);
  std::vector<Q> ok;
  std::vector<V3> ts;
  std::vector<P> ps;
  V3 base = r.v3(2);
  double sp = r.u(0.001, 0.5);
  for (int i = 0; i < n; ++i)
  {
    ro::PnPResult res;
    res.converged = !r.b(pfail);
    res.initial_cost_per_obs = r.u(0, 10);
    res.final_cost_per_obs = r.b(0.2) ? 50 : r.u(0, 1);
    res.camera_to_target = Iso::Identity();
    res.camera_to_target.linear() = qs[i].toRotationMatrix();
    res.camera_to_target.translation() = base + r.v3(sp).cwiseProduct(V3(1, 2, 3));
    if (!res.converged) res.camera_to_target = r.iso(M_PI, 50);
    else
    {
      ok.push_back(qs[i]);
      ts.push_back(res.camera_to_target.translation());
    }
    PRESET.push_back(res);
    ps.push_back(problem<P, C>(r, i));
  }
  if (ok.size() < 2) return;
  DESC = K + ": " + std::to_string(n) + " problems, " + std::to_string(ok.size()) + " converge";
  auto s = f(ps);
  int called = 0;
  for (int c : CALLS) called += c;
  if (!called) return;  // the real solver is linked: nothing to compare with
  nontrivial();
  for (int i = 0; i < n; ++i) HV_CHECK(CALLS[i] >= 1, K + ":skipped", "problem " << i << " is not solved");
  V3 m = V3::Zero(), v = V3::Zero();
  for (const auto& t : ts) m += t / ts.size();
  for (const auto& t : ts) v += (t - m).cwiseProduct(t - m) / ts.size();
  for (int c = 0; c < 3; ++c)
  {
    HV_NEAR(s.p_stat.mean[c], m[c], 1e-8, K + ":mean-position", "mean of coordinate " << c);
    HV_NEAR(s.p_stat.stdev[c], std::sqrt(v[c]), 1e-6, K + ":stdev-position", "standard deviation of coordinate " << c);
  }
  stats(s.q_stat, ok, K);
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "quaternions", 800, 10000, quats },
                           { "noise2d", 600, 8000, [](Rng& r) { noise<ro::PnPProblem, ro::Correspondence2D3D>(r, [](const std::vector<ro::PnPProblem>& p) { return ro::qualifyNoise2D(p); }, "2D"); } },
                           { "noise3d", 600, 8000, [](Rng& r) { noise<ro::PnPProblem3D, ro::Correspondence3D3D>(r, [](const std::vector<ro::PnPProblem3D>& p) { return ro::qualifyNoise3D(p); }, "3D"); } } });
}
