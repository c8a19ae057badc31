// C24: kinematic calibration through the library and Ceres, against costs computed from homogeneous matrices
#include <sstream>
#include <ceres/ceres.h>
#include "kin.h"
namespace rct_optimizations
{
void addSubsetParameterization(ceres::Problem& problem, const std::map<const double*, std::vector<int>>& param_masks);
}
static double angle(const M4& a, const M4& b)
{
  Eigen::Matrix3d d = a.block<3, 3>(0, 0).transpose() * b.block<3, 3>(0, 0);
  return std::atan2(0.5 * V3(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)).norm(), 0.5 * (d.trace() - 1));
}
// the quantities that the calibration estimates
struct State { std::vector<double> off[2]; M4 mount[2]; M4 base; };
static M4 predicted(const Chain& a, const Chain& b, const State& s) { return inv(a.fk(s.off[0].data()) * s.mount[0]) * s.base * b.fk(s.off[1].data()) * s.mount[1]; }

struct Setup
{
  Chain c[2];
  std::vector<ro::DHChain> chain;
  State truth, guess;
  std::array<std::vector<int>, 8> mask;
  double sd[2];
  bool prior[2];
};
static bool all_masked(const std::vector<int>& m, int n)
{
  std::set<int> s(m.begin(), m.end());
  return n > 0 && (int)s.size() >= n;
}
static Setup setup(Rng& r)
{
  Setup s;
  for (int k = 0; k < 2; ++k)
  {
    int n = r.i(0, 2);
    std::vector<ro::DHTransform> ts;
    for (int i = 0; i < n; ++i)
    {
      J j{ { r.u(-1, 1), r.u(-3, 3), r.u(-1, 1), r.u(-3, 3) }, r.b(0.3) };
      s.c[k].j.push_back(j);
      ts.emplace_back(Eigen::Vector4d(j.p[0], j.p[1], j.p[2], j.p[3]), j.lin ? ro::DHJointType::LINEAR : ro::DHJointType::REVOLUTE, (k ? "t" : "c") + std::to_string(i), i);
    }
    Iso b = r.iso();
    s.c[k].base = b.matrix();
    s.chain.emplace_back(ts, b);
    s.truth.off[k].resize(4 * n);
    for (double& v : s.truth.off[k]) v = r.n(2e-3);
    s.guess.off[k].assign(4 * n, 0.0);
    s.truth.mount[k] = r.iso(2.5).matrix();
    s.guess.mount[k] = s.truth.mount[k] * r.iso(0.05, 0.02).matrix();
    s.sd[k] = r.u(1e-3, 5e-3);
  }
  s.truth.base = r.iso(2.5).matrix();
  s.guess.base = s.truth.base * r.iso(0.05, 0.02).matrix();
  // rotations near none
  for (M4* g : { &s.guess.mount[0], &s.guess.mount[1], &s.guess.base })
    if (r.b(0.2))
    {
      M4* t = g == &s.guess.base ? &s.truth.base : &s.truth.mount[g - s.guess.mount];
      V3 ax = r.axis();
      g->block<3, 3>(0, 0) = r.b(0.2) ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : Eigen::AngleAxisd(std::exp(r.u(std::log(1e-9), std::log(0.3))), ax).toRotationMatrix();
      *t = *g * r.iso(r.b() ? 0.05 : 1e-4, 0.02).matrix();
    }
  for (int k = 0; k < 8; ++k)
  {
    int n = k < 2 ? 4 * (int)s.c[k].j.size() : 3;
    double q = r.b(0.6) ? 0 : r.b(0.3) ? 1 : r.u(0, 1);
    if (n == 0) q = 0;
    for (int i = 0; i < n; ++i)
      if (r.b(q)) for (int d = r.b(0.2) ? 2 : 1; d > 0; --d) s.mask[k].insert(s.mask[k].begin() + r.i(0, s.mask[k].size()), i);
    if (k < 2) s.prior[k] = n > 0 && !all_masked(s.mask[k], n);
  }
  return s;
}
static Iso iso(const M4& m) { Iso i; i.matrix() = m; return i; }
static State result(const ro::KinematicCalibrationResult& k, const Setup& s)
{
  State x;
  x.mount[0] = k.camera_mount_to_camera.matrix();
  x.mount[1] = k.target_mount_to_target.matrix();
  x.base = k.camera_base_to_target_base.matrix();
  const Eigen::MatrixX4d* d[2] = { &k.camera_chain_dh_offsets, &k.target_chain_dh_offsets };
  for (int i = 0; i < 2; ++i)
  {
    HV_CHECK(d[i]->rows() == (Eigen::Index)s.c[i].j.size(), "offsets", d[i]->rows() << " rows of offsets for " << s.c[i].j.size() << " joints");
    x.off[i].assign(4 * s.c[i].j.size(), 0.0);
    if ((std::size_t)d[i]->size() == x.off[i].size())
      for (Eigen::Index a = 0; a < d[i]->rows(); ++a)
        for (int b = 0; b < 4; ++b) x.off[i][b * d[i]->rows() + a] = (*d[i])(a, b);
  }
  return x;
}
static std::string fmt(const State& s) { return "mounts " + str(s.mount[0]) + " " + str(s.mount[1]) + " base " + str(s.base) + " offsets " + strv(s.off[0]) + strv(s.off[1]); }
template <class P> static void fill(P& p, const Setup& s)
{
  p.camera_mount_to_camera_guess = iso(s.guess.mount[0]);
  p.target_mount_to_target_guess = iso(s.guess.mount[1]);
  p.camera_base_to_target_base_guess = iso(s.guess.base);
  p.mask = s.mask;
  p.camera_chain_offset_stdev = s.sd[0];
  p.target_chain_offset_stdev = s.sd[1];
}
// sum of squares of the measurements' residuals and of the priors
template <class F> static double cost(const Setup& s, const State& x, const F& f)
{
  double c = f(x);
  for (int k = 0; k < 2; ++k)
    if (s.prior[k]) for (double v : x.off[k]) c += v * v / (s.sd[k] * s.sd[k]);
  return c / 2;
}
template <class P, class F> static void check(const Setup& s, const P& p, const ro::KinematicCalibrationResult& k, const F& f, long nres)
{
  for (int i = 0; i < 2; ++i) if (s.prior[i]) nres += s.truth.off[i].size();
  State x = result(k, s);
  double c0 = cost(s, s.guess, f), c1 = cost(s, x, f);
  HV_NEAR(k.initial_cost_per_obs * nres, c0, 1e-5, "initial", "cost of the guesses (" + std::to_string(nres) + " residuals)");
  // the result holds the rotations that the solver's vectors stand for
  HV_CHECK(std::abs(k.final_cost_per_obs * nres - c1) <= 1e-5 * (1e-3 + c1), "final", "cost of the result: code " << k.final_cost_per_obs * nres << ", specification " << c1 << " " << fmt(x));
  HV_CHECK(k.final_cost_per_obs <= k.initial_cost_per_obs * (1 + 1e-9) + 1e-12, "descent", "the cost grows");
  // masked parameters keep their values
  for (int i = 0; i < 2; ++i)
    for (int m : s.mask[i]) HV_CHECK(x.off[i][m] == 0, "masked", "masked offset " << m << " of chain " << i << " is " << x.off[i][m]);
  const M4* got[3] = { &x.mount[0], &x.mount[1], &x.base };
  const M4* want[3] = { &s.guess.mount[0], &s.guess.mount[1], &s.guess.base };
  for (int i = 0; i < 3; ++i)
  {
    for (int m : s.mask[2 + 2 * i]) HV_CHECK((*got[i])(m, 3) == (*want[i])(m, 3), "masked", "masked translation " << m << " of pose " << i << " moves");
    if (all_masked(s.mask[3 + 2 * i], 3))
      HV_CHECK((got[i]->block<3, 3>(0, 0) - want[i]->block<3, 3>(0, 0)).norm() < 1e-9, "masked", "the masked rotation of pose " << i << " changes");
    else if (!s.mask[3 + 2 * i].empty())
    {
      auto log = [](const M4& m) { Eigen::AngleAxisd a(Eigen::Matrix3d(m.block<3, 3>(0, 0))); return V3(a.angle() * a.axis()); };
      V3 a = log(*got[i]), b = log(*want[i]);
      if (b.norm() < 2.9)
        for (int m : s.mask[3 + 2 * i]) HV_CHECK(std::abs(a[m] - b[m]) < 1e-6, "masked", "masked component " << m << " of rotation " << i << " changes from " << b[m] << " to " << a[m]);
    }
  }
  // free parameters are at a minimum
  if (k.converged)
  {
    double tol = 1e-9 + 1e-3 * c1;
    for (int i = 0; i < 2; ++i)
      for (std::size_t e = 0; e < x.off[i].size(); ++e)
      {
        if (std::count(s.mask[i].begin(), s.mask[i].end(), (int)e)) continue;
        for (double h : { 1e-4, -1e-4 })
        {
          State y = x;
          y.off[i][e] += h;
          HV_CHECK(cost(s, y, f) >= c1 - tol, "minimum", "the cost falls from " << c1 << " to " << cost(s, y, f) << " with offset " << e << " of chain " << i);
        }
      }
  }
  // the covariance names exactly the free parameters
  std::multiset<std::string> names, free;
  for (const auto& n : k.covariance.standard_deviations)
    if (n.names.first.find("placeholder") == std::string::npos) names.insert(n.names.first);
  static const char* D[4] = { "_d", "_theta", "_r", "_alpha" };
  static const char* T[6] = { "_x", "_y", "_z", "_rx", "_ry", "_rz" };
  auto masked = [&](int b, int e) { return std::count(s.mask[b].begin(), s.mask[b].end(), e) > 0; };
  for (int i = 0; i < 2; ++i)
    for (std::size_t j = 0; j < s.c[i].j.size(); ++j)
      for (int d = 0; d < 4; ++d) if (!masked(i, d * s.c[i].j.size() + j)) free.insert((i ? "t" : "c") + std::to_string(j) + D[d]);
  const std::string pre[3] = { p.label_camera_mount_to_camera, p.label_target_mount_to_target, p.label_camera_base_to_target };
  for (int i = 0; i < 3; ++i)
    for (int e = 0; e < 6; ++e) if (!masked(2 + 2 * i + e / 3, e % 3)) free.insert(pre[i] + T[e]);
  auto show = [](const std::multiset<std::string>& m) { std::string o; for (auto& n : m) o += n + " "; return o; };
  HV_CHECK(names == free, "names", "the covariance names " << show(names) << "instead of " << show(free));
}
static Eigen::VectorXd joints(Rng& r, Chain& c)
{
  c.q.clear();
  Eigen::VectorXd q(c.j.size());
  for (Eigen::Index i = 0; i < q.size(); ++i) c.q.push_back(q[i] = r.u(-1.5, 1.5));
  return q;
}
static void pixels(Rng& r)
{
  Setup s = setup(r);
  ro::KinematicCalibrationProblem2D3D p(s.chain[0], s.chain[1]);
  fill(p, s);
  p.intr.fx() = r.u(400, 700); p.intr.fy() = r.u(400, 700); p.intr.cx() = r.u(200, 400); p.intr.cy() = r.u(200, 300);
  std::vector<std::array<Chain, 2>> at;
  int n = r.i(4, 8), m = r.i(4, 7);
  for (int i = 0; i < n; ++i)
  {
    ro::KinObservation2D3D o;
    Chain a = s.c[0], b = s.c[1];
    o.camera_chain_joints = joints(r, a);
    o.target_chain_joints = joints(r, b);
    at.push_back({ a, b });
    M4 x = predicted(a, b, s.truth);
    for (int j = i == 0 && r.b(0.3) ? m : 0; j < m; ++j)
    {
      double z = r.u(1, 3);
      Eigen::Vector4d c(r.u(-0.4, 0.4) * z, r.u(-0.4, 0.4) * z, z, 1);
      ro::Correspondence2D3D q;
      q.in_target = (inv(x) * c).head<3>();
      q.in_image = V2(p.intr.fx() * c.x() / z + p.intr.cx() + r.n(0.1), p.intr.fy() * c.y() / z + p.intr.cy() + r.n(0.1));
      o.correspondence_set.push_back(q);
    }
    p.observations.push_back(o);
  }
  DESC = std::to_string(s.c[0].j.size()) + " and " + std::to_string(s.c[1].j.size()) + " joints, " + std::to_string(n) + " observations";
  for (auto& k : s.mask) { DESC += " ["; for (int v : k) DESC += std::to_string(v) + ","; DESC += "]"; }
  nontrivial();
  bool behind = false;
  auto f = [&](const State& x) {
    double c = 0;
    for (int i = 0; i < n; ++i)
      for (const auto& q : p.observations[i].correspondence_set)
      {
        Eigen::Vector4d v = predicted(at[i][0], at[i][1], x) * Eigen::Vector4d(q.in_target.x(), q.in_target.y(), q.in_target.z(), 1);
        if (v.z() < 0.05) behind = true;
        c += std::pow(p.intr.fx() * v.x() / v.z() + p.intr.cx() - q.in_image.x(), 2) + std::pow(p.intr.fy() * v.y() / v.z() + p.intr.cy() - q.in_image.y(), 2);
      }
    return c;
  };
  f(s.guess);
  if (behind) return;
  long nres = 0;
  for (const auto& o : p.observations) nres += 2 * o.correspondence_set.size();
  try { check(s, p, ro::optimize(p), f, nres); }
  catch (const ro::CovarianceException& e) { HV_CHECK(false, "covariance", "no covariance: " << e.what()); }
}
static void poses(Rng& r)
{
  Setup s = setup(r);
  ro::KinematicCalibrationProblemPose6D p(s.chain[0], s.chain[1]);
  fill(p, s);
  std::vector<std::array<Chain, 2>> at;
  int n = r.i(6, 14);
  for (int i = 0; i < n; ++i)
  {
    ro::KinematicMeasurement o;
    Chain a = s.c[0], b = s.c[1];
    o.camera_chain_joints = joints(r, a);
    o.target_chain_joints = joints(r, b);
    at.push_back({ a, b });
    o.camera_to_target = iso(predicted(a, b, s.truth)) * r.iso(0.05, 0.01);
    p.observations.push_back(o);
  }
  double w = r.b(0.3) ? std::exp(r.u(std::log(1e-3), std::log(1e4))) : r.u(0.1, 50);
  DESC = std::to_string(s.c[0].j.size()) + " and " + std::to_string(s.c[1].j.size()) + " joints, " + std::to_string(n) + " measurements, weight " + std::to_string(w);
  for (auto& k : s.mask) { DESC += " ["; for (int v : k) DESC += std::to_string(v) + ","; DESC += "]"; }
  nontrivial();
  auto f = [&](const State& x) {
    double c = 0;
    for (int i = 0; i < n; ++i)
    {
      M4 v = predicted(at[i][0], at[i][1], x), m = p.observations[i].camera_to_target.matrix(), d = m * inv(v);
      c += d.block<3, 1>(0, 3).squaredNorm() + std::pow(w * angle(m, v), 2);
    }
    return c;
  };
  ceres::Solver::Options o;
  o.max_num_iterations = r.i(0, 60);
  o.logging_type = ceres::SILENT;
  try { check(s, p, ro::optimize(p, w, o), f, 4 * n); }
  catch (const ro::CovarianceException& e) { HV_CHECK(false, "covariance", "no covariance: " << e.what()); }
}
// every list of up to three masked indices of two blocks
struct Sum
{
  int n;
  template <typename T> bool operator()(T const* const* x, T* res) const { res[0] = T(0.0); for (int i = 0; i < n; ++i) res[0] += x[0][i] * x[0][i]; return true; }
};
static void subset(Rng& r)
{
  long c = CASE;
  int n = 1 + c % 4;
  c /= 4;
  int len = c % 4;
  c /= 4;
  std::vector<int> mask;
  for (int i = 0; i < len; ++i) { mask.push_back(c % (n + 1)); c /= n + 1; }
  if (c > 0) return;
  if (r.b(0.1)) for (int i = 0; i < n; ++i) mask.push_back(i);
  DESC = "block of " + std::to_string(n) + " with mask";
  for (int v : mask) DESC += " " + std::to_string(v);
  nontrivial();
  std::vector<double> x(n), y(3, 0.5);
  for (double& v : x) v = r.u(1, 2);
  ceres::Problem p;
  for (auto* v : { &y, &x })
  {
    auto* cf = new ceres::DynamicAutoDiffCostFunction<Sum>(new Sum{ (int)v->size() });
    cf->AddParameterBlock(v->size());
    cf->SetNumResiduals(1);
    p.AddResidualBlock(cf, nullptr, v->data());
  }
  std::map<const double*, std::vector<int>> m;
  double unused;
  m[x.data()] = mask;
  if (r.b()) m[&unused] = { 7 };
  if (r.b()) m[y.data()] = {};
  bool bad = false, thrown = false;
  for (int v : mask) bad = bad || v >= n;
  std::set<int> held(mask.begin(), mask.end());
  try { ro::addSubsetParameterization(p, m); }
  catch (const ro::OptimizationException&) { thrown = true; }
  HV_CHECK(thrown == bad, "range", (bad ? "a mask beyond the block is accepted" : "a valid mask is refused"));
  HV_CHECK(!p.IsParameterBlockConstant(y.data()) && p.ParameterBlockTangentSize(y.data()) == 3, "unmasked", "an unmasked block is restricted");
  if (bad || thrown) return;
  HV_CHECK(p.IsParameterBlockConstant(x.data()) == ((int)held.size() == n), "constant", "the block is " << (p.IsParameterBlockConstant(x.data()) ? "" : "not ") << "constant");
  if ((int)held.size() == n) return;
  HV_CHECK(p.ParameterBlockTangentSize(x.data()) == n - (int)held.size(), "size", p.ParameterBlockTangentSize(x.data()) << " free parameters of " << n - held.size());
  if (const ceres::Manifold* mf = p.GetManifold(x.data()))
  {
    std::vector<double> d(n, 0.25), z(n);
    mf->Plus(x.data(), d.data(), z.data());
    for (int i = 0; i < n; ++i) HV_CHECK((z[i] == x[i]) == (held.count(i) > 0), "held", "parameter " << i << " is " << (z[i] == x[i] ? "held" : "free"));
  }
  else
    HV_CHECK(held.empty(), "held", "the masked parameters are free");
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "pixels", 160, 1600, pixels }, { "poses", 160, 1600, poses }, { "subset", 2048, 4096, subset } });
}
