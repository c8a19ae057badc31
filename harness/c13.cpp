// C13: residuals of the kinematic calibration against homogeneous matrices
#include <sstream>
#include <ceres/jet.h>
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include "kin.h"
static Problem problem(Rng& r, const Chain& a, const Chain& b)
{
  Problem p;
  p.c[0] = a;
  p.c[1] = b;
  for (const Chain* c : { &a, &b })
  {
    p.x.emplace_back(4 * c->j.size());
    double s = r.b(0.2) ? 0 : 0.2;
    for (double& v : p.x.back()) v = r.u(-s, s);
  }
  for (int k = 0; k < 6; ++k)
  {
    p.x.emplace_back(3);
    double s = k % 2 == 0 ? 1 : r.b(0.25) ? 0 : r.b(0.2) ? 1e-7 : r.u(0, 1.8);
    for (double& v : p.x.back()) v = r.u(-s, s);
  }
  return p;
}
// the values through the blocks that the library assembles
template <class F, class T> static std::vector<T> evaluate(const F& f, const Problem& p, int nres, int block, int index, bool& ok)
{
  std::vector<std::vector<T>> x;
  for (const auto& b : p.x)
  {
    x.emplace_back();
    for (double v : b) x.back().push_back(T(v));
    if (b.empty()) x.back().push_back(T(0.0));
  }
  if constexpr (!std::is_same<T, double>::value) x[block][index].v[0] = 1;
  std::vector<const T*> ptr;
  for (auto& b : x) ptr.push_back(b.data());
  std::vector<T> r(nres);
  ok = f(ptr.data(), r.data());
  return r;
}
template <class F, class O> static void check(const F& f, Problem p, int nres, const O& oracle, double scale, const std::vector<bool>& smooth)
{
  bool ok = false;
  std::vector<double> got = evaluate<F, double>(f, p, nres, 0, 0, ok), want = oracle(p);
  HV_CHECK(ok, "evaluated", "the cost function reports failure");
  for (int i = 0; i < nres; ++i) HV_CHECK(std::abs(got[i] - want[i]) < 1e-6 * scale, "residual", "residual " << i << " is " << got[i] << " instead of " << want[i]);
  using Jet = ceres::Jet<double, 1>;
  for (std::size_t b = 0; b < p.x.size(); ++b)
    for (std::size_t k = 0; k < p.x[b].size(); ++k)
    {
      std::vector<Jet> d = evaluate<F, Jet>(f, p, nres, b, k, ok);
      double h = 1e-5, v = p.x[b][k];
      p.x[b][k] = v + h;
      std::vector<double> up = oracle(p);
      p.x[b][k] = v - h;
      std::vector<double> lo = oracle(p);
      p.x[b][k] = v;
      for (int i = 0; i < nres; ++i)
      {
        if (!smooth[i]) continue;
        double n = (up[i] - lo[i]) / (2 * h);
        HV_CHECK(std::abs(d[i].a - want[i]) < 1e-6 * scale, "residual", "residual " << i << " with derivatives is " << d[i].a << " instead of " << want[i]);
        HV_CHECK(std::abs(d[i].v[0] - n) < 1e-3 * scale * (1 + std::abs(n) / scale), "derivative", "derivative of residual " << i << " by entry " << k << " of block " << b << " is " << d[i].v[0] << " instead of " << n << " (rotation blocks " << strv(p.x[3]) << strv(p.x[5]) << strv(p.x[7]) << ")");
      }
    }
}
static void pixels(Rng& r)
{
  Chain a, b;
  bool all = r.b(0.8);
  ro::DHChain ca = make(r, a, all), cb = make(r, b, all);
  Problem p = problem(r, a, b);
  DESC = std::to_string(a.j.size()) + " and " + std::to_string(b.j.size()) + " joints";
  V3 pt(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
  ro::CameraIntrinsics in;
  in.fx() = r.u(100, 900); in.fy() = r.u(100, 900); in.cx() = r.u(50, 600); in.cy() = r.u(50, 600);
  Eigen::Vector2d obs(r.u(0, 600), r.u(0, 600));
  auto carried = [&](const Problem& q) { return V3((q.camToTarget() * Eigen::Vector4d(pt.x(), pt.y(), pt.z(), 1)).head<3>()); };
  V3 c = carried(p);
  if (std::abs(c.z()) < 0.2) return;
  nontrivial();
  Eigen::VectorXd qa = Eigen::Map<Eigen::VectorXd>(a.q.data(), a.q.size()), qb = Eigen::Map<Eigen::VectorXd>(b.q.data(), b.q.size());
  ro::DualDHChainCost2D3D f(obs, pt, in, ca, cb, qa, qb);
  auto oracle = [&](const Problem& q) {
    V3 v = carried(q);
    return std::vector<double>{ in.fx() * v.x() / v.z() + in.cx() - obs.x(), in.fy() * v.y() / v.z() + in.cy() - obs.y() };
  };
  double s = 1000 * (1 + c.head<2>().norm()) / (c.z() * c.z());
  check(f, p, 2, oracle, s * (1 + 1 / std::abs(c.z())), { true, true });
}
static double angle(const M4& a, const M4& b)
{
  Eigen::Matrix3d d = a.block<3, 3>(0, 0).transpose() * b.block<3, 3>(0, 0);
  return std::atan2(0.5 * V3(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)).norm(), 0.5 * (d.trace() - 1));
}
static void poses(Rng& r)
{
  Chain a, b;
  bool all = r.b(0.8);
  ro::DHChain ca = make(r, a, all), cb = make(r, b, all);
  Problem p = problem(r, a, b);
  ro::KinematicMeasurement m;
  m.camera_chain_joints = Eigen::Map<Eigen::VectorXd>(a.q.data(), a.q.size());
  m.target_chain_joints = Eigen::Map<Eigen::VectorXd>(b.q.data(), b.q.size());
  m.camera_to_target = r.iso();
  if (r.b(0.3)) m.camera_to_target.matrix() = p.camToTarget() * pose(std::vector<double>{ r.u(-.1, .1), r.u(-.1, .1), r.u(-.1, .1) }.data(), std::vector<double>{ r.u(-.1, .1), r.u(-.1, .1), r.u(-.1, .1) }.data());
  double w = r.b(0.2) ? 0 : r.u(0, 100);
  DESC = std::to_string(a.j.size()) + " and " + std::to_string(b.j.size()) + " joints, weight " + std::to_string(w);
  nontrivial();
  ro::DualDHChainCostPose6D f(m, ca, cb, w);
  M4 M = m.camera_to_target.matrix();
  auto oracle = [&](const Problem& q) {
    M4 x = q.camToTarget(), d = M * inv(x);
    return std::vector<double>{ d(0, 3), d(1, 3), d(2, 3), w * angle(M, x) };
  };
  double g = angle(M, p.camToTarget());
  bool smooth = g > 0.05 && g < 3.05;
  check(f, p, 4, oracle, 10 + 10 * w, { true, true, true, smooth });
}
static void tables(Rng& r)
{
  // the mask of a DH table, and the blocks with their labels
  int n = r.i(0, 9);
  Eigen::Array<bool, Eigen::Dynamic, 4> mask(n, 4);
  std::vector<int> want;
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < 4; ++k)
    {
      mask(i, k) = r.b(0.4);
      if (mask(i, k)) want.push_back(&mask(i, k) - mask.data());
    }
  DESC = std::to_string(n) + " joints";
  nontrivial();
  std::vector<int> got = ro::createDHMask(mask);
  HV_CHECK(got == want, "mask", "the mask has other entries (" << got.size() << " of " << want.size() << ")");
  int nc = r.i(0, 5), nt = r.i(0, 5);
  Eigen::MatrixX4d co(nc, 4), to(nt, 4);
  V3 v[6];
  std::vector<double*> p = ro::DualDHChainCost::constructParameters(co, to, v[0], v[1], v[2], v[3], v[4], v[5]);
  HV_CHECK(p.size() == 8, "blocks", p.size() << " blocks");
  HV_CHECK(p[0] == co.data() && p[1] == to.data(), "blocks", "the first blocks are not the DH offsets");
  for (int k = 0; k < 6; ++k) HV_CHECK(p[2 + k] == v[k].data(), "blocks", "block " << 2 + k << " is not the given vector");
  double dummy[8];
  for (int k = 0; k < 8; ++k) p[k] = dummy + k;  // distinct keys, also for empty tables
  auto lab = [&](int k, const char* s) { std::vector<std::array<std::string, 4>> l; for (int i = 0; i < k; ++i) l.push_back({ s + std::to_string(i) + "_d", s + std::to_string(i) + "_t", s + std::to_string(i) + "_r", s + std::to_string(i) + "_a" }); return l; };
  auto lc = lab(nc, "c"), lt = lab(nt, "t");
  std::array<std::string, 3> l3[6];
  for (int k = 0; k < 6; ++k) for (int i = 0; i < 3; ++i) l3[k][i] = "v" + std::to_string(k) + std::to_string(i);
  auto labels = ro::DualDHChainCost::constructParameterLabels(p, lc, lt, l3[0], l3[1], l3[2], l3[3], l3[4], l3[5]);
  HV_CHECK(labels.size() == 8, "labels", labels.size() << " labelled blocks");
  for (int d = 0; d < 2; ++d)
  {
    const auto& l = d ? lt : lc;
    const auto& g = labels[p[d]];
    HV_CHECK(g.size() == 4 * l.size(), "labels", "block " << d << " has " << g.size() << " labels");
    for (std::size_t i = 0; i < l.size() && g.size() == 4 * l.size(); ++i)
      for (int k = 0; k < 4; ++k) HV_CHECK(g[(d ? &to(i, k) - to.data() : &co(i, k) - co.data())] == l[i][k], "labels", "entry (" << i << ", " << k << ") of block " << d << " has the label " << g[k * l.size() + i]);
  }
  for (int k = 0; k < 6; ++k) HV_CHECK(labels[p[2 + k]] == std::vector<std::string>(l3[k].begin(), l3[k].end()), "labels", "block " << 2 + k << " has other labels");
  std::array<std::vector<int>, 8> masks;
  for (auto& m : masks) for (int k = r.i(0, 4); k > 0; --k) m.push_back(r.i(0, 19));
  auto pm = ro::DualDHChainCost::constructParameterMasks(p, masks);
  HV_CHECK(pm.size() == 8, "masks", pm.size() << " masked blocks");
  for (int k = 0; k < 8; ++k) HV_CHECK(pm[p[k]] == masks[k], "masks", "block " << k << " has the mask of another block");
  auto names = ro::DualDHChainCost::constructParameterNames(p);
  HV_CHECK(names.size() == 8, "names", names.size() << " named blocks");
  std::set<std::string> distinct;
  for (auto& kv : names) distinct.insert(kv.second);
  HV_CHECK(distinct.size() == 8, "names", "two blocks have the same name");
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "pixels", 1500, 15000, pixels }, { "poses", 1500, 15000, poses }, { "tables", 1000, 5000, tables } });
}
