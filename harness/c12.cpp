// C12: DH chains
#include <sstream>
#include <array>
#include <ceres/jet.h>
#include <rct_optimizations/dh_chain.h>
#include "common.h"
using namespace hv;
namespace ro = rct_optimizations;
using M4 = Eigen::Matrix4d;

static M4 link(const std::array<double, 4>& p, bool lin, double q, const std::array<double, 4>& o)
{
  double d = p[0] + o[0] + (lin ? q : 0), th = p[1] + o[1] + (lin ? 0 : q), r = p[2] + o[2], a = p[3] + o[3];
  M4 m;
  m << std::cos(th), -std::sin(th) * std::cos(a), std::sin(th) * std::sin(a), r * std::cos(th),
       std::sin(th), std::cos(th) * std::cos(a), -std::cos(th) * std::sin(a), r * std::sin(th),
       0, std::sin(a), std::cos(a), d,
       0, 0, 0, 1;
  return m;
}
struct Spec { std::vector<std::array<double, 4>> p; std::vector<bool> lin; std::vector<std::string> name; std::vector<double> lo, hi; };

static void chain(Rng& r)
{
  int n = r.i(0, 8);
  Spec s;
  std::vector<ro::DHTransform> ts;
  std::ostringstream d;
  d << "joints=" << n;
  for (int i = 0; i < n; ++i)
  {
    std::array<double, 4> p{ { r.u(-2, 2), r.u(-4, 4), r.u(-2, 2), r.b(0.5) ? M_PI / 2 * r.i(-2, 2) : r.u(-4, 4) } };
    bool lin = r.b(0.4);
    std::string nm = "j" + std::to_string(r.i(0, 99));
    ro::DHTransform t(Eigen::Vector4d(p[0], p[1], p[2], p[3]), lin ? ro::DHJointType::LINEAR : ro::DHJointType::REVOLUTE, nm, r.i(1, 1000));
    t.min = r.u(-3, 0);
    t.max = t.min + (r.b(0.1) ? 1e-9 : r.u(0.01, 3));
    s.p.push_back(p); s.lin.push_back(lin); s.name.push_back(nm); s.lo.push_back(t.min); s.hi.push_back(t.max);
    ts.push_back(t);
    d << (lin ? " L" : " R") << strv(std::vector<double>(p.begin(), p.end()));
  }
  Iso base = r.iso();
  ro::DHChain c(ts, base);
  Eigen::MatrixX4d off(n, 4), zero = Eigen::MatrixX4d::Zero(n, 4);
  for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) off(i, k) = r.u(-0.5, 0.5);
  int m = r.i(0, n);
  Eigen::VectorXd q(m);
  for (int i = 0; i < m; ++i) q[i] = r.u(-4, 4);
  d << " values=" << m;
  DESC = d.str();
  if (n) nontrivial();
  auto fk = [&](const Eigen::MatrixX4d& o) {
    M4 t = base.matrix();
    for (int i = 0; i < m; ++i) t = t * link(s.p[i], s.lin[i], q[i], { { o(i, 0), o(i, 1), o(i, 2), o(i, 3) } });
    return t;
  };
  auto close = [](const M4& a, const M4& b) { return (a - b).cwiseAbs().maxCoeff() < 1e-9 * (1 + b.cwiseAbs().maxCoeff()); };
  HV_CHECK(c.dof() == (std::size_t)n, "dof", "dof() = " << c.dof());
  HV_CHECK(close(c.getFK(q).matrix(), fk(zero)), "fk", "getFK differs from the product of the DH transforms");
  Eigen::Matrix<double, Eigen::Dynamic, 4> o4 = off.topRows(r.i(m, n));
  HV_CHECK(close(c.getFK<double>(q, o4).matrix(), fk(off)), "fk-offsets", "getFK with offsets differs from the product of the DH transforms");
  {
    using J = ceres::Jet<double, 2>;
    Eigen::Matrix<J, Eigen::Dynamic, 1> qj = q.cast<J>();
    Eigen::Matrix<J, Eigen::Dynamic, 4> oj = off.cast<J>();
    auto t = c.getFK<J>(qj, oj);
    M4 v;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) v(i, j) = i == 3 ? (j == 3) : t(i, j).a;
    HV_CHECK(close(v, fk(off)), "fk-jet", "getFK over dual numbers differs from the product of the DH transforms");
  }
  ro::DHChain co(c, off);
  HV_CHECK(close(co.getFK(q).matrix(), fk(off)), "offset-chain", "a chain built with offsets has other kinematics than the offsets applied");
  HV_CHECK(co.getParamLabels() == c.getParamLabels(), "offset-chain-names", "a chain built with offsets loses the names of the joints");
  HV_CHECK(co.getJointTypes() == c.getJointTypes(), "offset-chain-types", "a chain built with offsets has other joint types");
  HV_CHECK((co.getDHTable() - (c.getDHTable() + off)).norm() < 1e-12, "offset-chain-table", "DH table of a chain built with offsets");
  HV_CHECK(close(co.getBaseOffset().matrix(), base.matrix()) && close(c.getBaseOffset().matrix(), base.matrix()), "base", "base offset");
  for (auto* x : { &c, &co })
    for (int k = 0; k < 3; ++k)
    {
      Eigen::VectorXd w = x->createUniformlyRandomPose();
      HV_CHECK(w.size() == n, "random-size", "random pose of size " << w.size());
      for (int i = 0; i < n && i < w.size(); ++i)
        HV_CHECK(w[i] >= s.lo[i] && w[i] <= s.hi[i], x == &c ? "random-limits" : "offset-chain-limits", "joint " << i << " value " << w[i] << " outside [" << s.lo[i] << ", " << s.hi[i] << "]");
    }
  auto lab = c.getParamLabels();
  auto typ = c.getJointTypes();
  auto tab = c.getDHTable();
  HV_CHECK(lab.size() == (std::size_t)n && typ.size() == (std::size_t)n && tab.rows() == n, "tables", "size of labels, types or table");
  for (int i = 0; i < n && lab.size() == (std::size_t)n && typ.size() == (std::size_t)n && tab.rows() == n; ++i)
  {
    static const char* L[] = { "_d", "_theta", "_r", "_alpha" };
    for (int k = 0; k < 4; ++k)
    {
      HV_CHECK(lab[i][k] == s.name[i] + L[k], "labels", "label " << lab[i][k]);
      HV_CHECK(tab(i, k) == s.p[i][k], "table", "DH table entry " << i << "," << k);
    }
    HV_CHECK((typ[i] == ro::DHJointType::LINEAR) == s.lin[i], "types", "type of joint " << i);
    double v = r.u(-3, 3);
    HV_CHECK(close(c.getRelativeTransform(i, v).matrix(), link(s.p[i], s.lin[i], v, { { 0, 0, 0, 0 } })), "relative", "getRelativeTransform of joint " << i);
  }
  auto throws = [](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; };
  HV_CHECK(throws([&] { c.getFK(Eigen::VectorXd(Eigen::VectorXd::Zero(n + r.i(1, 3)))); }), "too-many", "more joint values than joints are accepted");
  if (m > 0)
  {
    Eigen::Matrix<double, Eigen::Dynamic, 4> few = off.topRows(r.i(0, m - 1));
    HV_CHECK(throws([&] { c.getFK<double>(q, few); }), "few-rows", "fewer rows of offsets than joint values are accepted");
  }
  HV_CHECK(throws([&] { c.getRelativeTransform(-1, 0); }) && throws([&] { c.getRelativeTransform(n, 0); }), "index", "an invalid joint index is accepted");
}
int main(int c, char** v) { return run(c, v, { { "chain", 3000, 100000, chain } }); }
