// C22: circle fits (problem, result, covariance) and the prior cost
#include "ceres_spy.h"
#include "geom.h"
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/maximum_likelihood.h>
using namespace hv;
static double res(const V2& o, double x, double y, double r) { return r * r - (o.x() - x) * (o.x() - x) - (o.y() - y) * (o.y() - y); }
static ro::CircleFitProblem problem(Rng& r, double x, double y, double rad, double noise, int n)
{
  ro::CircleFitProblem p;
  for (int i = 0; i < n; ++i)
  {
    double a = r.u(0, 2 * M_PI);
    p.observations.emplace_back(x + (rad + noise * r.n()) * std::cos(a), y + (rad + noise * r.n()) * std::sin(a));
    if (i && r.b(0.1)) p.observations.back() = p.observations[r.i(0, i - 1)];
  }
  p.x_center_initial = x + r.u(-0.1, 0.1);
  p.y_center_initial = y + r.u(-0.1, 0.1);
  p.radius_initial = rad * r.u(0.8, 1.2);
  return p;
}
static void covariance(const ro::CircleFitResult& res, const std::vector<V2>& obs, const std::string& K)
{
  Eigen::MatrixXd J(obs.size(), 3);
  for (std::size_t i = 0; i < obs.size(); ++i) J.row(i) << 2 * (obs[i].x() - res.x_center), 2 * (obs[i].y() - res.y_center), 2 * res.radius;
  Eigen::Matrix3d A = J.transpose() * J;
  Eigen::JacobiSVD<Eigen::Matrix3d> svd(A);
  if (svd.singularValues()[2] < 1e-8 * svd.singularValues()[0]) return;
  Eigen::Matrix3d C = A.inverse();
  const char* L[3] = { "x", "y", "r" };
  const auto& c = res.covariance;
  HV_CHECK(c.standard_deviations.size() == 3 && c.covariance_matrix.rows() == 3 && c.covariances.size() == 3 && c.correlation_coeffs.size() == 3, K + ":sizes", c.standard_deviations.size() << " standard deviations");
  if (c.standard_deviations.size() != 3 || c.covariance_matrix.rows() != 3 || c.covariances.size() != 3 || c.correlation_coeffs.size() != 3) return;
  std::size_t k = 0;
  for (int i = 0; i < 3; ++i)
  {
    HV_CHECK(c.standard_deviations[i].names.first == L[i], K + ":name", "standard deviation " << i << " is called " << c.standard_deviations[i].names.first);
    HV_NEAR(c.standard_deviations[i].value, std::sqrt(C(i, i)), 1e-6, K + ":std", "standard deviation of " << L[i]);
    for (int j = i + 1; j < 3; ++j, ++k)
    {
      HV_NEAR(c.covariances[k].value, C(i, j), 1e-6, K + ":cov", "covariance of " << L[i] << " and " << L[j]);
      HV_NEAR(c.correlation_coeffs[k].value, C(i, j) / std::sqrt(C(i, i) * C(j, j)), 1e-5, K + ":corr", "correlation of " << L[i] << " and " << L[j]);
    }
  }
}
static void spied(Rng& r)
{
  arm(r);
  auto p = problem(r, r.u(-3, 3), r.u(-3, 3), r.u(0.3, 5), 0.02, r.i(1, 40));
  if (r.b(0.1)) p.radius_initial = 0;
  DESC = std::to_string(p.observations.size()) + " points, guess " + std::to_string(p.x_center_initial) + " " + std::to_string(p.y_center_initial) + " " + std::to_string(p.radius_initial);
  nontrivial();
  auto o = ro::optimize(p);
  std::vector<double> f, g;
  for (const auto& q : p.observations)
  {
    f.push_back(std::pow(res(q, o.x_center, o.y_center, o.radius), 2));
    g.push_back(std::pow(res(q, p.x_center_initial, p.y_center_initial, p.radius_initial), 2));
  }
  checkOptimizer("circle", { o.converged, o.initial_cost_per_obs, o.final_cost_per_obs }, f, g);
}
static void real(Rng& r)
{
  spy.reset();
  spy.real = true;
  spy.fake_cov = false;
  double x = r.u(-3, 3), y = r.u(-3, 3), rad = r.u(0.3, 5);
  bool noisy = r.b(0.6);
  auto p = problem(r, x, y, rad, noisy ? 0.02 : 0, r.i(8, 60));
  DESC = std::to_string(p.observations.size()) + " points of the circle " + std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(rad);
  nontrivial();
  auto o = ro::optimize(p);
  HV_CHECK(o.converged, "real:converged", "no convergence");
  if (!noisy)
  {
    HV_NEAR(o.x_center, x, 1e-4, "real:x", "centre");
    HV_NEAR(o.y_center, y, 1e-4, "real:y", "centre");
    HV_NEAR(o.radius, rad, 1e-4, "real:r", "radius");
  }
  double c = 0;
  for (const auto& q : p.observations) c += std::pow(res(q, o.x_center, o.y_center, o.radius), 2);
  HV_NEAR(o.final_cost_per_obs, c / 2 / p.observations.size(), 1e-6, "real:cost", "final cost per observation");
  covariance(o, p.observations, "real:covariance");
  spy.reset();
  spy.real = false;
  spy.fake_cov = true;
}
static void likelihood(Rng& r)
{
  int a = r.i(0, 6), b = r.i(1, 5), c = a, d = b;
  bool same = r.b(0.6);
  if (!same) { c = r.b(0.5) ? b : r.i(0, 6); d = r.b(0.5) ? a : r.i(1, 5); if (r.b(0.3)) { c = a * b; d = 1; } }
  same = a == c && b == d;
  Eigen::ArrayXXd m(a, b), s(c, d);
  for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) m(i, j) = r.n(3);
  for (int i = 0; i < c; ++i) for (int j = 0; j < d; ++j) s(i, j) = std::pow(10, r.u(-4, 2)) * (r.b(0.1) ? -1 : 1);
  std::ostringstream t;
  t << "mean " << a << "x" << b << " deviations " << c << "x" << d;
  DESC = t.str();
  nontrivial();
  try
  {
    ro::MaximumLikelihood ml(m, s);
    HV_CHECK(same, "prior:shape", "arrays of different shapes are accepted");
    if (!same) return;
    std::vector<double> x(a * b + 1), e(a * b + 1, -7);
    for (auto& v : x) v = r.n(3);
    const double* px = x.data();
    HV_CHECK(ml(&px, e.data()), "prior:ok", "the evaluation fails");
    for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i)
      HV_NEAR(e[j * a + i], (x[j * a + i] - m(i, j)) / s(i, j), 1e-10, "prior:residual", "element " << i << "," << j);
    HV_CHECK(e[a * b] == -7, "prior:overrun", "a residual past the end is written");
  }
  catch (const ro::OptimizationException&)
  {
    HV_CHECK(!same, "prior:refused", "arrays of the same shape are refused");
  }
}
static void functor(Rng& r)
{
  V2 o(r.u(-3, 3), r.u(-3, 3));
  double p[3] = { r.u(-3, 3), r.u(-3, 3), r.u(-2, 2) }, e = 0, f = 0;
  DESC = "point " + str(o.transpose()) + " x,y,s " + strv({ p[0], p[1], p[2] });
  nontrivial();
  ro::CircleDistCost c(o.x(), o.y());
  bool ok = c(p, &e) && c(p, p + 1, p + 2, &f);
  HV_CHECK(ok, "functor:ok", "the evaluation fails");
  HV_NEAR(e, res(o, p[0], p[1], p[2] * p[2]), 1e-10, "functor:one-block", "residual");
  HV_NEAR(f, res(o, p[0], p[1], p[2] * p[2]), 1e-10, "functor:three-blocks", "residual");
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "spied", 800, 10000, spied }, { "real", 300, 4000, real }, { "likelihood", 2000, 30000, likelihood }, { "functor", 2000, 30000, functor } });
}
