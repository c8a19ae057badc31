// C10: standard deviations, correlations and the threshold filter
#include "common.h"
#include <rct_optimizations/covariance_analysis.h>
namespace ro = rct_optimizations;
using namespace hv;
static Eigen::MatrixXd randCov(Rng& r, int n)
{
  Eigen::MatrixXd A(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = r.n(1) * std::pow(10.0, r.u(-1, 1));
  Eigen::MatrixXd C = A * A.transpose();
  for (int i = 0; i < n; ++i)
    if (r.b(0.2)) { C.row(i).setZero(); C.col(i).setZero(); }  // a parameter that is known exactly
  if (n && r.b(0.3)) C *= std::pow(10.0, r.u(-6, 6));
  return C;
}
static double corr(const Eigen::MatrixXd& C, int i, int j)
{
  double a = std::sqrt(std::abs(C(i, i))), b = std::sqrt(std::abs(C(j, j)));
  if (i == j) return a;
  if (C(i, j) == 0) return 0;
  return C(i, j) / (a * b);
}
static void correlations(Rng& r)
{
  int n = r.i(1, 9);
  Eigen::MatrixXd C = randCov(r, n);
  DESC = "covariance=" + str(C);
  nontrivial();
  Eigen::MatrixXd o = ro::computeCorrelationsFromCovariance(C);
  HV_CHECK(o.rows() == n && o.cols() == n, "correlations:size", o.rows() << "x" << o.cols());
  if (o.rows() != n || o.cols() != n) return;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      HV_NEAR(o(i, j), corr(C, i, j), 1e-9, i == j ? "correlations:diagonal" : "correlations:offdiagonal", "entry " << i << "," << j);
}
static void square(Rng& r)
{
  int n = r.i(0, 5), m = r.i(0, 5);
  if (n == m) ++m;
  DESC = "size " + std::to_string(n) + "x" + std::to_string(m);
  nontrivial();
  bool thrown = false;
  try { ro::computeCorrelationsFromCovariance(Eigen::MatrixXd::Ones(n, m)); }
  catch (const ro::CovarianceException&) { thrown = true; }
  HV_CHECK(thrown, "correlations:nonsquare", "a matrix that is not square was accepted");
  thrown = false;
  std::vector<std::string> names;
  for (int i = 0; i < 8; ++i) names.push_back("n" + std::to_string(i));
  try { ro::computeCovarianceResults(Eigen::MatrixXd::Ones(n, m), names); }
  catch (const ro::CovarianceException&) { thrown = true; }
  HV_CHECK(thrown, "results:nonsquare", "a matrix that is not square was accepted");
}
static void results(Rng& r)
{
  int n = r.i(0, 9);
  Eigen::MatrixXd C = randCov(r, n);
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) names.push_back("p" + std::to_string(r.i(0, 99)) + "_" + std::to_string(i));
  DESC = "n=" + std::to_string(n) + " covariance=" + str(C);
  nontrivial();
  ro::CovarianceResult o = ro::computeCovarianceResults(C, names);
  HV_CHECK(o.covariance_matrix == C, "results:covariance_matrix", "the covariance matrix is not the input");
  HV_CHECK((int)o.standard_deviations.size() == n, "results:std:count", o.standard_deviations.size() << " standard deviations");
  std::size_t pairs = n * (n - 1) / 2;
  HV_CHECK(o.correlation_coeffs.size() == pairs, "results:corr:count", o.correlation_coeffs.size() << " correlations for " << n << " parameters");
  HV_CHECK(o.covariances.size() == pairs, "results:cov:count", o.covariances.size() << " covariances for " << n << " parameters");
  HV_CHECK(o.correlation_matrix.rows() == n && o.correlation_matrix.cols() == n, "results:correlation_matrix", "size");
  if ((int)o.standard_deviations.size() != n || o.correlation_coeffs.size() != pairs || o.covariances.size() != pairs || o.correlation_matrix.rows() != n) return;
  std::size_t k = 0;
  for (int i = 0; i < n; ++i)
  {
    HV_CHECK(o.standard_deviations[i].names.first == names[i] && o.standard_deviations[i].names.second.empty(), "results:std:name", "standard deviation " << i << " is called " << o.standard_deviations[i].names.first);
    HV_NEAR(o.standard_deviations[i].value, corr(C, i, i), 1e-9, "results:std", "standard deviation " << i);
    for (int j = 0; j < n; ++j) HV_NEAR(o.correlation_matrix(i, j), corr(C, i, j), 1e-9, "results:correlation_matrix", i << "," << j);
    for (int j = i + 1; j < n; ++j, ++k)
    {
      auto is = [&](const ro::NamedParam& q) { return q.names.first == names[i] && q.names.second == names[j]; };
      HV_CHECK(is(o.correlation_coeffs[k]), "results:corr:name", "correlation " << k << " is called " << o.correlation_coeffs[k].names.first << "," << o.correlation_coeffs[k].names.second);
      HV_CHECK(is(o.covariances[k]), "results:cov:name", "covariance " << k << " is called " << o.covariances[k].names.first << "," << o.covariances[k].names.second);
      HV_NEAR(o.correlation_coeffs[k].value, corr(C, i, j), 1e-9, "results:corr", "correlation of " << i << " and " << j);
      HV_NEAR(o.covariances[k].value, C(i, j), 1e-12, "results:cov", "covariance of " << i << " and " << j);
    }
  }
}
static void threshold(Rng& r)
{
  ro::CovarianceResult c;
  int n = r.i(0, 40);
  for (int i = 0; i < n; ++i)
  {
    ro::NamedParam p;
    p.names = { "a" + std::to_string(i), "b" + std::to_string(r.i(0, 9)) };
    p.value = r.b(0.3) ? 0.1 * r.i(-10, 10) : r.u(-1, 1);
    c.correlation_coeffs.push_back(p);
    if (r.b(0.2)) { p.value = r.u(-9, 9); c.covariances.push_back(p); }
  }
  double t = r.b(0.2) ? 0.1 * r.i(0, 10) : r.u(0, 1.1);
  std::vector<double> all;
  for (auto& p : c.correlation_coeffs) all.push_back(p.value);
  DESC = "threshold=" + std::to_string(t) + " coefficients=" + strv(all);
  nontrivial();
  auto o = c.getCorrelationCoeffOutsideThreshold(t);
  std::multiset<std::string> want, got;
  auto key = [](const ro::NamedParam& p) { return p.names.first + "|" + p.names.second + "|" + std::to_string(p.value); };
  for (auto& p : c.correlation_coeffs) if (std::abs(p.value) > t) want.insert(key(p));
  for (auto& p : o) got.insert(key(p));
  HV_CHECK(want == got, "threshold:set", got.size() << " coefficients returned, " << want.size() << " are larger than the threshold");
  for (std::size_t i = 1; i < o.size(); ++i)
    HV_CHECK(std::abs(o[i - 1].value) >= std::abs(o[i].value), "threshold:order", "coefficient " << i << " is larger than the one before");
}
int main(int c, char** v) { return run(c, v, { { "correlations", 3000, 100000, correlations }, { "nonsquare", 60, 300, square }, { "results", 2000, 60000, results }, { "threshold", 3000, 100000, threshold } }); }
