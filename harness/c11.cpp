// C11: covariance results of arbitrary problems: names, masks, order of blocks, failures
#include "common.h"
#include <ceres/ceres.h>
#include <glog/logging.h>
#include <rct_optimizations/covariance_analysis.h>
namespace ro = rct_optimizations;
using namespace hv;
// r = A x - b over several blocks
struct Linear : ceres::CostFunction
{
  Eigen::MatrixXd A;
  std::vector<int> sizes;
  Linear(const Eigen::MatrixXd& a, const std::vector<int>& s) : A(a), sizes(s)
  {
    set_num_residuals(A.rows());
    for (int n : s) mutable_parameter_block_sizes()->push_back(n);
  }
  bool Evaluate(double const* const* x, double* res, double** J) const override
  {
    Eigen::VectorXd v(A.cols());
    int k = 0;
    for (std::size_t b = 0; b < sizes.size(); ++b) for (int i = 0; i < sizes[b]; ++i) v[k++] = x[b][i];
    Eigen::Map<Eigen::VectorXd>(res, A.rows()) = A * v;
    if (J)
    {
      k = 0;
      for (std::size_t b = 0; b < sizes.size(); k += sizes[b++])
        if (J[b])
          for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < sizes[b]; ++j) J[b][i * sizes[b] + j] = A(i, k + j);
    }
    return true;
  }
};
struct Setup
{
  std::vector<int> sizes;
  std::vector<std::vector<double>> x;
  ceres::Problem problem;
  Eigen::MatrixXd cov;  // over all blocks in problem order
  std::vector<int> start;
  Setup(Rng& r, bool singular = false)
  {
    int nb = r.i(1, 5), n = 0;
    for (int b = 0; b < nb; ++b) { sizes.push_back(r.i(1, 6)); start.push_back(n); n += sizes.back(); x.emplace_back(sizes.back(), 0.3); }
    Eigen::MatrixXd A(n + 4, n);
    for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < n; ++j) A(i, j) = r.n(1);
    for (int j = 0; j < n; ++j) A.col(j) *= std::pow(2.0, r.i(-3, 3));
    if (singular) A.col(r.i(0, n - 1)).setZero();
    std::vector<double*> p;
    for (auto& v : x) p.push_back(v.data());
    problem.AddResidualBlock(new Linear(A, sizes), nullptr, p);
    if (!singular) cov = (A.transpose() * A).inverse();
  }
};
static void check(const std::string& K, const ro::CovarianceResult& o, const Eigen::MatrixXd& C, const std::vector<std::string>& names)
{
  std::size_t n = names.size();
  HV_CHECK(o.standard_deviations.size() == n, K + ":std:count", o.standard_deviations.size() << " standard deviations for " << n << " parameters");
  HV_CHECK(o.correlation_coeffs.size() == n * (n - 1) / 2 && o.covariances.size() == n * (n - 1) / 2 || n == 0, K + ":pairs:count", o.covariances.size() << " covariances");
  HV_CHECK((std::size_t)o.covariance_matrix.rows() == n && (std::size_t)o.covariance_matrix.cols() == n, K + ":matrix:size", o.covariance_matrix.rows());
  if (o.standard_deviations.size() != n || o.covariances.size() != (n ? n * (n - 1) / 2 : 0) || o.correlation_coeffs.size() != o.covariances.size() || (std::size_t)o.covariance_matrix.rows() != n) return;
  double s = C.size() ? C.cwiseAbs().maxCoeff() : 1;
  std::size_t k = 0;
  for (std::size_t i = 0; i < n; ++i)
  {
    HV_CHECK(o.standard_deviations[i].names.first == names[i], K + ":std:name", "standard deviation " << i << " is called '" << o.standard_deviations[i].names.first << "', expected '" << names[i] << "'");
    HV_NEAR(o.standard_deviations[i].value, std::sqrt(C(i, i)), 1e-5, K + ":std:value", names[i]);
    for (std::size_t j = 0; j < n; ++j) HV_NEAR(o.covariance_matrix(i, j) / s, C(i, j) / s, 1e-5, K + ":matrix", i << "," << j);
    for (std::size_t j = i + 1; j < n; ++j, ++k)
    {
      HV_CHECK(o.covariances[k].names == std::make_pair(names[i], names[j]), K + ":cov:name", "covariance " << k << " is called " << o.covariances[k].names.first << "," << o.covariances[k].names.second);
      HV_CHECK(o.correlation_coeffs[k].names == std::make_pair(names[i], names[j]), K + ":corr:name", "correlation " << k << " is called " << o.correlation_coeffs[k].names.first << "," << o.correlation_coeffs[k].names.second);
      HV_NEAR(o.covariances[k].value / s, C(i, j) / s, 1e-5, K + ":cov:value", names[i] << "," << names[j]);
      HV_NEAR(o.correlation_coeffs[k].value, C(i, j) / std::sqrt(C(i, i) * C(j, j)), 1e-4, K + ":corr:value", names[i] << "," << names[j]);
    }
  }
}
static void four(Rng& r)
{
  Setup s(r);
  int nb = s.sizes.size();
  // a selection of the blocks in some order
  std::vector<int> sel;
  for (int b = 0; b < nb; ++b) sel.push_back(b);
  for (int i = nb - 1; i > 0; --i) std::swap(sel[i], sel[r.i(0, i)]);
  if (r.b(0.4)) sel.resize(r.i(1, nb));
  bool all = r.b(0.3), named = r.b(0.7);
  if (all)
  {
    sel.clear();
    std::vector<double*> order;
    s.problem.GetParameterBlocks(&order);
    for (double* q : order) for (int b = 0; b < nb; ++b) if (s.x[b].data() == q) sel.push_back(b);
  }
  std::map<const double*, std::vector<int>> masks;
  for (int b = 0; b < nb; ++b)
    if (r.b(0.4))
      for (int i = 0; i < s.sizes[b]; ++i) if (r.b(0.4)) masks[s.x[b].data()].push_back(i);
  std::map<const double*, std::vector<std::string>> names;
  std::vector<const double*> blocks;
  std::vector<std::string> want;
  std::vector<int> idx;
  std::ostringstream d;
  d << (all ? "all" : "selected") << (named ? " named" : " default") << " blocks:";
  for (std::size_t q = 0; q < sel.size(); ++q)
  {
    int b = sel[q];
    blocks.push_back(s.x[b].data());
    d << " " << b << "(" << s.sizes[b] << ")";
    auto m = masks.count(s.x[b].data()) ? masks[s.x[b].data()] : std::vector<int>();
    for (int i = 0; i < s.sizes[b]; ++i)
    {
      std::string nm = named ? "B" + std::to_string(b) + "." + std::to_string(i) + "x" + std::to_string(r.i(0, 99)) : "block" + std::to_string(q) + "_element" + std::to_string(i);
      if (named) names[s.x[b].data()].push_back(nm);
      if (std::find(m.begin(), m.end(), i) != m.end()) { d << " -" << i; continue; }
      want.push_back(nm);
      idx.push_back(s.start[b] + i);
    }
  }
  DESC = d.str();
  nontrivial();
  Eigen::MatrixXd C(want.size(), want.size());
  for (std::size_t i = 0; i < idx.size(); ++i) for (std::size_t j = 0; j < idx.size(); ++j) C(i, j) = s.cov(idx[i], idx[j]);
  std::string K = std::string(all ? "all" : "blocks") + (named ? "-named" : "");
  if (all && named) check(K, ro::computeCovariance(s.problem, names, masks), C, want);
  else if (all) check(K, ro::computeCovariance(s.problem, masks), C, want);
  else if (named) check(K, ro::computeCovariance(s.problem, blocks, names, masks), C, want);
  else check(K, ro::computeCovariance(s.problem, blocks, masks), C, want);
}
static void refuse(Rng& r)
{
  int kind = r.i(0, 4);
  Setup s(r, kind == 3);
  std::vector<const double*> blocks;
  std::map<const double*, std::vector<std::string>> names;
  for (std::size_t b = 0; b < s.sizes.size(); ++b)
  {
    blocks.push_back(s.x[b].data());
    for (int i = 0; i < s.sizes[b]; ++i) names[s.x[b].data()].push_back("n");
  }
  int b = r.i(0, (int)blocks.size() - 1);
  if (kind == 0) names[blocks[b]].push_back("extra");
  if (kind == 1) names[blocks[b]].pop_back();
  static double other[3];
  if (kind == 4)
  {
    // one block more that is not part of the problem
    blocks.insert(blocks.begin() + r.i(0, blocks.size()), other);
    names[other] = { "a", "b", "c" };
  }
  if (kind == 2) { if (r.b()) names[other] = { "a" }; else names.erase(blocks[b]); }
  DESC = "kind " + std::to_string(kind) + " blocks " + std::to_string(blocks.size());
  if (kind == 3)
  {
    // the library itself decides whether the computation fails
    ceres::Covariance c{ ro::DefaultCovarianceOptions() };
    if (c.Compute(blocks, &s.problem)) return;
    std::vector<double*> q;
    s.problem.GetParameterBlocks(&q);
    if (c.Compute(std::vector<const double*>(q.begin(), q.end()), &s.problem)) return;
  }
  nontrivial();
  for (int v = 0; v < 2; ++v)
  {
    bool thrown = false;
    if (kind == 4 && v == 0)
    {
      try { ro::computeCovariance(s.problem, blocks, std::map<const double*, std::vector<int>>()); }
      catch (const ro::CovarianceException&) { thrown = true; }
    }
    else try { v ? ro::computeCovariance(s.problem, blocks, names) : ro::computeCovariance(s.problem, names); }
    catch (const ro::CovarianceException&) { thrown = true; }
    const char* K[] = { "refuse:too-many-names", "refuse:too-few-names", "refuse:block-count", "refuse:rank-deficient", "refuse:unknown-block" };
    HV_CHECK(thrown, K[kind], "no CovarianceException");
  }
}
int main(int c, char** v) { google::InitGoogleLogging("c11"); FLAGS_minloglevel = 3; return run(c, v, { { "covariance", 2500, 60000, four }, { "refuse", 300, 6000, refuse } }); }
