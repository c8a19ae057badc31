// Stand-in for ceres::Solve / ceres::Covariance: it observes the least-squares problem the code under test builds, moves the
// optimised parameters to an arbitrary point and returns a chosen summary.  With spy.real the real library runs.
#pragma once
#include "common.h"
#include <ceres/ceres.h>
#include <dlfcn.h>
#include <functional>

namespace hv
{
struct Block
{
  double sq0 = 0, sq1 = 0;   // squared residual norm at the initial point / at the final point
  int dim = 0;
  bool ok0 = true, ok1 = true, loss = false;
  std::vector<double> r0, r1;
};
struct Spy
{
  bool real = false;
  double scale = 0.05;                 // size of the displacement
  int term = 0;                        // termination type to report
  double c0 = 3.5, c1 = 1.25;          // costs to report
  uint64_t seed = 1;
  // observed
  int calls = 0;
  std::vector<Block> blocks;           // of the last call
  int num_residuals = 0;
  std::map<const double*, double> x;   // final value of every scalar of every parameter block
  std::set<const double*> constant, used;
  ceres::Solver::Options options;
  double jac_err = 0;                  // largest disagreement between the code's derivatives and finite differences
  bool jac_nan = false;
  bool check_jac = false;
  std::string jac_what;
  // covariance
  bool fake_cov = true;
  bool cov_compute_ok = true, cov_get_ok = true;
  int cov_calls = 0;
  std::vector<const double*> cov_blocks;
  std::vector<const double*> cov_scalars;
  std::map<const double*, int> bsize;
  std::map<const double*, double> sigma;  // standard deviation that the stand-in assigned to a scalar
  std::vector<ceres::Solver::Summary> summaries;
  // nested solves: 0 observe, 1 run the real solver, 2 run the real solver but report that it did not converge
  std::function<int(ceres::Problem*)> mode;
  void reset() { bool r = real, f = fake_cov; *this = Spy(); real = r; fake_cov = f; }
};
inline Spy spy;

inline double covEntry(const double* a, const double* b)
{
  double sa = spy.sigma[a], sb = spy.sigma[b];
  if (a == b) return sa * sa;
  // a correlation that depends on the unordered pair
  std::size_t i = 0, j = 0;
  for (std::size_t k = 0; k < spy.cov_scalars.size(); ++k) { if (spy.cov_scalars[k] == a) i = k; if (spy.cov_scalars[k] == b) j = k; }
  double lo = std::min(i, j), hi = std::max(i, j);
  double rho = 0.9 * std::sin(1.0 + 3.1 * lo + 7.3 * hi);
  return rho * sa * sb;
}

inline void spySolve(const ceres::Solver::Options& options, ceres::Problem* problem, ceres::Solver::Summary* summary)
{
  spy.calls++;
  spy.options = options;
  spy.blocks.clear();
  spy.x.clear();
  spy.constant.clear();
  spy.used.clear();
  std::vector<ceres::ResidualBlockId> ids;
  problem->GetResidualBlocks(&ids);
  std::vector<double*> params;
  problem->GetParameterBlocks(&params);
  spy.num_residuals = 0;
  for (auto id : ids)
  {
    Block b;
    b.dim = problem->GetCostFunctionForResidualBlock(id)->num_residuals();
    b.loss = problem->GetLossFunctionForResidualBlock(id) != nullptr;
    b.r0.resize(b.dim);
    double cost = 0;
    b.ok0 = problem->EvaluateResidualBlock(id, false, &cost, b.r0.data(), nullptr);
    for (double v : b.r0) b.sq0 += v * v;
    spy.num_residuals += b.dim;
    spy.blocks.push_back(b);
    std::vector<double*> ps;
    problem->GetParameterBlocksForResidualBlock(id, &ps);
    for (double* p : ps) spy.used.insert(p);
  }
  Rng r(mix(spy.seed * 77 + spy.calls));
  if (spy.check_jac)
  {
    long k = 0;
    for (auto id : ids)
    {
      if (++k > 12) break;
      std::vector<double*> ps;
      problem->GetParameterBlocksForResidualBlock(id, &ps);
      int dim = problem->GetCostFunctionForResidualBlock(id)->num_residuals();
      std::vector<std::vector<double>> J(ps.size());
      std::vector<double*> jp;
      for (std::size_t q = 0; q < ps.size(); ++q) { J[q].resize(dim * problem->ParameterBlockSize(ps[q])); jp.push_back(J[q].data()); }
      std::vector<double> res(dim), rp(dim), rm(dim);
      double cost;
      problem->EvaluateResidualBlock(id, false, &cost, res.data(), jp.data());
      for (std::size_t q = 0; q < ps.size(); ++q)
        for (int e = 0; e < problem->ParameterBlockSize(ps[q]); ++e)
        {
          double old = ps[q][e], h = 1e-6 * (1 + std::abs(old));
          if (problem->IsParameterBlockConstant(ps[q])) continue;
          ps[q][e] = old + h;
          problem->EvaluateResidualBlock(id, false, &cost, rp.data(), nullptr);
          ps[q][e] = old - h;
          problem->EvaluateResidualBlock(id, false, &cost, rm.data(), nullptr);
          ps[q][e] = old;
          for (int d = 0; d < dim; ++d)
          {
            double num = (rp[d] - rm[d]) / (2 * h), ana = J[q][d * problem->ParameterBlockSize(ps[q]) + e];
            if (std::isnan(ana) || std::isinf(ana)) spy.jac_nan = true;
            double err = std::abs(num - ana) / (1 + std::abs(num) + std::abs(ana));
            if (err > spy.jac_err) { spy.jac_err = err; std::ostringstream s; s << "analytic " << ana << " numeric " << num; spy.jac_what = s.str(); }
          }
        }
    }
  }
  for (double* p : params)
  {
    int n = problem->ParameterBlockSize(p);
    bool c = problem->IsParameterBlockConstant(p);
    if (c) spy.constant.insert(p);
    if (!c && spy.used.count(p))
      for (int i = 0; i < n; ++i) p[i] += spy.scale * r.u(-1, 1) * (std::abs(p[i]) > 20 ? std::abs(p[i]) : 1.0);
    for (int i = 0; i < n; ++i) spy.x[p + i] = p[i];
  }
  std::size_t k = 0;
  for (auto id : ids)
  {
    Block& b = spy.blocks[k++];
    b.r1.resize(b.dim);
    double cost = 0;
    b.ok1 = problem->EvaluateResidualBlock(id, false, &cost, b.r1.data(), nullptr);
    for (double v : b.r1) b.sq1 += v * v;
  }
  summary->termination_type = static_cast<ceres::TerminationType>(spy.term);
  summary->initial_cost = spy.c0;
  summary->final_cost = spy.c1;
  summary->fixed_cost = 0;
  summary->num_residuals = spy.num_residuals;
  summary->num_residual_blocks = (int)ids.size();
  summary->num_residuals_reduced = spy.num_residuals;
  summary->num_residual_blocks_reduced = (int)ids.size();
  summary->num_parameter_blocks = (int)params.size();
  summary->num_parameters = problem->NumParameters();
  summary->num_successful_steps = 4;
  summary->num_unsuccessful_steps = 2;
  summary->total_time_in_seconds = 0.25;
  summary->message = "stand-in";
  spy.summaries.push_back(*summary);
}

using SolveFn = void (*)(const ceres::Solver::Options&, ceres::Problem*, ceres::Solver::Summary*);

// sorted squared norms, for comparison as multisets
inline std::vector<double> sq(bool initial)
{
  std::vector<double> v;
  for (const auto& b : spy.blocks) v.push_back(initial ? b.sq0 : b.sq1);
  std::sort(v.begin(), v.end());
  return v;
}
inline bool sameMultiset(std::vector<double> a, std::vector<double> b, double tol = 1e-6)
{
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (a.size() != b.size()) return false;
  double m = 1;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!near(a[i], b[i], tol) && !near(std::sqrt(a[i]), std::sqrt(b[i]), tol)) return false;
  (void)m;
  return true;
}
// what an optimiser promises about the problem it hands to the solver and about the result it returns
struct OptView { bool converged; double c0, c1; };
inline void checkOptimizer(const std::string& k, const OptView& v, const std::vector<double>& spec_final, const std::vector<double>& spec_initial, bool free_all = true)
{
  HV_CHECK(spy.calls == 1, k + ":solve-calls", "the solver was called " << spy.calls << " times");
  bool loss = false, ok = true;
  for (auto& b : spy.blocks) { loss |= b.loss; ok &= b.ok0 && b.ok1; }
  if (free_all) HV_CHECK(spy.constant.empty(), k + ":constant", spy.constant.size() << " parameter blocks are held constant");
  HV_CHECK(!loss, k + ":loss", "a residual is wrapped in a robust loss although the model is plain least squares");
  HV_CHECK(ok, k + ":evaluation-failed", "a residual block refuses to be evaluated");
  HV_CHECK(spy.blocks.size() == spec_final.size(), k + ":block-count",
           "residual blocks: code " << spy.blocks.size() << ", one per correspondence would be " << spec_final.size());
  HV_CHECK(sameMultiset(sq(false), spec_final), k + ":residual",
           "squared residuals at the optimised point do not match the returned result: code " << strv(sq(false)) << " specification "
                                                                                               << [&] { auto c = spec_final; std::sort(c.begin(), c.end()); return strv(c); }());
  HV_CHECK(sameMultiset(sq(true), spec_initial), k + ":guess",
           "the optimisation does not start from the given guess: squared residuals code " << strv(sq(true)) << " specification "
                                                                                          << [&] { auto c = spec_initial; std::sort(c.begin(), c.end()); return strv(c); }());
  if (spy.check_jac && ok)
  {
    HV_CHECK(!spy.jac_nan, k + ":derivative-nan", "a derivative of a residual is not finite at the initial point");
    HV_CHECK(spy.jac_err < 2e-3, k + ":derivative", "derivatives of the residuals do not match finite differences: " << spy.jac_what);
  }
  HV_CHECK(v.converged == (spy.term == ceres::CONVERGENCE), k + ":converged", "converged=" << v.converged << " for termination type " << spy.term);
  HV_NEAR(v.c0, spy.c0 / spy.num_residuals, 1e-12, k + ":initial-cost", "initial_cost_per_obs");
  HV_NEAR(v.c1, spy.c1 / spy.num_residuals, 1e-12, k + ":final-cost", "final_cost_per_obs");
}
inline void arm(Rng& r)
{
  spy.reset();
  spy.seed = r.g();
  static const int T[] = { 0, 0, 1, 2, 3 };
  spy.term = T[r.i(0, 4)];
  spy.c0 = r.u(1, 100);
  spy.c1 = r.u(0.001, 1);
  spy.scale = r.b(0.5) ? 0.03 : 0.2;
  spy.check_jac = r.b(0.3);
}
}  // namespace hv

namespace ceres
{
void Solve(const Solver::Options& options, Problem* problem, Solver::Summary* summary)
{
  int mode = hv::spy.mode ? hv::spy.mode(problem) : 0;
  if (hv::spy.real || mode)
  {
    static hv::SolveFn f = (hv::SolveFn)dlsym(RTLD_NEXT, "_ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE");
    if (mode)
    {
      f(options, problem, summary);
      if (mode == 2) summary->termination_type = ceres::NO_CONVERGENCE;
      return;
    }
    hv::spy.calls++;
    f(options, problem, summary);
    hv::spy.summaries.push_back(*summary);
    return;
  }
  hv::spySolve(options, problem, summary);
}
void Solver::Solve(const Solver::Options& options, Problem* problem, Solver::Summary* summary)
{
  if (hv::spy.real)
  {
    static void* f = dlsym(RTLD_NEXT, "_ZN5ceres6Solver5SolveERKNS0_7OptionsEPNS_7ProblemEPNS0_7SummaryE");
    using F = void (*)(Solver*, const Solver::Options&, Problem*, Solver::Summary*);
    hv::spy.calls++;
    ((F)f)(this, options, problem, summary);
    hv::spy.summaries.push_back(*summary);
    return;
  }
  hv::spySolve(options, problem, summary);
}
bool Covariance::Compute(const std::vector<const double*>& blocks, Problem* problem)
{
  if (!hv::spy.fake_cov)
  {
    static void* f = dlsym(RTLD_NEXT, "_ZN5ceres10Covariance7ComputeERKSt6vectorIPKdSaIS3_EEPNS_7ProblemE");
    using F = bool (*)(Covariance*, const std::vector<const double*>&, Problem*);
    return ((F)f)(this, blocks, problem);
  }
  auto& s = hv::spy;
  s.cov_calls++;
  s.cov_blocks = blocks;
  s.cov_scalars.clear();
  s.sigma.clear();
  s.bsize.clear();
  double v = 0.37;
  // the stand-in's numbers follow the problem's own order of parameter blocks, not the order of the request
  std::vector<double*> all;
  problem->GetParameterBlocks(&all);
  for (double* b : all)
  {
    s.bsize[b] = problem->ParameterBlockSize(b);
    for (int i = 0; i < problem->ParameterBlockSize(b); ++i)
    {
      s.cov_scalars.push_back(b + i);
      s.sigma[b + i] = v;
      v = v * 1.13 + 0.011;
    }
  }
  return s.cov_compute_ok;
}
bool Covariance::GetCovarianceMatrix(const std::vector<const double*>& blocks, double* out) const
{
  if (!hv::spy.fake_cov)
  {
    static void* f = dlsym(RTLD_NEXT, "_ZNK5ceres10Covariance19GetCovarianceMatrixERKSt6vectorIPKdSaIS3_EEPd");
    using F = bool (*)(const Covariance*, const std::vector<const double*>&, double*);
    return ((F)f)(this, blocks, out);
  }
  auto& s = hv::spy;
  if (!s.cov_get_ok) return false;
  std::vector<const double*> sc;
  for (const double* b : blocks)
  {
    auto it = s.bsize.find(b);
    if (it == s.bsize.end()) return false;
    for (int i = 0; i < it->second; ++i) sc.push_back(b + i);
  }
  for (std::size_t i = 0; i < sc.size(); ++i)
    for (std::size_t j = 0; j < sc.size(); ++j) out[i * sc.size() + j] = hv::covEntry(sc[i], sc[j]);
  return true;
}
}  // namespace ceres
namespace hv
{
// covariance labels: the standard deviation named <prefix>_<c> must be that of the scalar that holds component c (x y z rx ry rz)
// of the returned pose or of its inverse (the optimiser is free to work on the inverse)
template <typename Cov>
inline void checkPoseLabels(const std::string& k, const Cov& cov, const std::string& prefix, const Iso& T)
{
  // the optimiser's rotation vector may have left the ball of radius pi
  auto comps = [](const Iso& t, int wrap) {
    Eigen::AngleAxisd aa(t.linear());
    V3 w = (aa.angle() + wrap * 2 * M_PI) * aa.axis();
    return std::map<std::string, double>{ { "rx", w[0] }, { "ry", w[1] }, { "rz", w[2] }, { "x", t.translation()[0] }, { "y", t.translation()[1] }, { "z", t.translation()[2] } };
  };
  int good = 0;
  std::string bad;
  for (int q = 0; q < 6; ++q)
  {
    auto c = comps(q % 2 ? T.inverse() : T, q / 2 - 1);
    bool all = true;
    for (auto& kv : c)
    {
      int found = 0;
      bool match = false;
      for (const auto& sd : cov.standard_deviations)
        if (sd.names.first == prefix + "_" + kv.first)
        {
          ++found;
          for (const auto& s : spy.sigma)
            if (near(s.second, sd.value, 1e-9) && near(spy.x[s.first], kv.second, 1e-6)) match = true;
        }
      if (found != 1 || !match) { all = false; if (bad.empty()) bad = prefix + "_" + kv.first + (found != 1 ? " is reported " + std::to_string(found) + " times" : " is not the standard deviation of that component"); }
    }
    good += all;
  }
  HV_CHECK(good > 0, k + ":labels:" + prefix, bad);
}
}  // namespace hv
