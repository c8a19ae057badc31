// instantiates the cost functor templates at double
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/maximum_likelihood.h>
namespace rct_optimizations
{
bool drvLikelihood(const Eigen::ArrayXXd& mean, const Eigen::ArrayXXd& stdev, const double* const* parameter, double* residual)
{
  MaximumLikelihood ml(mean, stdev);
  return ml(parameter, residual);
}
bool drvCircle3(const double& px, const double& py, const double* x, const double* y, const double* s, double* residual)
{
  CircleDistCost c(px, py);
  return c(x, y, s, residual);
}
bool drvCircle1(const double& px, const double& py, const double* sample, double* residual)
{
  CircleDistCost c(px, py);
  return c(sample, residual);
}
}  // namespace rct_optimizations
