#include <rct_optimizations/covariance_types.h>
namespace rct_optimizations
{
std::vector<NamedParam> drvOutside(const CovarianceResult& r, double t) { return r.getCorrelationCoeffOutsideThreshold(t); }
}
