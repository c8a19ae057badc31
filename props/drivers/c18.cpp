// instantiates the conversions of every serialisable type; contains no logic of its own
#include <rct_optimizations/serialization/problems.h>
namespace rct_optimizations
{
#define RT(NAME, T) \
  YAML::Node drvEnc##NAME(const T& x) \
  { \
    YAML::Node n; \
    n = x; \
    return n; \
  } \
  T drvDec##NAME(const YAML::Node& n) { return n.as<T>(); }
RT(V2, Eigen::Vector2d)
RT(V3, Eigen::Vector3d)
RT(Iso, Eigen::Isometry3d)
RT(Intr, CameraIntrinsics)
RT(Corr2, Correspondence2D3D)
RT(Corr3, Correspondence3D3D)
RT(Obs2, Observation2D3D)
RT(Obs3, Observation3D3D)
RT(HE2, ExtrinsicHandEyeProblem2D3D)
RT(HE3, ExtrinsicHandEyeProblem3D3D)
RT(Res, ExtrinsicHandEyeResult)
DHTransform drvDecDHT(const YAML::Node& n) { return n.as<DHTransform>(); }
DHChain drvDecDH(const YAML::Node& n) { return n.as<DHChain>(); }
}  // namespace rct_optimizations
