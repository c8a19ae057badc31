#include <sstream>
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
namespace rct_optimizations
{
bool drv2D(const Eigen::Vector2d& obs, const Eigen::Vector3d& pt, const CameraIntrinsics& intr, const DHChain& cc, const DHChain& tc, const Eigen::VectorXd& cq, const Eigen::VectorXd& tq,
           Eigen::MatrixX4d& co, Eigen::MatrixX4d& to, Eigen::Vector3d& cp, Eigen::Vector3d& ca, Eigen::Vector3d& tp, Eigen::Vector3d& ta, Eigen::Vector3d& bp, Eigen::Vector3d& ba, Eigen::Vector2d& r)
{
  DualDHChainCost2D3D cost(obs, pt, intr, cc, tc, cq, tq);
  std::vector<double*> p = DualDHChainCost::constructParameters(co, to, cp, ca, tp, ta, bp, ba);
  return cost(p.data(), r.data());
}
bool drv6D(const KinematicMeasurement& m, const DHChain& cc, const DHChain& tc, double w,
           Eigen::MatrixX4d& co, Eigen::MatrixX4d& to, Eigen::Vector3d& cp, Eigen::Vector3d& ca, Eigen::Vector3d& tp, Eigen::Vector3d& ta, Eigen::Vector3d& bp, Eigen::Vector3d& ba, Eigen::Vector4d& r)
{
  DualDHChainCostPose6D cost(m, cc, tc, w);
  std::vector<double*> p = DualDHChainCost::constructParameters(co, to, cp, ca, tp, ta, bp, ba);
  return cost(p.data(), r.data());
}
std::vector<int> drvMask(const Eigen::Array<bool, Eigen::Dynamic, 4>& m) { return createDHMask(m); }
using Labels = std::map<const double*, std::vector<std::string>>;
using L3 = std::array<std::string, 3>;
using L4 = std::vector<std::array<std::string, 4>>;
Labels drvLabels(const L4& cc, const L4& tc, const L3& cp, const L3& ca, const L3& tp, const L3& ta, const L3& bp, const L3& ba,
                 Eigen::MatrixX4d& co, Eigen::MatrixX4d& to, Eigen::Vector3d& vcp, Eigen::Vector3d& vca, Eigen::Vector3d& vtp, Eigen::Vector3d& vta, Eigen::Vector3d& vbp, Eigen::Vector3d& vba)
{
  return DualDHChainCost::constructParameterLabels(DualDHChainCost::constructParameters(co, to, vcp, vca, vtp, vta, vbp, vba), cc, tc, cp, ca, tp, ta, bp, ba);
}
std::map<const double*, std::vector<int>> drvMasks(const std::array<std::vector<int>, 8>& masks,
                 Eigen::MatrixX4d& co, Eigen::MatrixX4d& to, Eigen::Vector3d& vcp, Eigen::Vector3d& vca, Eigen::Vector3d& vtp, Eigen::Vector3d& vta, Eigen::Vector3d& vbp, Eigen::Vector3d& vba)
{
  return DualDHChainCost::constructParameterMasks(DualDHChainCost::constructParameters(co, to, vcp, vca, vtp, vta, vbp, vba), masks);
}
std::map<const double*, std::string> drvNames(Eigen::MatrixX4d& co, Eigen::MatrixX4d& to, Eigen::Vector3d& vcp, Eigen::Vector3d& vca, Eigen::Vector3d& vtp, Eigen::Vector3d& vta, Eigen::Vector3d& vbp, Eigen::Vector3d& vba)
{
  return DualDHChainCost::constructParameterNames(DualDHChainCost::constructParameters(co, to, vcp, vca, vtp, vta, vbp, vba));
}
}
