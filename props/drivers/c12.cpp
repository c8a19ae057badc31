#include <sstream>
#include <rct_optimizations/dh_chain.h>
namespace rct_optimizations
{
Eigen::Isometry3d drvRelative(const DHTransform& t, double v, const Eigen::Matrix<double, 1, 4>& o) { return t.createRelativeTransform(v, o); }
Eigen::Isometry3d drvRelative0(const DHTransform& t, double v) { return t.createRelativeTransform(v); }
Eigen::Isometry3d drvFK(const DHChain& c, const Eigen::VectorXd& q) { return c.getFK(q); }
Eigen::Isometry3d drvFKOffsets(const DHChain& c, const Eigen::VectorXd& q, const Eigen::Matrix<double, Eigen::Dynamic, 4>& o) { return c.getFK(q, o); }
DHChain drvChain(const std::vector<DHTransform>& t, const Eigen::Isometry3d& b) { return DHChain(t, b); }
DHChain drvOffset(const DHChain& c, const Eigen::MatrixX4d& o) { return DHChain(c, o); }
Eigen::VectorXd drvRandom(const DHChain& c) { return c.createUniformlyRandomPose(); }
}
