// instantiates the templates of the headers so that their bodies are in the AST; contains no logic of its own
#include <ceres/jet.h>
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_image_tools/image_utils.h>
namespace rct_optimizations
{
using J = ceres::Jet<double, 6>;
template void transformPoint<double>(const double[3], const double[3], const double[3], double[3]);
template void poseTransformPoint<double>(const Pose6d&, const double[3], double[3]);
template void projectPoint<double>(const CameraIntrinsics&, const double[3], double[2]);
template Eigen::Matrix<double, 2, 1> projectPoint<double>(const CameraIntrinsics&, const Eigen::Matrix<double, 3, 1>&);
template void transformPoint<J>(const J[3], const J[3], const J[3], J[3]);
template void poseTransformPoint<J>(const Pose6d&, const J[3], J[3]);
template void projectPoint<J>(const CameraIntrinsics&, const J[3], J[2]);
template Eigen::Matrix<J, 2, 1> projectPoint<J>(const CameraIntrinsics&, const Eigen::Matrix<J, 3, 1>&);
}
