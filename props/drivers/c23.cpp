// instantiates the equality of the public types
#include <rct_optimizations/extrinsic_hand_eye.h>
namespace rct_optimizations
{
bool drvEqIntr(const CameraIntrinsics& a, const CameraIntrinsics& b) { return a == b; }
bool drvEqCorr2(const Correspondence2D3D& a, const Correspondence2D3D& b) { return a == b; }
bool drvEqCorr3(const Correspondence3D3D& a, const Correspondence3D3D& b) { return a == b; }
bool drvEqObs2(const Observation2D3D& a, const Observation2D3D& b) { return a == b; }
bool drvEqObs3(const Observation3D3D& a, const Observation3D3D& b) { return a == b; }
bool drvEqKin2(const KinObservation2D3D& a, const KinObservation2D3D& b) { return a == b; }
bool drvEqKin3(const KinObservation3D3D& a, const KinObservation3D3D& b) { return a == b; }
bool drvEqMeas(const KinematicMeasurement& a, const KinematicMeasurement& b) { return a == b; }
bool drvEqHand2(const ExtrinsicHandEyeProblem2D3D& a, const ExtrinsicHandEyeProblem2D3D& b) { return a == b; }
bool drvEqHand3(const ExtrinsicHandEyeProblem3D3D& a, const ExtrinsicHandEyeProblem3D3D& b) { return a == b; }
}  // namespace rct_optimizations
