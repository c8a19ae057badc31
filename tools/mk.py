#!/opt/veriftools/pyvenv/bin/python
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run after editing it)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = "rct_optimizations/src/rct_optimizations/"
OI = "rct_optimizations/include/rct_optimizations/"
I = "rct_image_tools/src/rct_image_tools/"
II = "rct_image_tools/include/rct_image_tools/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state], "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": None}))
    P[-1]["_note"] = note


FEW = "the tests run a handful of simulated cameras and poses through the real solver and compare the final pose with a tolerance; "

p("C01", "Pose and 6-vector conversions are the exponential map and lose nothing",
  "Converting a pose parameter vector (rx, ry, rz, x, y, z) to a transform yields the rotation exp([rx ry rz]) and the translation (x, y, z), and converting a transform to a parameter vector yields a vector that converts back to the same transform. This holds for every rotation, including the identity, tiny rotations and rotations by pi.",
  ["inputs"], "every isometry and every 6-vector", "two round-trip tests, on the identity and on one rotation; all other rotations, angles beyond pi and the meaning of each component are untested",
  [O + "eigen_conversions.cpp", OI + "eigen_conversions.h"], [("poseCalToEigen / poseEigenToCal", O + "eigen_conversions.cpp")])

p("C02", "Points are transformed and projected by the stated camera model",
  "Applying a pose parameter block or transform to a point gives rotation times point plus translation, for any point and either direction of use. Projecting a camera-frame point gives (fx*x/z + cx, fy*y/z + cy), identically in every projection routine, whether the point lies in front of the camera or behind it, and the reprojection of a list of target points contains exactly the projection of each point, in order. Derivatives of these operations are those of the model.",
  ["inputs"], "every pose, point with nonzero depth, intrinsic parameter set, and target point list", "only reached indirectly, with cameras that look at the target; points behind the camera, off-axis principal points and each overload separately are not covered",
  [OI + "ceres_math_utilities.h", II + "image_utils.h"], [("projectPoint, transformPoint, poseTransformPoint", OI + "ceres_math_utilities.h"), ("getReprojections", II + "image_utils.h")])

p("C03", "Hand-eye calibration minimises the stated reprojection error from the guess",
  "For every hand-eye problem (2D-3D or 3D-3D) the optimised quantity is, for every correspondence of every observation exactly once, the difference between the observed feature and the target feature carried through target mount, base and camera mount by the returned transforms (projected for 2D data), starting at the given guesses. The returned transforms are that optimisation's result; convergence flag, costs per observation and covariance labels describe that same optimisation, and a camera that sees a feature behind it is reported by an exception.",
  ["inputs", "configurations"], "every set of observations (any number, any mount poses, moving camera or moving target), guesses and solver outcome", FEW + "they cannot tell which residuals were built, that every observation contributed, or that labels match parameters",
  [O + "extrinsic_hand_eye.cpp", OI + "extrinsic_hand_eye.h"], [("residual functors and optimize()", O + "extrinsic_hand_eye.cpp")])

p("C04", "Moving-target multi-camera calibration builds and returns the stated problem",
  "For every number of static cameras and observations with a moving target, each correspondence of each camera and image contributes exactly one residual: observed pixel minus the projection, with that camera's intrinsics and pose, of the target point carried by the wrist pose of that same image and the wrist-to-target transform. The returned camera poses and wrist-to-target transform are the optimised ones, in the order of the input, started from the given guesses, and flag, costs and covariance labels describe that optimisation.",
  ["inputs", "configurations"], "every number of cameras and images, every correspondence set, guess and solver outcome", FEW + "one- and two-camera setups only; index mix-ups between cameras and images that cancel in symmetric setups pass",
  [O + "extrinsic_multi_static_camera.cpp", OI + "extrinsic_multi_static_camera.h"], [("optimize()", O + "extrinsic_multi_static_camera.cpp")])

p("C05", "Static-camera-only calibration builds and returns the stated problem",
  "For every set of static cameras observing a static target at several poses, each correspondence of each camera and pose contributes exactly one residual: observed pixel minus projection, with that camera's intrinsics and pose, of the target point carried by that target pose. Every camera pose and target pose is optimised from its guess and returned in input order; when the first camera is to be held fixed its returned pose equals its guess (up to rounding), and convergence flag and costs per observation describe that optimisation.",
  ["inputs", "configurations"], "every number of cameras and target poses, both settings of the fix-first-camera option, every solver outcome", "no test exercises this optimiser's problem construction at all",
  [O + "extrinsic_multi_static_camera_only.cpp", OI + "extrinsic_multi_static_camera_only.h"], [("optimize()", O + "extrinsic_multi_static_camera_only.cpp")])

p("C06", "Wrist-only multi-camera calibration builds and returns the stated problem",
  "For every set of already-placed cameras, each correspondence of each camera and image contributes exactly one residual: observed pixel minus projection, through that camera's known pose corrected by the one common optimised correction, of the target point carried by that image's wrist pose and the optimised wrist-to-target transform. The corrected camera poses and the wrist-to-target transform are returned in input order, started from the guesses, and convergence flag and costs per observation describe that optimisation.",
  ["inputs", "configurations"], "every number of cameras and images, every guess and solver outcome", "no test exercises this optimiser's problem construction at all",
  [O + "extrinsic_multi_static_camera_wrist_only.cpp", OI + "extrinsic_multi_static_camera_wrist_only.h"], [("optimize()", O + "extrinsic_multi_static_camera_wrist_only.cpp")])

p("C07", "Single-camera PnP minimises the stated error from the guess",
  "For every PnP problem (2D or 3D) each correspondence contributes exactly one residual, the observed feature minus the target feature carried by the returned camera-to-target transform (projected for 2D data), and the optimisation starts at the given guess, including a guess without rotation. The returned transform is that optimisation's result, and convergence flag, costs per observation and covariance labels describe that same optimisation.",
  ["inputs", "configurations"], "every correspondence set, intrinsics, guess and solver outcome", FEW + "a few cameras and one kind of target; guesses with identity rotation and problems that do not converge are absent",
  [O + "pnp.cpp", OI + "pnp.h"], [("residual functors and optimize()", O + "pnp.cpp")])

p("C08", "Multi-camera PnP minimises the stated error from the guess",
  "For every number of cameras with known poses, each correspondence of each camera contributes exactly one residual: observed pixel minus projection, with that camera's intrinsics and pose, of the target point carried by the returned base-to-target transform. The optimisation starts at the given guess, the returned transform is its result, and convergence flag and costs per observation describe it.",
  ["inputs", "configurations"], "every number of cameras, correspondence sets, guess and solver outcome", "no test exercises this optimiser",
  [O + "multi_camera_pnp.cpp", OI + "experimental/multi_camera_pnp.h"], [("optimize()", O + "multi_camera_pnp.cpp")])

p("C09", "Intrinsic calibration minimises the stated distorted reprojection error",
  "For every intrinsic calibration problem each correspondence of each image whose pose PnP can determine contributes exactly one residual (without any such image a std::runtime_error is raised): observed pixel minus the projection of the target point, carried by that image's target pose, through the pinhole model with radial (k1, k2, k3) and tangential (p1, p2) distortion. The optimisation starts from the guessed intrinsics without distortion and the PnP poses; the returned intrinsics, distortion coefficients (k1, k2, p1, p2, k3) and target poses of these images are those optimised, and flag, costs and covariance labels describe that optimisation.",
  ["inputs", "configurations"], "every number of images, correspondences, guess, and solver outcome", "no test exercises the intrinsic calibration; parameter order, signs and exponents of the distortion model are unchecked",
  [O + "camera_intrinsic.cpp", OI + "experimental/camera_intrinsic.h"], [("IntrinsicCostFunction and optimize()", O + "camera_intrinsic.cpp")])

p("C10", "Standard deviations and correlations follow from the covariance matrix",
  "From any covariance matrix, the reported standard deviations are the square roots of its diagonal and each correlation coefficient is the covariance divided by the two standard deviations, independent of the other entries; a parameter of zero variance has standard deviation and correlations zero. Filtering coefficients by a threshold returns exactly those of larger magnitude, in decreasing magnitude.",
  ["inputs"], "every symmetric matrix of every size and every threshold", "one small matrix with nonzero variances is tested",
  [O + "covariance_analysis.cpp", OI + "covariance_analysis.h", OI + "covariance_types.h"], [("computeCorrelationsFromCovariance", O + "covariance_analysis.cpp"), ("getCorrelationCoeffOutsideThreshold", OI + "covariance_types.h")])

p("C11", "Covariance results name the right parameters of the right blocks",
  "For every optimisation problem and list of parameter blocks, the covariance result holds one standard deviation per unmasked parameter and one covariance and correlation per pair, each carrying the names of the very parameters whose values they are. Masked parameters are left out; a block that is not part of the problem, names for a wrong number of blocks, a wrong number of names for a block or a failing covariance computation raises the covariance exception, a block without an entry in the names std::out_of_range, instead of returning a result.",
  ["inputs", "configurations"], "every number, size and order of parameter blocks, every set of names and masks, every outcome of the covariance computation", "tests use one or two blocks with default names and check few values",
  [O + "covariance_analysis.cpp", OI + "covariance_analysis.h"], [("computeCovariance overloads", O + "covariance_analysis.cpp")])

p("C12", "Forward kinematics follows the classical DH convention",
  "For every chain, the pose of the n-th link for n joint values is base offset times, in order, each joint's Trans_z(d) Rot_z(theta) Trans_x(r) Rot_x(alpha), with the joint value added to theta for revolute and to d for linear joints and the parameter offsets added to the parameters. Too many joint values or too few offset rows raise an exception; random joint poses respect the joint limits; building a chain with offsets yields a chain with the same kinematics as applying the offsets, keeping names, types and limits.",
  ["inputs", "configurations"], "every chain length, joint types, parameters, offsets, joint vectors (including shorter than the chain)", "two robots without linear joints at random poses; joint types, offsets and short joint vectors are hardly mixed",
  [O + "dh_chain.cpp", OI + "dh_chain.h"], [("createRelativeTransform, getFK", OI + "dh_chain.h"), ("DHChain, DHTransform", O + "dh_chain.cpp")])

p("C13", "Kinematic calibration residuals are the stated kinematic errors",
  "For any camera chain, target chain, joint values and calibration parameters, the predicted camera-to-target transform is the inverse of (camera chain flange pose times camera mount to camera) times (camera base to target base times target chain flange pose times target mount to target), each flange pose from its own chain, joint values and DH offsets. The residual of a 2D correspondence is the pinhole projection of the target point so carried into the camera minus the observation; the residual of a pose measurement is the translation of measured times inverse predicted transform, and the weighted angle between the measured and the predicted rotation. The eight parameter blocks are, in order, camera and target DH offsets, then position and angle-axis of camera mount to camera, target mount to target, camera base to target base; labels, masks and names go to the block they describe, DH labels and DH masks in column-major order of the offsets. The residuals have the right derivatives by every parameter, also at zero rotation.",
  ["inputs", "configurations"], "all chains, joint values, DH offsets and transforms", "the corresponding tests do not build here and check only convergence on two robots",
  [OI + "dh_chain_kinematic_calibration.h"], [("DualDHChainCost, DualDHChainCost2D3D, DualDHChainCostPose6D, createDHMask", OI + "dh_chain_kinematic_calibration.h")])

p("C14", "Noise qualification reports the statistics of the per-problem solutions",
  "For every list of 2D or 3D PnP problems of which at least two converge, the reported position mean and standard deviations (root of the mean squared deviation) are those of the translations of the converged solutions, the orientation mean is the rotation whose quaternion maximises the sum of squared inner products with theirs (independent of quaternion signs and of the order), and the orientation deviation is the root of the sum of squared angular distances from it over their number less one. Problems that do not converge are left out; no converged solution is skipped or counted twice.",
  ["inputs"], "every number of problems and every outcome of each", "a few noisy simulations with loose tolerances; the formulas themselves and non-convergence are not examined",
  [O + "validation/noise_qualification.cpp", OI + "validation/noise_qualification.h"], [("qualifyNoise2D/3D, computeQuaternionMean, computeQuaternionStdDev", O + "validation/noise_qualification.cpp")])

p("C15", "Intrinsic calibration validation reports the statistics of the stated errors",
  "The virtual target difference of a set of correspondences compares the PnP poses of its first and second half (the smaller half first), each solved from the given guess with the given camera: transform from the first pose to the second, length of its translation, angle of its rotation; a half that does not converge, or whose final cost per observation exceeds the threshold, raises std::runtime_error. The accuracy of a set of observations is the mean and the standard deviation (root of the mean squared deviation) of these errors over all observations, each solved from the guess that the given transforms imply; no observations, or observations with different numbers of correspondences, raise an exception rather than returning numbers.",
  ["inputs"], "every number of observations (including zero and one) and correspondences", "one simulated camera and grid",
  [O + "validation/camera_intrinsic_calibration_validation.cpp", OI + "validation/camera_intrinsic_calibration_validation.h"], [("measureVirtualTargetDiff, measureIntrinsicCalibrationAccuracy", O + "validation/camera_intrinsic_calibration_validation.cpp")])

p("C16", "Homography validation measures the error of the exact homography",
  "For every correspondence set and sample choice, the homography is the one that solves the linear equations of the sampled correspondences (so it maps four sampled target points in general position, and all samples of a true homography, onto their image points), and the reported errors are, in order, the distances between each correspondence's image point and the image of its target point under that homography; in the 3D variant the image points are first divided by their depth and the errors multiplied by it. The grid sampler returns the indices of the four corners of the grid and refuses grids of fewer than eight points; the random sampler returns the requested number of distinct valid indices and refuses fewer than four samples or more samples than correspondences. Fewer than two correspondences per sample raise an exception.",
  ["inputs"], "every correspondence set, grid size, sample count", "one perfect, one noisy and one shuffled set on one grid",
  [O + "validation/homography_validation.cpp", OI + "validation/homography_validation.h"], [("calculateHomographyError, calculateHomography, samplers", O + "validation/homography_validation.cpp")])

p("C17", "Back-projection inverts projection on the target plane",
  "For every camera pose, camera matrix, plane and pixel whose viewing ray is not parallel to the plane, the point computed for a pixel lies on the plane and on the line of the pixel's viewing ray, so that projecting it gives the pixel again; a ray parallel to the plane (within the threshold) is refused with an exception. The 3D projection errors of an observation are, correspondence by correspondence in order, the distances between the back-projected image point and the target point in the target frame; those of a set of observations are the errors of its observations one after the other.",
  ["inputs"], "every pose, plane not parallel to the ray, intrinsics and pixel", "no test exercises these functions directly",
  [O + "validation/projection.cpp", OI + "validation/projection.h"], [("project3D, compute3DProjectionError", O + "validation/projection.cpp")])

p("C18", "Saving and loading problems and results loses nothing",
  "Every vector, pose, intrinsics, correspondence, observation, hand-eye problem and hand-eye result written to YAML and read back equals the original within the printed precision, field by field, whatever the values and sizes (the labels of a problem and the covariance of a result are not part of the document). A DH transform or chain read from a document has the base pose, joint types, parameters and names of the document, joint by joint in order, and an unknown joint type is refused. A document without one of the entries is refused with an exception.",
  ["inputs"], "every value of every serialisable type, including empty sets, negative angles and large rotations", "two problem types with one random value each; results are never round-tripped",
  [OI + "serialization/eigen.h", OI + "serialization/types.h", OI + "serialization/problems.h"], [("YAML::convert specialisations", OI + "serialization/types.h")])

p("C19", "Target geometry and correspondences match features by identity",
  "The points of a circle grid target of any size and spacing are the circle centres row by row from the top row, x to the right and y up from the first circle of the last row. ArUco and ChArUco targets hold the points of their board keyed by marker id and corner or by intersection id, for the rows, columns, dimensions and dictionary they were constructed with. Correspondences pair every feature with the target point of the same identity (grid index, marker id and corner, or intersection id) and with no other. A feature of an ArUco or ChArUco target without counterpart, and a circle without feature, raise an exception instead of shifting the pairing. The ArUco and ChArUco finders key what was detected by the detected ids.",
  ["inputs"], "every grid size, spacing, and every subset of detected features", "the tests use one board size per target",
  [I + "modified_circle_grid_target.cpp", I + "aruco_grid_target.cpp", I + "charuco_grid_target.cpp", II + "target_features.h"], [("createCorrespondences / createPoints", I + "modified_circle_grid_target.cpp")])

p("C20", "Circle grid features are returned in target order",
  "Whenever the modified circle grid finder returns features of an image of its target (at least two rows and columns), there is one per circle, and feature i * cols + j is the centre of the circle in row i and column j of the target, whichever way the camera or the pattern is rotated and whether OpenCV finds the grid with the given rows and columns or with both exchanged: the large circle (the corner that is strictly largest relative to its two neighbours) is always at the start of the last row. This holds for square and non-square grids. An image without the grid is refused with an exception.",
  ["inputs"], "every grid shape, every image orientation, and every order in which OpenCV may return the centres (row by row from any corner, never mirrored)", "one upright image of one grid",
  [I + "modified_circle_grid_finder.cpp"], [("extractModifiedCircleGrid, extractKeyPoints, findTargetFeatures", I + "modified_circle_grid_finder.cpp")])

p("C21", "Circle detector selects, groups and averages circles as its parameters say",
  "The circle detector thresholds the grey image (of a colour or grey input) at nThresholds levels, equally spaced from minThreshold to maxThreshold inclusive (at their midpoint if there is only one), and refuses parameters whose minRepeatability exceeds nThresholds. At each level it keeps exactly the contours of at least five points that pass every enabled filter: area, circularity, inertia ratio and convexity at least the minimum and below the maximum; the pixel at the rounded centre of the fitted ellipse inside of the image and of circleColor; and, always, a mean normalised distance of the contour from the fitted ellipse that differs from 1 by less than maxAverageEllipseError. No pixel outside of the image is read. A kept circle has the centre of the ellipse, half the mean of its axes as radius and the reciprocal error as confidence. Circles join the first group whose first circle is within circleInclusionRadius and maxRadiusDiff, else start a group, level by level in order; every group of at least minRepeatability circles gives one keypoint, in order, at the confidence-weighted mean centre with twice the weighted mean radius as size. The drawing function detects with the same levels, parameters and circles.",
  ["inputs", "configurations"], "every parameter set, every number of contours, groups and levels, every contour; images of any size and content", "the detector is only tested through one image of one target with default parameters",
  [I + "circle_detector.cpp", II + "circle_detector.h"], [("findCircles, applyThresholds, detectKeyPoints, CircleDetector::detect", I + "circle_detector.cpp")])

p("C22", "Circle fit and prior-likelihood costs are the stated residuals",
  "The circle fit minimises, for every observation exactly once, the difference between squared distance from the centre and squared radius, from the given guess, and reports centre, radius, convergence and cost of that optimisation and the covariance of centre and radius under the labels of the problem. The prior cost penalises each parameter by its distance from the mean in standard deviations, element by element, and refuses arrays whose shapes disagree.",
  ["inputs"], "every observation set, guess, prior mean and deviation array", "a handful of fits compared to the known circle with a tolerance",
  [O + "circle_fit.cpp", OI + "circle_fit.h", OI + "maximum_likelihood.h"], [("CircleDistCost, optimize()", O + "circle_fit.cpp"), ("MaximumLikelihood", OI + "maximum_likelihood.h")])

p("C23", "Equality of data types means equality of every field",
  "Two camera intrinsics, correspondences, observations, kinematic observations, kinematic measurements or hand-eye problems of finite values compare equal exactly when every data field agrees: same number of elements in every list and joint vector, exactly equal intrinsics, and points, joints and transforms equal within Eigen's default relative precision. A clear difference in any single one of these fields makes the values unequal, and the comparison is reflexive and symmetric (labels for covariance reports are no part of it).",
  ["inputs"], "every pair of values of the comparable types, including lists and joint vectors of different lengths", "equality is only ever tested on equal values",
  [OI + "types.h", OI + "extrinsic_hand_eye.h"], [("operator== of the public types", OI + "types.h")])

p("C24", "Kinematic calibration solves the stated problem with the stated parameters held",
  "For any chains, observations or pose measurements (at least one), initial transforms, masks and standard deviations, the kinematic calibration minimises the sum of squares of exactly one residual (that of the calibration property for these values, in its stated weight) per correspondence or measurement, over the eight parameter blocks, from the given initial transforms and zero DH offsets, plus, for a chain that has joints and whose offsets are not all masked, one penalty of every DH offset by its distance from zero in that chain's standard deviation. Exactly the masked parameters keep their initial values (a fully masked block and the placeholder of a chain without joints as a whole; a mask index beyond the block raises an exception); the order and repetition of mask indices are irrelevant. The result carries, each from its own block, the final transforms and DH offsets (one row per joint, none for a chain without joints), convergence and cost per residual of that one run, and its covariance with the labels and masks of the problem; the problem given is not changed.",
  ["inputs", "configurations"], "every chain (also without joints), number of observations and correspondences, initial transforms, masks; every outcome of the solver", "the file and its test are not even part of the offline build (the parameterization API of its Ceres is gone), and the test checks convergence on two robots only",
  [O + "dh_chain_kinematic_calibration.cpp", OI + "dh_chain_kinematic_calibration.h", OI + "local_parameterization.h"], [("optimize() (2D and pose), createTransform", O + "dh_chain_kinematic_calibration.cpp"), ("addSubsetParameterization", OI + "local_parameterization.h")])

TECH = "contract-based deductive verification: sidecar contracts over the AST of the current sources, weakest-precondition/symbolic execution with loop invariants, obligations discharged by normal-form arithmetic, z3 and cvc5; a bounded concrete harness stands in beside it"
LEVELS = {}
NA = []


def main():
    import re, importlib.util, sys

    sys.path[:0] = [V + "/props", V + "/engine"]
    with open(V + "/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}) + "\n")
    checks, na = [], list(NA)
    for x in P:
        m = V + "/props/%s.py" % x["id"].lower()
        if not os.path.exists(m):
            na.append({"property": x["id"], "reason": NAREASON.get(x["id"], "no check has been built for it yet")})
            continue
        src = open(m).read()
        lvl = re.search(r'^LEVEL = "(.*)"', src, re.M)
        note = re.search(r'^NOTE = "(.*)"', src, re.M)
        checks.append({"property": x["id"], "quick_cmd": "python3-vt check.py %s --tier quick" % x["id"], "thorough_cmd": "python3-vt check.py %s --tier thorough" % x["id"], "technique": TECH,
                       "level": lvl.group(1) if lvl else "proof", "level_note": note.group(1) if note else "every obligation of the contracts is discharged for all inputs; the harness part is bounded and not counted as proved", "evidence_file": "evidence/%s.json" % x["id"]})
    man = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Contracts: props/*.py. Verifier: engine/. Bounded concrete stand-ins: harness/. No hooks in /repo."}
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)


NAREASON = {}
if __name__ == "__main__":
    main()
