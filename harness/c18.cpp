// C18: values written to YAML text and read back
#include "geom.h"
#include <rct_optimizations/serialization/problems.h>
using namespace hv;
static double val(Rng& r)
{
  switch (r.i(0, 6))
  {
    case 0: return 0;
    case 1: return r.u(-1e-9, 1e-9);
    case 2: return r.u(-1e8, 1e8);
    case 3: return r.i(-5, 5);
    default: return r.u(-3, 3);
  }
}
template <Eigen::Index N>
static Eigen::Matrix<double, N, 1> vec(Rng& r)
{
  Eigen::Matrix<double, N, 1> v;
  for (int i = 0; i < N; ++i) v[i] = val(r);
  return v;
}
static Iso pose(Rng& r)
{
  Iso t = r.iso(M_PI, 5);
  int k = r.i(0, 9);
  if (k == 0) t.linear().setIdentity();
  // no translation, or none along some axes
  if (r.b(0.15)) t.translation().setZero();
  else if (r.b(0.1)) t.translation()[r.i(0, 2)] = 0;
  // half turns and pitch of +-90 degrees
  if (k == 1) t.linear() = Eigen::AngleAxisd(M_PI, r.axis()).toRotationMatrix();
  if (k == 2) t.linear() = (Eigen::AngleAxisd(r.u(-3, 3), V3::UnitZ()) * Eigen::AngleAxisd(r.b() ? M_PI / 2 : -M_PI / 2, V3::UnitY()) * Eigen::AngleAxisd(r.u(-3, 3), V3::UnitX())).toRotationMatrix();
  if (k == 3) t.linear() = Eigen::AngleAxisd(r.u(-4, 4), r.b() ? V3::UnitZ() : V3::UnitX()).toRotationMatrix();
  return t;
}
static ro::CameraIntrinsics intr(Rng& r)
{
  ro::CameraIntrinsics k;
  for (double& v : k.values) v = val(r);
  return k;
}
template <Eigen::Index N>
static ro::Correspondence<N, 3> corr(Rng& r)
{
  ro::Correspondence<N, 3> c;
  c.in_image = vec<N>(r);
  c.in_target = vec<3>(r);
  return c;
}
template <Eigen::Index N>
static ro::Observation<N, 3> obs(Rng& r)
{
  ro::Observation<N, 3> o;
  int n = r.b(0.2) ? 0 : r.i(1, 6);
  for (int i = 0; i < n; ++i) o.correspondence_set.push_back(corr<N>(r));
  o.to_camera_mount = pose(r);
  o.to_target_mount = pose(r);
  return o;
}
template <typename T>
static T again(const T& x)
{
  YAML::Node n(x);
  std::stringstream s;
  s << n;
  return YAML::Load(s.str()).template as<T>();
}
static void same(double a, double b, const std::string& k) { HV_NEAR(a, b, 1e-12, k, "read back"); }
template <typename D>
static void same(const Eigen::MatrixBase<D>& a, const Eigen::MatrixBase<D>& b, const std::string& k)
{
  for (int i = 0; i < a.size(); ++i) same(a(i), b(i), k);
}
static void same(const Iso& a, const Iso& b, const std::string& k, double tol = 1e-9) { HV_ISO(a, b, tol, k, "read back"); }
static void same(const ro::CameraIntrinsics& a, const ro::CameraIntrinsics& b, const std::string& k)
{
  for (std::size_t i = 0; i < a.values.size(); ++i) same(a.values[i], b.values[i], k);
}
template <Eigen::Index N>
static void same(const ro::Correspondence<N, 3>& a, const ro::Correspondence<N, 3>& b, const std::string& k)
{
  same(a.in_image, b.in_image, k + ":in_image");
  same(a.in_target, b.in_target, k + ":in_target");
}
template <Eigen::Index N>
static void same(const ro::Observation<N, 3>& a, const ro::Observation<N, 3>& b, const std::string& k)
{
  HV_CHECK(a.correspondence_set.size() == b.correspondence_set.size(), k + ":size", a.correspondence_set.size() << " correspondences of " << b.correspondence_set.size());
  if (a.correspondence_set.size() == b.correspondence_set.size())
    for (std::size_t i = 0; i < a.correspondence_set.size(); ++i) same(a.correspondence_set[i], b.correspondence_set[i], k + ":correspondence");
  same(a.to_camera_mount, b.to_camera_mount, k + ":to_camera_mount");
  same(a.to_target_mount, b.to_target_mount, k + ":to_target_mount");
}
// a document of which one entry is missing
template <typename T>
static void missing(Rng& r, const T& x, const std::string& k)
{
  YAML::Node n = YAML::Clone(YAML::Node(x));
  std::vector<std::string> names;
  for (const auto& e : n) names.push_back(e.first.as<std::string>());
  std::string gone = names[r.i(0, (int)names.size() - 1)];
  n.remove(gone);
  std::stringstream s;
  s << n;
  bool t = false;
  try { YAML::Load(s.str()).template as<T>(); }
  catch (const std::exception&) { t = true; }
  HV_CHECK(t, k + ":missing", "a document without " << gone << " is accepted");
}
static void basics(Rng& r)
{
  nontrivial();
  auto a = vec<2>(r);
  same(again(a), a, "vector2");
  missing(r, a, "vector2");
  auto b = vec<3>(r);
  same(again(b), b, "vector3");
  missing(r, b, "vector3");
  Iso p = pose(r);
  same(again(p), p, "pose");
  missing(r, p, "pose");
  auto k = intr(r);
  same(again(k), k, "intrinsics");
  missing(r, k, "intrinsics");
  auto c2 = corr<2>(r);
  same(again(c2), c2, "correspondence2");
  missing(r, c2, "correspondence2");
  auto c3 = corr<3>(r);
  same(again(c3), c3, "correspondence3");
  auto o2 = obs<2>(r);
  same(again(o2), o2, "observation2");
  missing(r, o2, "observation2");
  auto o3 = obs<3>(r);
  same(again(o3), o3, "observation3");
  missing(r, o3, "observation3");
}
template <Eigen::Index N, typename P>
static void problemOf(Rng& r, P& p, const std::string& k)
{
  p.camera_mount_to_camera_guess = pose(r);
  p.target_mount_to_target_guess = pose(r);
  int n = r.b(0.2) ? 0 : r.i(1, 5);
  for (int i = 0; i < n; ++i) p.observations.push_back(obs<N>(r));
  DESC = std::to_string(n) + " observations";
  nontrivial(k + DESC);
  P q = again(p);
  same(q.camera_mount_to_camera_guess, p.camera_mount_to_camera_guess, k + ":camera-guess");
  same(q.target_mount_to_target_guess, p.target_mount_to_target_guess, k + ":target-guess");
  HV_CHECK(q.observations.size() == p.observations.size(), k + ":size", q.observations.size() << " observations of " << p.observations.size());
  if (q.observations.size() == p.observations.size())
    for (int i = 0; i < n; ++i) same(q.observations[i], p.observations[i], k + ":observation");
  missing(r, p, k);
}
static void problems(Rng& r)
{
  ro::ExtrinsicHandEyeProblem2D3D p;
  p.intr = intr(r);
  problemOf<2>(r, p, "problem2");
  same(again(p).intr, p.intr, "problem2:intrinsics");
  ro::ExtrinsicHandEyeProblem3D3D q;
  problemOf<3>(r, q, "problem3");
}
static void results(Rng& r)
{
  ro::ExtrinsicHandEyeResult x;
  x.converged = r.b();
  x.initial_cost_per_obs = std::abs(val(r));
  x.final_cost_per_obs = std::abs(val(r));
  x.target_mount_to_target = pose(r);
  x.camera_mount_to_camera = pose(r);
  DESC = "target " + str(x.target_mount_to_target) + " camera " + str(x.camera_mount_to_camera);
  nontrivial();
  auto y = again(x);
  HV_CHECK(x.converged == y.converged, "result:converged", "read back " << y.converged);
  same(y.initial_cost_per_obs, x.initial_cost_per_obs, "result:initial-cost");
  same(y.final_cost_per_obs, x.final_cost_per_obs, "result:final-cost");
  same(y.target_mount_to_target, x.target_mount_to_target, "result:target", 1e-6);
  same(y.camera_mount_to_camera, x.camera_mount_to_camera, "result:camera", 1e-6);
  missing(r, x, "result");
}
static void chains(Rng& r)
{
  Iso base = pose(r);
  int n = r.i(0, 7);
  bool wrong = n && r.b(0.15);
  int w = n ? r.i(0, n - 1) : 0;
  std::vector<ro::DHTransform> ts;
  YAML::Node doc;
  doc["base_transform"] = base;
  doc["dh_transforms"] = YAML::Node(YAML::NodeType::Sequence);
  for (int i = 0; i < n; ++i)
  {
    Eigen::Vector4d p(r.u(-1, 1), r.u(-3, 3), r.u(-1, 1), r.u(-3, 3));
    int t = r.i(0, 1);
    std::string name = "joint_" + std::to_string(r.i(0, 99));
    ts.emplace_back(p, (ro::DHJointType)t, name);
    YAML::Node e;
    e["type"] = wrong && i == w ? r.i(2, 9) : t;
    e["d"] = p[0];
    e["theta"] = p[1];
    e["r"] = p[2];
    e["alpha"] = p[3];
    e["joint_name"] = name;
    doc["dh_transforms"].push_back(e);
  }
  std::stringstream s;
  s << doc;
  DESC = s.str();
  nontrivial();
  if (wrong)
  {
    bool thrown = false;
    try { YAML::Load(s.str()).as<ro::DHChain>(); }
    catch (const std::exception&) { thrown = true; }
    HV_CHECK(thrown, "chain:joint-type", "an unknown joint type is accepted");
    return;
  }
  ro::DHChain c = YAML::Load(s.str()).as<ro::DHChain>();
  HV_CHECK((int)c.dof() == n, "chain:dof", c.dof() << " joints of " << n);
  if ((int)c.dof() != n) return;
  same(c.getBaseOffset(), base, "chain:base");
  auto D = c.getDHTable();
  auto J = c.getJointTypes();
  Eigen::VectorXd q(n);
  for (int i = 0; i < n; ++i) q[i] = r.u(-2, 2);
  Iso w2 = base;
  for (int i = 0; i < n; ++i)
  {
    for (int k = 0; k < 4; ++k) same(D(i, k), ts[i].params[k], "chain:parameter");
    HV_CHECK(J[i] == ts[i].type, "chain:type", "type of joint " << i);
    HV_CHECK(c.getParamLabels()[i] == ts[i].getParamLabels(), "chain:name", "labels of joint " << i);
    w2 = w2 * ts[i].createRelativeTransform(q[i]);
  }
  same(c.getFK(q), w2, "chain:fk");
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "basics", 500, 6000, basics }, { "problems", 250, 2500, problems }, { "results", 500, 6000, results }, { "chains", 300, 4000, chains } });
}
