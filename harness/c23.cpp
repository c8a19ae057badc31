// C23: equality of the public types is the conjunction of the comparisons of all their fields
#include "common.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
namespace ro = rct_optimizations;
using namespace hv;
using VX = Eigen::VectorXd;
static bool zeroChance = false;
static VX vec(Rng& r, int n) { VX v(n); for (int i = 0; i < n; ++i) v[i] = r.u(-3, 3); return v; }
static void fill(Rng& r, ro::CameraIntrinsics& a) { for (double& x : a.values) x = r.b(0.2) ? 0 : r.u(-700, 700); }
template <Eigen::Index I>
static void fill(Rng& r, ro::Correspondence<I, 3>& a)
{
  for (int i = 0; i < I; ++i) a.in_image[i] = r.u(-500, 500);
  a.in_target = r.v3(3);
}
template <Eigen::Index I>
static void fill(Rng& r, std::vector<ro::Correspondence<I, 3>>& s, int lo = 0)
{
  s.resize(r.i(lo, 5));
  for (auto& c : s) fill(r, c);
}
template <Eigen::Index I>
static void fill(Rng& r, ro::Observation<I, 3>& o)
{
  o.to_camera_mount = r.iso();
  o.to_target_mount = r.iso();
  fill(r, o.correspondence_set);
}
template <Eigen::Index I>
static void fill(Rng& r, ro::KinematicObservation<I, 3>& o)
{
  fill(r, o.correspondence_set);
  o.camera_chain_joints = vec(r, r.i(0, 6));
  o.target_chain_joints = vec(r, r.i(0, 6));
}
static void fill(Rng& r, ro::KinematicMeasurement& o)
{
  o.camera_to_target = r.iso();
  o.camera_chain_joints = vec(r, r.i(0, 6));
  o.target_chain_joints = vec(r, r.i(0, 6));
}
template <typename P>
static void fillHand(Rng& r, P& p)
{
  p.observations.resize(r.i(0, 4));
  for (auto& o : p.observations) fill(r, o);
  p.target_mount_to_target_guess = r.iso();
  p.camera_mount_to_camera_guess = r.iso();
}
static void fill(Rng& r, ro::ExtrinsicHandEyeProblem2D3D& p) { fillHand(r, p); fill(r, p.intr); }
static void fill(Rng& r, ro::ExtrinsicHandEyeProblem3D3D& p) { fillHand(r, p); }

// every way to change one field of a value by a clear amount
template <typename T>
using Mut = std::vector<std::pair<std::string, std::function<void(T&)>>>;
template <typename T, typename F>
static void lift(Mut<T>& out, const std::string& pre, F get, const Mut<typename std::decay<decltype(get(std::declval<T&>()))>::type>& in)
{
  for (const auto& m : in) out.emplace_back(pre + m.first, [get, m](T& t) { m.second(get(t)); });
}
static double bump(Rng& r) { return (r.b() ? 1 : -1) * std::pow(10.0, r.u(-5, 0)); }
struct Ways
{
static Mut<ro::CameraIntrinsics> muts(Rng& r, const ro::CameraIntrinsics&)
{
  Mut<ro::CameraIntrinsics> m;
  for (int i = 0; i < 4; ++i) { double d = bump(r); m.emplace_back("values" + std::to_string(i), [i, d](ro::CameraIntrinsics& a) { a.values[i] += d; }); }
  return m;
}
template <typename V>
static Mut<V> mutsV(Rng& r, const V& v)
{
  Mut<V> m;
  for (int i = 0; i < v.size(); ++i) { double d = bump(r); m.emplace_back("[" + std::to_string(i) + "]", [i, d](V& a) { a[i] += d; }); }
  return m;
}
static Mut<VX> mutsD(Rng& r, const VX& v)
{
  auto m = mutsV(r, v);
  m.emplace_back(".longer", [](VX& a) { a.conservativeResize(a.size() + 1); a[a.size() - 1] = 0; });
  m.emplace_back(".longer1", [](VX& a) { a.conservativeResize(a.size() + 1); a[a.size() - 1] = 1; });
  if (v.size()) m.emplace_back(".shorter", [](VX& a) { a.conservativeResize(a.size() - 1); });
  if (v.size()) m.emplace_back(".empty", [](VX& a) { a.resize(0); });
  return m;
}
static Mut<Iso> muts(Rng& r, const Iso&)
{
  Mut<Iso> m;
  for (int i = 0; i < 3; ++i)
  {
    double d = bump(r);
    m.emplace_back(".t" + std::to_string(i), [i, d](Iso& a) { a.translation()[i] += d; });
    m.emplace_back(".r" + std::to_string(i), [i, d](Iso& a) { a.linear() = Eigen::AngleAxisd(d, V3::Unit(i)) * a.linear(); });
  }
  return m;
}
template <Eigen::Index I>
static Mut<ro::Correspondence<I, 3>> muts(Rng& r, const ro::Correspondence<I, 3>& c)
{
  using C = ro::Correspondence<I, 3>;
  Mut<C> m;
  lift<C>(m, "in_image", [](C& x) -> Eigen::Matrix<double, I, 1>& { return x.in_image; }, mutsV(r, c.in_image));
  lift<C>(m, "in_target", [](C& x) -> Eigen::Matrix<double, 3, 1>& { return x.in_target; }, mutsV(r, c.in_target));
  return m;
}
template <typename C>
static Mut<std::vector<C>> mutsS(Rng& r, const std::vector<C>& s)
{
  using S = std::vector<C>;
  Mut<S> m;
  C e;
  fill(r, e);
  m.emplace_back(".longer", [e](S& a) { a.push_back(e); });
  m.emplace_back(".longer0", [e](S& a) { a.push_back(a.empty() ? e : a.back()); });
  if (!s.empty())
  {
    m.emplace_back(".shorter", [](S& a) { a.pop_back(); });
    m.emplace_back(".shorter0", [](S& a) { a.erase(a.begin()); });
    int k = r.b() ? (int)s.size() - 1 : r.i(0, s.size() - 1);
    lift<S>(m, "[" + std::to_string(k) + "].", [k](S& a) -> C& { return a[k]; }, muts(r, s[k]));
  }
  return m;
}
template <Eigen::Index I>
static Mut<ro::Observation<I, 3>> muts(Rng& r, const ro::Observation<I, 3>& o)
{
  using O = ro::Observation<I, 3>;
  Mut<O> m;
  lift<O>(m, "to_camera_mount", [](O& x) -> Iso& { return x.to_camera_mount; }, muts(r, o.to_camera_mount));
  lift<O>(m, "to_target_mount", [](O& x) -> Iso& { return x.to_target_mount; }, muts(r, o.to_target_mount));
  lift<O>(m, "correspondence_set", [](O& x) -> std::vector<ro::Correspondence<I, 3>>& { return x.correspondence_set; }, mutsS(r, o.correspondence_set));
  return m;
}
template <Eigen::Index I>
static Mut<ro::KinematicObservation<I, 3>> muts(Rng& r, const ro::KinematicObservation<I, 3>& o)
{
  using O = ro::KinematicObservation<I, 3>;
  Mut<O> m;
  lift<O>(m, "correspondence_set", [](O& x) -> std::vector<ro::Correspondence<I, 3>>& { return x.correspondence_set; }, mutsS(r, o.correspondence_set));
  lift<O>(m, "camera_chain_joints", [](O& x) -> VX& { return x.camera_chain_joints; }, mutsD(r, o.camera_chain_joints));
  lift<O>(m, "target_chain_joints", [](O& x) -> VX& { return x.target_chain_joints; }, mutsD(r, o.target_chain_joints));
  return m;
}
static Mut<ro::KinematicMeasurement> muts(Rng& r, const ro::KinematicMeasurement& o)
{
  using O = ro::KinematicMeasurement;
  Mut<O> m;
  lift<O>(m, "camera_to_target", [](O& x) -> Iso& { return x.camera_to_target; }, muts(r, o.camera_to_target));
  lift<O>(m, "camera_chain_joints", [](O& x) -> VX& { return x.camera_chain_joints; }, mutsD(r, o.camera_chain_joints));
  lift<O>(m, "target_chain_joints", [](O& x) -> VX& { return x.target_chain_joints; }, mutsD(r, o.target_chain_joints));
  return m;
}
template <typename P, Eigen::Index I>
static Mut<P> mutsHand(Rng& r, const P& p)
{
  Mut<P> m;
  using S = std::vector<ro::Observation<I, 3>>;
  lift<P>(m, "observations", [](P& x) -> S& { return x.observations; }, mutsS(r, static_cast<const S&>(p.observations)));
  lift<P>(m, "target_mount_to_target_guess", [](P& x) -> Iso& { return x.target_mount_to_target_guess; }, muts(r, p.target_mount_to_target_guess));
  lift<P>(m, "camera_mount_to_camera_guess", [](P& x) -> Iso& { return x.camera_mount_to_camera_guess; }, muts(r, p.camera_mount_to_camera_guess));
  return m;
}
static Mut<ro::ExtrinsicHandEyeProblem3D3D> muts(Rng& r, const ro::ExtrinsicHandEyeProblem3D3D& p) { return mutsHand<ro::ExtrinsicHandEyeProblem3D3D, 3>(r, p); }
static Mut<ro::ExtrinsicHandEyeProblem2D3D> muts(Rng& r, const ro::ExtrinsicHandEyeProblem2D3D& p)
{
  using P = ro::ExtrinsicHandEyeProblem2D3D;
  auto m = mutsHand<P, 2>(r, p);
  lift<P>(m, "intr.", [](P& x) -> ro::CameraIntrinsics& { return x.intr; }, muts(r, p.intr));
  return m;
}
};
template <typename T>
static std::function<void(Rng&)> test(const std::string& name)
{
  return [name](Rng& r) {
    T a;
    fill(r, a);
    const T b = a;
    DESC = name;
    nontrivial();
    HV_CHECK(a == a, name + ":reflexive", "a value is not equal to itself");
    HV_CHECK(a == b && b == a, name + ":copy", "a value is not equal to its copy");
    for (const auto& m : Ways::muts(r, b))
    {
      T c = b;
      m.second(c);
      HV_CHECK(!(c == b), name + ":different", name + " values that differ in " + m.first + " compare equal");
      HV_CHECK(!(b == c), name + ":different-reversed", name + " values that differ in " + m.first + " compare equal when swapped");
    }
    T d;
    fill(r, d);
    bool ab = a == d, ba = d == a;
    HV_CHECK(ab == ba, name + ":symmetric", "the comparison is not symmetric");
  };
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "intr", 200, 2000, test<ro::CameraIntrinsics>("CameraIntrinsics") }, { "corr2", 200, 2000, test<ro::Correspondence2D3D>("Correspondence2D3D") }, { "corr3", 200, 2000, test<ro::Correspondence3D3D>("Correspondence3D3D") },
                           { "obs2", 300, 4000, test<ro::Observation2D3D>("Observation2D3D") }, { "obs3", 300, 4000, test<ro::Observation3D3D>("Observation3D3D") }, { "kin2", 300, 4000, test<ro::KinObservation2D3D>("KinObservation2D3D") },
                           { "kin3", 300, 4000, test<ro::KinObservation3D3D>("KinObservation3D3D") }, { "meas", 300, 4000, test<ro::KinematicMeasurement>("KinematicMeasurement") }, { "hand2", 200, 3000, test<ro::ExtrinsicHandEyeProblem2D3D>("ExtrinsicHandEyeProblem2D3D") },
                           { "hand3", 200, 3000, test<ro::ExtrinsicHandEyeProblem3D3D>("ExtrinsicHandEyeProblem3D3D") } });
}
