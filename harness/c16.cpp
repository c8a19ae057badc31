// C16: homography validation: samplers and errors
#include "geom.h"
#include <algorithm>
#include <rct_optimizations/validation/homography_validation.h>
using namespace hv;
struct Listed : ro::CorrespondenceSampler
{
  std::vector<std::size_t> idx;
  std::vector<std::size_t> getSampleCorrespondenceIndices() const override { return idx; }
};
template <typename F>
static bool throws(F f)
{
  try { f(); }
  catch (const std::runtime_error&) { return true; }
  return false;
}
static void grid(Rng& r)
{
  int rows = r.i(1, 12), cols = r.i(1, 12), s = r.b() ? 1 : r.i(2, 5);
  DESC = std::to_string(rows) + " x " + std::to_string(cols) + " grid, stride " + std::to_string(s);
  nontrivial();
  ro::GridCorrespondenceSampler g(rows, cols, s);
  std::vector<std::size_t> v;
  bool t = throws([&] { v = g.getSampleCorrespondenceIndices(); });
  HV_CHECK(t == (rows * cols < 8), "grid:refusal", "a grid of " << rows * cols << " points is " << (t ? "refused" : "accepted"));
  if (t) return;
  std::vector<std::size_t> w = { 0, (std::size_t)(cols - 1) * s, (std::size_t)((rows - 1) * cols) * s, (std::size_t)(rows * cols - 1) * s };
  std::sort(v.begin(), v.end());
  std::sort(w.begin(), w.end());
  HV_CHECK(v == w, "grid:corners", "the sampled indices are not those of the four corners");
}
static void random_(Rng& r)
{
  int n = r.i(0, 40), k = r.b(0.8) ? r.i(0, n) : r.i(0, 50);
  unsigned seed = (unsigned)r.i(0, 1 << 30);
  DESC = std::to_string(k) + " of " + std::to_string(n) + ", seed " + std::to_string(seed);
  nontrivial();
  std::vector<std::size_t> v, w;
  bool t = throws([&] { v = ro::RandomCorrespondenceSampler(n, k, seed).getSampleCorrespondenceIndices(); });
  HV_CHECK(t == (k < 4 || k > n), "random:refusal", k << " samples of " << n << (t ? " refused" : " accepted"));
  if (t) return;
  HV_CHECK((int)v.size() == k, "random:size", v.size() << " indices for " << k << " samples");
  std::set<std::size_t> s(v.begin(), v.end());
  HV_CHECK(s.size() == v.size(), "random:distinct", v.size() - s.size() << " indices drawn twice");
  HV_CHECK(s.empty() || *s.rbegin() < (std::size_t)n, "random:range", "index " << (s.empty() ? 0 : *s.rbegin()));
}
struct Case
{
  Eigen::Matrix3d H;
  ro::Correspondence2D3D::Set cs;
  Listed sampler;
  std::vector<double> err;
};
static bool spread(const std::vector<V3>& p)
{
  // every three of the four points span a triangle
  for (int i = 0; i < 4; ++i)
  {
    V3 a = p[(i + 1) % 4], b = p[(i + 2) % 4], c = p[(i + 3) % 4];
    if (std::abs((b - a).head<2>().x() * (c - a).head<2>().y() - (b - a).head<2>().y() * (c - a).head<2>().x()) < 0.02) return false;
  }
  return true;
}
static V2 image(const Eigen::Matrix3d& H, const V3& t)
{
  V3 q = H * V3(t.x(), t.y(), 1);
  return q.head<2>() / q.z();
}
// the first four samples define the homography, the other samples follow it, the remaining correspondences deviate by the noise
static Case make(Rng& r, double noise)
{
  Case c;
  int n_s = r.b(0.6) ? 4 : r.i(4, 12);
  int n = 2 * n_s + (r.b(0.2) ? 0 : r.i(0, 30));
  c.cs.resize(n);
  std::vector<std::size_t> all(n);
  for (int i = 0; i < n; ++i) all[i] = i;
  std::shuffle(all.begin(), all.end(), r.g);
  all.resize(n_s);
  c.sampler.idx = all;
  std::vector<V3> four;
  do
  {
    four.clear();
    for (int i = 0; i < 4; ++i) four.push_back(r.v3(0.5));
  } while (!spread(four));
  std::set<std::size_t> sampled(all.begin(), all.end());
  for (int i = 0; i < n; ++i) c.cs[i].in_target = r.v3(0.5);
  for (int i = 0; i < 4; ++i) c.cs[all[i]].in_target = four[i];
  // a camera looking at the plane
  do
  {
    auto k = camera(r);
    Iso p = camToTarget(r);
    Eigen::Matrix3d K;
    K << k.values[0], 0, k.values[2], 0, k.values[1], k.values[3], 0, 0, 1;
    if (r.b(0.5)) K.setIdentity();
    Eigen::Matrix3d R = p.linear();
    R.col(2) = p.translation();
    c.H = K * R;
    c.H /= c.H(2, 2);
  } while (std::abs(c.H(2, 0)) + std::abs(c.H(2, 1)) > 1.2 || !c.H.allFinite());
  c.err.assign(n, 0);
  for (int i = 0; i < n; ++i)
  {
    c.cs[i].in_image = image(c.H, c.cs[i].in_target);
    if (!sampled.count(i) && noise > 0)
    {
      V2 d(r.n(noise), r.n(noise));
      c.cs[i].in_image += d;
      c.err[i] = d.norm();
    }
  }
  DESC = std::to_string(n) + " correspondences, samples";
  for (auto i : all) DESC += " " + std::to_string(i);
  return c;
}
static void planar(Rng& r)
{
  Case c = make(r, r.b(0.8) ? r.u(0.01, 20) : 0);
  nontrivial();
  Eigen::VectorXd e = ro::calculateHomographyError(c.cs, c.sampler);
  HV_CHECK(e.size() == (int)c.cs.size(), "planar:size", e.size() << " errors for " << c.cs.size() << " correspondences");
  if (e.size() != (int)c.cs.size()) return;
  for (int i = 0; i < e.size(); ++i) HV_NEAR(e[i], c.err[i], 1e-5, "planar:error", "error of correspondence " << i);
}
static void few(Rng& r)
{
  Case c = make(r, 0);
  nontrivial();
  c.cs.resize(std::max<int>(0, 2 * (int)c.sampler.idx.size() - r.i(1, 4)));
  for (auto& i : c.sampler.idx) i = i % c.cs.size();
  HV_CHECK(throws([&] { ro::calculateHomographyError(c.cs, c.sampler); }), "few:accepted", c.cs.size() << " correspondences for " << c.sampler.idx.size() << " samples are accepted");
  ro::Correspondence3D3D::Set s(c.cs.size());
  for (auto& q : s) { q.in_image = V3(0.1, 0.2, 1); q.in_target = V3(0.3, 0.1, 0); }
  HV_CHECK(throws([&] { ro::calculateHomographyError(s, c.sampler); }), "few:accepted3", c.cs.size() << " correspondences for " << c.sampler.idx.size() << " samples are accepted");
}
static void spatial(Rng& r)
{
  Case c = make(r, r.b(0.8) ? r.u(0.001, 0.1) : 0);
  nontrivial();
  ro::Correspondence3D3D::Set s;
  std::vector<double> z;
  for (const auto& q : c.cs)
  {
    ro::Correspondence3D3D t;
    z.push_back(r.u(0.2, 4));
    t.in_target = q.in_target;
    t.in_image << q.in_image * z.back(), z.back();
    s.push_back(t);
  }
  Eigen::VectorXd e = ro::calculateHomographyError(s, c.sampler);
  HV_CHECK(e.size() == (int)s.size(), "spatial:size", e.size() << " errors for " << s.size() << " correspondences");
  if (e.size() != (int)s.size()) return;
  for (int i = 0; i < e.size(); ++i) HV_NEAR(e[i], c.err[i] * z[i], 1e-5, "spatial:error", "error of correspondence " << i);
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "grid", 600, 6000, grid }, { "random", 600, 6000, random_ }, { "planar", 800, 8000, planar }, { "few", 200, 2000, few }, { "spatial", 500, 5000, spatial } });
}
