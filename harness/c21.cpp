// C21: circle detector against an independent evaluation of the documented selection, grouping and averaging
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "common.h"
#include <rct_image_tools/circle_detector.h>
#include <dlfcn.h>
using namespace hv;
namespace it = rct_image_tools;
static std::vector<double> LEVELS;
static bool ORACLE = false;
namespace cv
{
double threshold(InputArray src, OutputArray dst, double thresh, double maxval, int type)
{
  using F = double (*)(InputArray, OutputArray, double, double, int);
  static F f = (F)dlsym(RTLD_NEXT, "_ZN2cv9thresholdERKNS_11_InputArrayERKNS_12_OutputArrayEddi");
  if (!ORACLE) LEVELS.push_back(thresh);
  return f(src, dst, thresh, maxval, type);
}
}
struct C { double x, y, r, w; };
struct K { double x, y, d; };
static bool inside(double v, double lo, double hi) { return !(v < lo || v >= hi); }
static std::vector<double> levels(const it::CircleDetectorParams& p)
{
  std::vector<double> t;
  double a = p.minThreshold, b = p.maxThreshold;
  for (std::size_t i = 0; i < p.nThresholds; ++i) t.push_back(p.nThresholds == 1 ? (a + b) / 2 : a + (b - a) * double(i) / double(p.nThresholds - 1));
  return t;
}
static double area_of(const std::vector<cv::Point>& c)
{
  double s = 0;
  for (std::size_t i = 0; i < c.size(); ++i)
  {
    const cv::Point &a = c[i], &b = c[(i + 1) % c.size()];
    s += double(a.x) * b.y - double(b.x) * a.y;
  }
  return std::abs(s) / 2;
}
// close: some comparison is too close to its limit for rounding errors not to matter
static std::vector<C> circles(const cv::Mat& g, double level, const it::CircleDetectorParams& p, bool& close, std::vector<double>* areas = nullptr)
{
  ORACLE = true;
  cv::Mat bin;
  cv::threshold(g, bin, level, 255, cv::THRESH_BINARY);
  ORACLE = false;
  std::vector<std::vector<cv::Point>> all;
  cv::findContours(bin.clone(), all, cv::RETR_LIST, cv::CHAIN_APPROX_NONE);
  std::vector<C> out;
  auto check = [&](double v, double lo, double hi, bool exact = false) {
    if (!exact && (std::abs(v - lo) < 1e-9 * (1 + std::abs(v)) || std::abs(v - hi) < 1e-9 * (1 + std::abs(v)))) close = true;
    return inside(v, lo, hi);
  };
  for (const auto& c : all)
  {
    if (c.size() < 5) continue;
    double area = area_of(c);
    if (areas) areas->push_back(area);
    bool ok = true;
    if (p.filterByArea) ok &= check(area, p.minArea, p.maxArea, true);
    if (p.filterByCircularity)
    {
      double per = 0;
      for (std::size_t i = 0; i < c.size(); ++i) per += std::hypot(c[i].x - c[(i + 1) % c.size()].x, c[i].y - c[(i + 1) % c.size()].y);
      double v = 4 * M_PI * area / (per * per);
      if (std::abs(v - p.minCircularity) < 1e-5 || std::abs(v - p.maxCircularity) < 1e-5) close = true;  // arcLength sums floats
      ok &= inside(v, p.minCircularity, p.maxCircularity);
    }
    if (p.filterByInertia)
    {
      cv::Moments m = cv::moments(c);
      // ratio of the principal second moments
      double t = (m.mu20 + m.mu02) / 2, d = std::sqrt(m.mu11 * m.mu11 + (m.mu20 - m.mu02) * (m.mu20 - m.mu02) / 4);
      double den = 2 * d;
      if (std::abs(den - 1e-2) < 1e-6) close = true;
      double v = den > 1e-2 ? (t - d) / (t + d) : 1;
      if (area == 0) close = true;
      if (den > 1e-2 && (std::abs(v - p.minInertiaRatio) < 1e-6 || std::abs(v - p.maxInertiaRatio) < 1e-6)) close = true;
      ok &= inside(v, p.minInertiaRatio, p.maxInertiaRatio);
    }
    if (p.filterByConvexity)
    {
      std::vector<cv::Point> h;
      cv::convexHull(c, h);
      double ha = area_of(h);
      if (ha == 0) close = true;
      ok &= check(area / ha, p.minConvexity, p.maxConvexity, area == ha);
    }
    cv::RotatedRect e = cv::fitEllipse(c);
    if (p.filterByColor)
    {
      int x = cvRound(e.center.x), y = cvRound(e.center.y);
      ok &= x >= 0 && y >= 0 && x < bin.cols && y < bin.rows && bin.ptr(y)[x] == p.circleColor;
    }
    double s = 0, th = e.angle * M_PI / 180, a = e.size.width / 2.0, b = e.size.height / 2.0;
    for (const auto& q : c)
    {
      double vx = float(q.x) - e.center.x, vy = float(q.y) - e.center.y;
      double u = (std::cos(th) * vx + std::sin(th) * vy) / a, v = (-std::sin(th) * vx + std::cos(th) * vy) / b;
      s += std::hypot(u, v);
    }
    double err = std::abs(s / double(c.size()) - 1);
    if (!(err > 1e-7) || std::abs(err - p.maxAverageEllipseError) < 1e-7) close = true;
    ok &= err < p.maxAverageEllipseError;
    if (ok) out.push_back({ e.center.x, e.center.y, (e.size.width + e.size.height) / 4.0, 1 / err });
  }
  return out;
}
static std::vector<K> keypoints(const std::vector<std::vector<C>>& all, const it::CircleDetectorParams& p, bool& close)
{
  std::vector<std::vector<C>> g;
  for (const auto& l : all)
    for (const C& c : l)
    {
      std::size_t at = g.size();
      for (std::size_t i = 0; i < g.size() && at == g.size(); ++i)
      {
        double d = std::hypot(g[i][0].x - c.x, g[i][0].y - c.y), r = std::abs(g[i][0].r - c.r);
        if ((d != 0 && std::abs(d - p.circleInclusionRadius) < 1e-9) || (r != 0 && std::abs(r - p.maxRadiusDiff) < 1e-9)) close = true;
        if (d <= p.circleInclusionRadius && r <= p.maxRadiusDiff) at = i;
      }
      if (at == g.size()) g.push_back({});
      g[at].push_back(c);
    }
  std::vector<K> out;
  for (const auto& v : g)
  {
    if (v.size() < p.minRepeatability) continue;
    double x = 0, y = 0, r = 0, n = 0;
    for (const C& c : v) { x += c.w * c.x; y += c.w * c.y; r += c.w * c.r; n += c.w; }
    out.push_back({ x / n, y / n, 2 * r / n });
  }
  return out;
}
static cv::Mat picture(Rng& r, bool small)
{
  int w = small ? r.i(8, 24) : r.i(60, 160), h = small ? r.i(8, 24) : r.i(60, 160);
  cv::Mat m(h, w, CV_8UC1, cv::Scalar(r.i(150, 255)));
  if (r.b(0.3)) m.setTo(cv::Scalar(r.i(0, 60)));
  int n = r.i(1, small ? 3 : 10);
  for (int k = 0; k < n; ++k)
  {
    cv::Scalar col(r.i(0, 255));
    cv::Point c(r.i(-3, w + 2), r.i(-3, h + 2));
    int a = r.i(1, small ? 9 : 24), b = r.b(0.5) ? a : r.i(1, small ? 9 : 24);
    switch (r.i(0, 5))
    {
      case 0: case 1: cv::ellipse(m, c, cv::Size(a, b), r.i(0, 179), 0, 360, col, -1); break;
      case 2: cv::circle(m, c, a, col, -1, cv::LINE_AA); break;
      case 3: cv::rectangle(m, c, c + cv::Point(a, b), col, -1); break;
      case 4: cv::line(m, c, cv::Point(r.i(0, w - 1), r.i(0, h - 1)), col, r.i(1, 3)); break;
      case 5: cv::ellipse(m, c, cv::Size(a + 3, b + 3), r.i(0, 179), 0, r.i(30, 300), col, r.b() ? 1 : 3); break;
    }
  }
  if (r.b(0.5)) cv::GaussianBlur(m, m, cv::Size(5, 5), 0);
  return m;
}
static it::CircleDetectorParams params(Rng& r, const cv::Mat& g)
{
  it::CircleDetectorParams p;
  p.minThreshold = r.i(0, 120);
  p.maxThreshold = p.minThreshold + r.i(0, 134);
  p.nThresholds = r.b(0.2) ? 1 : r.i(2, 9);
  p.minRepeatability = r.i(r.b(0.1) ? 0 : 1, std::min<int>(3, p.nThresholds));
  p.circleInclusionRadius = r.b(0.3) ? r.u(0, 0.5) : r.u(0.5, 12);
  p.maxRadiusDiff = r.b(0.3) ? r.u(0, 0.5) : r.u(0.5, 8);
  if (r.b(0.1)) p.circleInclusionRadius = 0;
  if (r.b(0.1)) p.maxRadiusDiff = 0;
  p.maxAverageEllipseError = std::pow(10, r.u(-3.5, -0.5));
  p.filterByColor = r.b();
  p.circleColor = r.b() ? 0 : 255;
  p.filterByArea = r.b();
  p.minArea = r.u(0, 80);
  p.maxArea = p.minArea + r.u(0, 700);
  p.filterByCircularity = r.b(0.3);
  p.minCircularity = r.u(0.2, 0.95);
  if (r.b()) p.maxCircularity = r.u(p.minCircularity, 1.1);
  p.filterByInertia = r.b(0.3);
  p.minInertiaRatio = r.u(0, 0.8);
  if (r.b()) p.maxInertiaRatio = r.u(p.minInertiaRatio, 1.05);
  p.filterByConvexity = r.b(0.3);
  p.minConvexity = r.u(0.5, 0.99);
  if (r.b()) p.maxConvexity = r.b(0.3) ? 1.0 : r.u(p.minConvexity, 1.05);
  if (p.filterByArea && r.b(0.5))
  {
    // limits that some blob meets exactly
    bool x = false;
    std::vector<double> a;
    circles(g, levels(p)[0], p, x, &a);
    if (!a.empty())
    {
      if (r.b()) p.minArea = a[r.i(0, a.size() - 1)];
      if (r.b()) p.maxArea = a[r.i(0, a.size() - 1)];
    }
  }
  return p;
}
static std::string show(const it::CircleDetectorParams& p)
{
  std::ostringstream o;
  o << "thresholds " << p.minThreshold << ".." << p.maxThreshold << " n " << p.nThresholds << " repeat " << p.minRepeatability << " inclusion " << p.circleInclusionRadius << " radius " << p.maxRadiusDiff << " error " << p.maxAverageEllipseError << " color " << p.filterByColor << "/" << int(p.circleColor)
    << " area " << p.filterByArea << "/" << p.minArea << ".." << p.maxArea << " circularity " << p.filterByCircularity << "/" << p.minCircularity << ".." << p.maxCircularity << " inertia " << p.filterByInertia << "/" << p.minInertiaRatio << ".." << p.maxInertiaRatio << " convexity " << p.filterByConvexity << "/" << p.minConvexity << ".." << p.maxConvexity;
  return o.str();
}
static void image(Rng& r, bool small)
{
  cv::Mat g = picture(r, small);
  it::CircleDetectorParams p = params(r, g);
  cv::Mat in = g;
  bool color = r.b(0.2);
  if (color) cv::cvtColor(g, in, cv::COLOR_GRAY2BGR);
  DESC = std::to_string(g.cols) + " x " + std::to_string(g.rows) + (color ? " color" : " gray") + " image, " + show(p);
  std::vector<cv::KeyPoint> got;
  LEVELS.clear();
  cv::Ptr<it::CircleDetector> d = it::CircleDetector::create(p);
  d->detect(in, got);
  auto lv = levels(p);
  HV_CHECK(LEVELS.size() == lv.size(), "thresholds", LEVELS.size() << " thresholds applied instead of " << lv.size());
  for (std::size_t i = 0; i < lv.size() && i < LEVELS.size(); ++i) HV_CHECK(std::abs(LEVELS[i] - lv[i]) < 1e-4, "thresholds", "threshold " << i << " is " << LEVELS[i] << " instead of " << lv[i]);
  bool close = false;
  std::vector<std::vector<C>> all;
  for (double l : lv)
  {
    if (std::abs(l - std::round(l)) < 1e-6 && l != std::round(l)) close = true;
    all.push_back(circles(g, l, p, close));
  }
  auto want = keypoints(all, p, close);
  if (close) return;
  if (!want.empty()) nontrivial();
  HV_CHECK(got.size() == want.size(), "keypoints", got.size() << " keypoints instead of " << want.size());
  if (got.size() != want.size()) return;
  for (std::size_t i = 0; i < want.size(); ++i)
  {
    double t = 1e-3 * (1 + std::abs(want[i].x) + std::abs(want[i].y) + want[i].d);
    HV_CHECK(std::hypot(got[i].pt.x - want[i].x, got[i].pt.y - want[i].y) < t, "location", "keypoint " << i << " at " << got[i].pt << " instead of " << want[i].x << ", " << want[i].y);
    HV_CHECK(std::abs(got[i].size - want[i].d) < t, "size", "keypoint " << i << " of size " << got[i].size << " instead of " << want[i].d);
  }
}
static void repeat(Rng& r)
{
  it::CircleDetectorParams p;
  p.nThresholds = r.i(0, 12);
  p.minRepeatability = r.i(0, 14);
  p.minThreshold = r.u(0, 200);
  p.maxThreshold = r.u(0, 255);
  cv::Mat m(40, 40, CV_8UC1, cv::Scalar(255));
  cv::circle(m, cv::Point(20, 20), 9, cv::Scalar(10), -1);
  DESC = std::to_string(p.nThresholds) + " thresholds, repeatability " + std::to_string(p.minRepeatability);
  bool thrown = false;
  std::vector<cv::KeyPoint> k;
  LEVELS.clear();
  try { it::CircleDetector(p).detect(m, k); }
  catch (const std::runtime_error&) { thrown = true; }
  nontrivial();
  HV_CHECK(thrown == (p.minRepeatability > p.nThresholds), "repeatability", (thrown ? "refused" : "accepted"));
  if (thrown) return;
  auto lv = levels(p);
  HV_CHECK(LEVELS.size() == lv.size(), "thresholds", LEVELS.size() << " thresholds applied instead of " << lv.size());
  for (std::size_t i = 0; i < lv.size() && i < LEVELS.size(); ++i) HV_CHECK(std::abs(LEVELS[i] - lv[i]) < 1e-4, "thresholds", "threshold " << i << " is " << LEVELS[i] << " instead of " << lv[i]);
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "images", 1500, 15000, [](Rng& r) { image(r, false); } }, { "small images", 6000, 60000, [](Rng& r) { image(r, true); } }, { "repeatability", 500, 2000, [](Rng& r) { repeat(r); } } });
}
