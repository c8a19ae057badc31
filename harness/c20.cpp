// C20: features of the modified circle grid in the order of the target's points
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "geom.h"
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <dlfcn.h>
#include <opencv2/imgproc.hpp>
#include <opencv2/calib3d.hpp>
using namespace hv;
namespace it = rct_image_tools;
struct View
{
  int rows, cols, w, h, up;
  double s, rad, big;
  Iso camToTarget;
  double f;
  std::vector<V2> want;
  V2 px(const V3& p) const
  {
    V3 c = camToTarget * p;
    return V2(f * c.x() / c.z() + w / 2.0, f * c.y() / c.z() + h / 2.0);
  }
};
// black circles on white, the larger one at the origin; the plane is sampled for every pixel
static cv::Mat render(const View& v, bool& inside)
{
  const int SS = 3;
  cv::Mat img(v.h, v.w, CV_8UC1, cv::Scalar(255));
  inside = true;
  auto circle = [&](int i, int j) {
    double r = (i == v.rows - 1 && j == 0) ? v.big : v.rad, x0 = j * v.s, y0 = (v.rows - 1 - i) * v.s;
    double lox = 1e9, hix = -1e9, loy = 1e9, hiy = -1e9;
    for (int k = 0; k < 16; ++k)
    {
      V2 p = v.px(V3(x0 + 1.3 * r * std::cos(k * M_PI / 8), y0 + 1.3 * r * std::sin(k * M_PI / 8), 0));
      lox = std::min(lox, p.x()); hix = std::max(hix, p.x());
      loy = std::min(loy, p.y()); hiy = std::max(hiy, p.y());
    }
    if (lox < 4 || loy < 4 || hix > v.w - 5 || hiy > v.h - 5) { inside = false; return; }
    // pixel -> plane
    Eigen::Matrix3d K, M;
    K << v.f, 0, v.w / 2.0, 0, v.f, v.h / 2.0, 0, 0, 1;
    M.col(0) = v.camToTarget.linear().col(0);
    M.col(1) = v.camToTarget.linear().col(1);
    M.col(2) = v.camToTarget.translation();
    Eigen::Matrix3d H = (K * M).inverse();
    for (int y = (int)loy; y <= (int)hiy + 1; ++y)
      for (int x = (int)lox; x <= (int)hix + 1; ++x)
      {
        int in = 0;
        for (int a = 0; a < SS; ++a)
          for (int b = 0; b < SS; ++b)
          {
            V3 q = H * V3(x + (a - 1) / 3.0, y + (b - 1) / 3.0, 1);
            double dx = q.x() / q.z() - x0, dy = q.y() / q.z() - y0;
            in += dx * dx + dy * dy <= r * r;
          }
        if (in) img.at<uchar>(y, x) = (uchar)(std::min<int>(img.at<uchar>(y, x), 240 - in * 215 / (SS * SS)));
      }
  };
  for (int i = 0; i < v.rows; ++i)
    for (int j = 0; j < v.cols; ++j) circle(i, j);
  return img;
}
static View make(Rng& r, int mode)
{
  View v;
  bool square = mode == 1 || (mode == 0 && r.b(0.3));
  v.rows = r.i(3, 8);
  v.cols = square ? v.rows : r.i(3, 8);
  v.s = 0.02;
  v.rad = v.s * r.u(0.22, 0.28);
  v.big = v.rad * r.u(1.35, 1.5);
  v.w = 640;
  v.h = 560;
  v.f = r.u(500, 900);
  double W = (v.cols - 1) * v.s, H = (v.rows - 1) * v.s;
  // view from the front at a tilt
  double tilt = mode == 2 ? r.u(0.5, 1.05) : mode == 4 ? r.u(1.1, 1.3) : r.u(0, 0.6), dir = r.u(-M_PI, M_PI), roll = r.b(0.3) ? M_PI / 2 * r.i(0, 3) + r.u(-0.1, 0.1) : r.u(-M_PI, M_PI);
  if (mode == 2 || mode == 4) dir = (H > W ? 0 : M_PI / 2) + (r.b() ? M_PI : 0) + r.u(-0.15, 0.15);  // foreshorten the longer side
  Iso t = Iso::Identity();
  t.rotate(Eigen::AngleAxisd(roll, V3::UnitZ()));
  t.rotate(Eigen::AngleAxisd(M_PI, V3::UnitX()));  // the target's z axis towards the camera
  t.rotate(Eigen::AngleAxisd(tilt, V3(std::cos(dir), std::sin(dir), 0)));
  double sp = 0;
  if (mode == 5)
  {
    // rows and columns along those of the image, a whole number of pixels apart: many coordinates coincide
    tilt = 0;
    roll = M_PI / 2 * r.i(0, 3);
    t = Iso::Identity();
    t.linear() << std::round(std::cos(roll)), std::round(std::sin(roll)), 0, std::round(std::sin(roll)), -std::round(std::cos(roll)), 0, 0, 0, -1;
    sp = std::floor(480 / (std::max(v.rows, v.cols) + 1.0)) / 2 * 2;
  }
  double dist = 1.15 * v.f * (std::max(W, H) + 2 * v.s) / 540 * r.u(1.0, 1.3);
  if (mode == 5) dist = v.f * v.s / (sp - (int)sp % 2);
  t.pretranslate(V3(0, 0, dist));
  t.translate(V3(-W / 2, -H / 2, 0));
  v.camToTarget = t;
  for (int i = 0; i < v.rows; ++i)
    for (int j = 0; j < v.cols; ++j) v.want.push_back(v.px(V3(j * v.s, (v.rows - 1 - i) * v.s, 0)));
  std::ostringstream d;
  d << v.rows << " x " << v.cols << " circles, radius " << v.rad / v.s << " (" << v.big / v.s << ") of the spacing, tilt " << tilt << " about " << dir << ", roll " << roll << ", f " << v.f << ", distance " << dist;
  DESC = d.str();
  return v;
}
// OpenCV's contract: the centres of a pattern of (width x height) row by row, starting at any corner, never mirrored
static int MOCK = -1;  // quarter turns of the order in which the centres are returned; -1: OpenCV itself
static const View* SEEN_VIEW = nullptr;
namespace cv
{
bool findCirclesGrid(InputArray image, Size pattern, OutputArray centers, int flags, const Ptr<FeatureDetector>& det)
{
  if (MOCK < 0)
  {
    using F = bool (*)(InputArray, Size, OutputArray, int, const Ptr<FeatureDetector>&);
    static F f = (F)dlsym(RTLD_NEXT, "_ZN2cv15findCirclesGridERKNS_11_InputArrayENS_5Size_IiEERKNS_12_OutputArrayEiRKNS_3PtrINS_9Feature2DEEE");
    return f(image, pattern, centers, flags, det);
  }
  const View& v = *SEEN_VIEW;
  int R = MOCK % 2 ? v.cols : v.rows, C = MOCK % 2 ? v.rows : v.cols;
  if (pattern.width != C || pattern.height != R)
  {
    centers.release();
    return false;
  }
  std::vector<KeyPoint> k;
  det->detect(image, k);
  std::vector<Point2f> out;
  for (int i = 0; i < R; ++i)
    for (int j = 0; j < C; ++j)
    {
      int ti, tj;  // the circle of the target that is returned at row i and column j
      if (MOCK == 0) { ti = i; tj = j; }
      if (MOCK == 1) { ti = v.rows - 1 - j; tj = i; }
      if (MOCK == 2) { ti = v.rows - 1 - i; tj = v.cols - 1 - j; }
      if (MOCK == 3) { ti = j; tj = v.cols - 1 - i; }
      V2 w = v.want[ti * v.cols + tj];
      double best = 4;
      Point2f p;
      for (const auto& q : k)
      {
        double d = std::hypot(q.pt.x - w.x(), q.pt.y - w.y());
        if (d < best) { best = d; p = q.pt; }
      }
      if (best >= 4) { centers.release(); return false; }
      out.push_back(p);
    }
  Mat(out).copyTo(centers);
  return true;
}
}
static long FOUND = 0, N = 0;
static void view(Rng& r, int mode)
{
  View v = make(r, mode);
  MOCK = -1;
  if (mode == 3 || (mode == 5 && r.b()))
  {
    SEEN_VIEW = &v;
    MOCK = r.i(0, 3);
    DESC += ", centres reported after " + std::to_string(MOCK) + " quarter turns";
  }
  bool in;
  cv::Mat img = render(v, in);
  if (!in) return;
  ++N;
  it::ModifiedCircleGridTarget t(v.rows, v.cols, v.s);
  it::CircleDetectorParams p;
  it::ModifiedCircleGridTargetFinder f(t, p);
  it::TargetFeatures feat;
  try { feat = f.findTargetFeatures(img); }
  catch (const std::runtime_error& e) { if (getenv("DBG")) fprintf(stderr, "THROW %s: %s\n", DESC.c_str(), e.what()); return; }
  catch (const cv::Exception&) { return; }
  ++FOUND;
  nontrivial();
  HV_CHECK(feat.size() == v.want.size(), "number", feat.size() << " features for " << v.want.size() << " circles");
  if (feat.size() != v.want.size()) return;
  for (std::size_t k = 0; k < v.want.size(); ++k)
  {
    bool ok = feat.count(k) && feat.at(k).size() == 1 && (feat.at(k)[0] - v.want[k]).norm() < 3;
    HV_CHECK(ok, "order", "feature " << k << " is not the image of circle " << k << (feat.count(k) && feat.at(k).size() ? " but at " + str(feat.at(k)[0].transpose()) + " instead of " + str(v.want[k].transpose()) : ""));
    if (!ok) return;
  }
}
int main(int argc, char** argv)
{
  int rc = run(argc, argv, { { "views", 240, 2400, [](Rng& r) { view(r, 0); } }, { "square", 160, 1600, [](Rng& r) { view(r, 1); } }, { "any order", 240, 2400, [](Rng& r) { view(r, 3); } }, { "foreshortened", 240, 2400, [](Rng& r) { view(r, 2); } }, { "aligned", 120, 1200, [](Rng& r) { view(r, 5); } }, { "steep", 240, 4800, [](Rng& r) { view(r, 4); } } });
  if (getenv("DBG")) fprintf(stderr, "%ld found of %ld\n", FOUND, N);
  return rc;
}
