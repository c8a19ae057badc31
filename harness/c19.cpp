// C19: target points and correspondences by identity
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "geom.h"
#include <dlfcn.h>
#include <algorithm>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/aruco_grid_target.h>
#include <rct_image_tools/charuco_grid_target.h>
#include <rct_image_tools/modified_circle_grid_target.h>
#include <opencv2/imgproc.hpp>
#include <opencv2/calib3d.hpp>
using namespace hv;
namespace it = rct_image_tools;
using Pair = std::array<double, 5>;
static std::vector<Pair> pairs(const ro::Correspondence2D3D::Set& s)
{
  std::vector<Pair> r;
  for (const auto& c : s) r.push_back({ c.in_image.x(), c.in_image.y(), c.in_target.x(), c.in_target.y(), c.in_target.z() });
  std::sort(r.begin(), r.end());
  return r;
}
static bool samePairs(std::vector<Pair> a, std::vector<Pair> b)
{
  if (a.size() != b.size()) return false;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  for (std::size_t i = 0; i < a.size(); ++i)
    for (int k = 0; k < 5; ++k)
      if (!near(a[i][k], b[i][k], k < 2 ? 1e-12 : 1e-6)) return false;
  return true;
}
template <typename T>
static std::string attempt(const T& t, const it::TargetFeatures& f, ro::Correspondence2D3D::Set& out)
{
  try { out = t.createCorrespondences(f); }
  catch (const std::exception&) { return "refused"; }
  return "";
}
static it::VectorEigenVector<2> image(Rng& r, int n)
{
  it::VectorEigenVector<2> v;
  for (int i = 0; i < n; ++i) { double a = r.u(0, 2000), b = r.u(0, 2000); v.push_back(V2(a, b)); }
  return v;
}
static void circle(Rng& r)
{
  int rows = r.b(0.15) ? 1 : r.i(1, 14), cols = r.b(0.15) ? 1 : r.i(1, 14);
  double s = r.b(0.2) ? r.u(1e-4, 1e-2) : r.u(0.01, 3);
  DESC = std::to_string(rows) + " x " + std::to_string(cols) + " circles, spacing " + std::to_string(s);
  nontrivial();
  it::ModifiedCircleGridTarget t(rows, cols, s);
  auto pts = t.createPoints();
  HV_CHECK((int)pts.size() == rows * cols, "circle:number", pts.size() << " points");
  if ((int)pts.size() != rows * cols) return;
  it::TargetFeatures f;
  std::vector<Pair> want;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
    {
      int k = i * cols + j;
      V3 w(j * s, (rows - 1 - i) * s, 0);
      HV_CHECK(near(pts[k].x(), w.x(), 1e-9) && near(pts[k].y(), w.y(), 1e-9) && pts[k].z() == 0, "circle:point", "point " << k << " is " << pts[k].transpose() << " instead of " << w.transpose());
      auto v = image(r, 1);
      f[k] = v;
      want.push_back({ v[0].x(), v[0].y(), w.x(), w.y(), w.z() });
    }
  ro::Correspondence2D3D::Set c;
  HV_CHECK(attempt(t, f, c) == "", "circle:refused", "a complete set of features is refused");
  HV_CHECK(samePairs(pairs(c), want), "circle:pairs", "a feature is not paired with the circle of its index");
  // one feature absent, moved to another id, or without observation
  auto g = f;
  int k = r.i(0, rows * cols - 1);
  int how = r.i(0, 2);
  if (how == 0) g.erase(k);
  if (how == 1) { g[rows * cols + r.i(0, 5)] = g[k]; g.erase(k); }
  if (how == 2) g[k].clear();
  HV_CHECK(attempt(t, g, c) == "refused", "circle:missing", "features without that of circle " << k << " are accepted");
}
struct Geo
{
  int rows, cols;
  double len, gap;
  // marker k: corner j clockwise from the corner at the upper left, y downwards (the frame of OpenCV's boards)
  V3 corner(int k, int j) const
  {
    double x = (k % cols) * (len + gap), y = (k / cols) * (len + gap);
    if (j == 1 || j == 2) x += len;
    if (j == 2 || j == 3) y += len;
    return V3(x, y, 0);
  }
};
static void aruco(Rng& r)
{
  Geo g{ r.i(1, 9), r.i(1, 9), (float)r.u(0.01, 0.2), (float)r.u(0.001, 0.1) };
  DESC = std::to_string(g.rows) + " x " + std::to_string(g.cols) + " markers";
  nontrivial();
  bool own = r.b();
  cv::Ptr<cv::aruco::GridBoard> board;
  std::vector<int> ids;
  if (own)
  {
    // a board whose markers have arbitrary ids
    board = cv::aruco::GridBoard::create(g.cols, g.rows, g.len, g.gap, cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_250));
    ids.resize(250);
    for (int i = 0; i < 250; ++i) ids[i] = i;
    std::shuffle(ids.begin(), ids.end(), r.g);
    ids.resize(g.rows * g.cols);
    board->ids = ids;
  }
  else
    for (int i = 0; i < g.rows * g.cols; ++i) ids.push_back(i);
  it::ArucoGridTarget t = own ? it::ArucoGridTarget(board) : it::ArucoGridTarget(g.rows, g.cols, g.len, g.gap, cv::aruco::DICT_6X6_250);
  HV_CHECK((int)t.points.size() == g.rows * g.cols, "aruco:number", t.points.size() << " ids");
  for (int k = 0; k < (int)ids.size(); ++k)
  {
    HV_CHECK(t.points.count(ids[k]) && t.points.at(ids[k]).size() == 4, "aruco:id", "id " << ids[k] << " without its four corners");
    if (!t.points.count(ids[k]) || t.points.at(ids[k]).size() != 4) return;
    for (int j = 0; j < 4; ++j)
      HV_CHECK((t.points.at(ids[k])[j] - g.corner(k, j)).norm() < 1e-5, "aruco:corner", "corner " << j << " of marker " << ids[k] << " is " << t.points.at(ids[k])[j].transpose() << " instead of " << g.corner(k, j).transpose());
  }
  // any subset of the markers, with any number of their corners
  it::TargetFeatures f;
  std::vector<Pair> want;
  for (int k = 0; k < (int)ids.size(); ++k)
    if (r.b(0.6))
    {
      int n = r.b(0.8) ? 4 : r.i(0, 3);
      auto v = image(r, n);
      f[ids[k]] = v;
      for (int j = 0; j < n; ++j)
      {
        V3 w = g.corner(k, j);
        want.push_back({ v[j].x(), v[j].y(), w.x(), w.y(), w.z() });
      }
    }
  ro::Correspondence2D3D::Set c;
  HV_CHECK(attempt(t, f, c) == "", "aruco:refused", "features of the target are refused");
  HV_CHECK(samePairs(pairs(c), want), "aruco:pairs", "a corner is not paired with that of the same marker");
  auto h = f;
  int k = r.i(0, (int)ids.size() - 1);
  if (r.b())
  {
    int id;
    do id = r.i(0, 400);
    while (std::count(ids.begin(), ids.end(), id));
    h[id] = image(r, r.i(1, 4));
  }
  else
    h[ids[k]] = image(r, r.i(5, 7));
  HV_CHECK(attempt(t, h, c) == "refused", "aruco:unknown", "a feature without counterpart is accepted");
}
static void charuco(Rng& r)
{
  int rows = r.i(2, 10), cols = r.i(2, 10);
  float sq = r.u(0.01, 0.2), mk = sq * r.u(0.4, 0.9);
  DESC = std::to_string(rows) + " x " + std::to_string(cols) + " squares";
  nontrivial();
  it::CharucoGridTarget t = r.b() ? it::CharucoGridTarget(rows, cols, sq, mk, cv::aruco::DICT_6X6_250) : it::CharucoGridTarget(cv::aruco::CharucoBoard::create(cols, rows, sq, mk, cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_250)));
  int n = (rows - 1) * (cols - 1);
  HV_CHECK((int)t.points.size() == n, "charuco:number", t.points.size() << " ids for " << n << " intersections");
  it::TargetFeatures f;
  std::vector<Pair> want;
  for (int k = 0; k < n; ++k)
  {
    if (!t.points.count(k)) { HV_CHECK(false, "charuco:id", "no point for intersection " << k); return; }
    V3 w(((k % (cols - 1)) + 1) * sq, ((k / (cols - 1)) + 1) * sq, 0);
    HV_CHECK((t.points.at(k) - w).norm() < 1e-5, "charuco:point", "intersection " << k << " is " << t.points.at(k).transpose() << " instead of " << w.transpose());
    if (r.b(0.6))
    {
      auto v = image(r, r.b(0.9) ? 1 : 2);
      f[k] = v;
      want.push_back({ v[0].x(), v[0].y(), w.x(), w.y(), w.z() });
    }
  }
  ro::Correspondence2D3D::Set c;
  HV_CHECK(attempt(t, f, c) == "", "charuco:refused", "features of the target are refused");
  HV_CHECK(samePairs(pairs(c), want), "charuco:pairs", "an intersection is not paired with that of the same id");
  auto h = f;
  if (r.b()) h[n + r.i(0, 40)] = image(r, 1);
  else h[r.i(0, n - 1)] = {};
  HV_CHECK(attempt(t, h, c) == "refused", "charuco:unknown", "a feature without counterpart is accepted");
}
// a synthetic view of the board: the plane of the target (y upwards) mapped to the image by a homography
static cv::Mat view(Rng& r, const cv::Mat& canvas, double px, double margin, cv::Mat& hom)
{
  // canvas pixel = margin + x * px, margin + y * px
  double W = canvas.cols, T = canvas.rows, a = r.u(-M_PI, M_PI), j = 0.06 * std::min(W, T);
  std::vector<cv::Point2f> src = { { 0, 0 }, { (float)W, 0 }, { (float)W, (float)T }, { 0, (float)T } }, dst;
  double sc = 560 / std::hypot(W, T);
  for (auto& p : src)
  {
    double x = p.x - W / 2 + r.u(-j, j), y = p.y - T / 2 + r.u(-j, j);
    dst.emplace_back(300 + sc * (std::cos(a) * x - std::sin(a) * y), 300 + sc * (std::sin(a) * x + std::cos(a) * y));
  }
  cv::Mat P = cv::getPerspectiveTransform(src, dst);
  cv::Mat img;
  cv::warpPerspective(canvas, img, P, cv::Size(600, 600), cv::INTER_AREA, cv::BORDER_CONSTANT, cv::Scalar(255));
  cv::Mat A = (cv::Mat_<double>(3, 3) << px, 0, margin, 0, px, margin, 0, 0, 1);
  hom = P * A;
  return img;
}
// OpenCV's contract as far as the finders rely on it: distinct ids, and for each its image points, which may lie anywhere
static bool MOCK = false;
static std::vector<int> IDS;
static std::vector<std::vector<cv::Point2f>> MARKERS;
static std::vector<cv::Point2f> CHESS;
static std::vector<int> CHESS_IDS;
namespace cv
{
namespace aruco
{
void detectMarkers(InputArray image, const Ptr<Dictionary>& dict, OutputArrayOfArrays corners, OutputArray ids, const Ptr<DetectorParameters>& par, OutputArrayOfArrays rej)
{
  if (!MOCK)
  {
    using F = void (*)(InputArray, const Ptr<Dictionary>&, OutputArrayOfArrays, OutputArray, const Ptr<DetectorParameters>&, OutputArrayOfArrays);
    static F f = (F)dlsym(RTLD_NEXT, "_ZN2cv5aruco13detectMarkersERKNS_11_InputArrayERKNS_3PtrINS0_10DictionaryEEERKNS_12_OutputArrayESB_RKNS4_INS0_18DetectorParametersEEESB_");
    return f(image, dict, corners, ids, par, rej);
  }
  *(std::vector<std::vector<Point2f>>*)corners.getObj() = MARKERS;
  *(std::vector<int>*)ids.getObj() = IDS;
}
void refineDetectedMarkers(InputArray image, const Ptr<Board>& board, InputOutputArrayOfArrays corners, InputOutputArray ids, InputOutputArrayOfArrays rej, InputArray k, InputArray d, float a, float b, bool c, OutputArray rec, const Ptr<DetectorParameters>& par)
{
  if (!MOCK)
  {
    using F = void (*)(InputArray, const Ptr<Board>&, InputOutputArrayOfArrays, InputOutputArray, InputOutputArrayOfArrays, InputArray, InputArray, float, float, bool, OutputArray, const Ptr<DetectorParameters>&);
    static F f = (F)dlsym(RTLD_NEXT, "_ZN2cv5aruco21refineDetectedMarkersERKNS_11_InputArrayERKNS_3PtrINS0_5BoardEEERKNS_17_InputOutputArrayESB_SB_S3_S3_ffbRKNS_12_OutputArrayERKNS4_INS0_18DetectorParametersEEE");
    return f(image, board, corners, ids, rej, k, d, a, b, c, rec, par);
  }
}
int interpolateCornersCharuco(InputArrayOfArrays mc, InputArray mi, InputArray image, const Ptr<CharucoBoard>& board, OutputArray cc, OutputArray ci, InputArray k, InputArray d, int n)
{
  if (!MOCK)
  {
    using F = int (*)(InputArrayOfArrays, InputArray, InputArray, const Ptr<CharucoBoard>&, OutputArray, OutputArray, InputArray, InputArray, int);
    static F f = (F)dlsym(RTLD_NEXT, "_ZN2cv5aruco25interpolateCornersCharucoERKNS_11_InputArrayES3_S3_RKNS_3PtrINS0_12CharucoBoardEEERKNS_12_OutputArrayESB_S3_S3_i");
    return f(mc, mi, image, board, cc, ci, k, d, n);
  }
  *(std::vector<Point2f>*)cc.getObj() = CHESS;
  *(std::vector<int>*)ci.getObj() = CHESS_IDS;
  return (int)CHESS.size();
}
}
}
static cv::Point2f anywhere(Rng& r) { float x = r.u(-200, 2000), y = r.u(-200, 2000); if (r.b(0.1)) x = 0; return cv::Point2f(x, y); }
static void sameFeatures(const std::string& L, const it::TargetFeatures& got, const std::map<int, std::vector<cv::Point2f>>& want)
{
  HV_CHECK(got.size() == want.size(), L + ":number", got.size() << " features of " << want.size() << " detections");
  for (const auto& w : want)
  {
    bool ok = got.count(w.first) && got.at(w.first).size() == w.second.size();
    for (std::size_t j = 0; ok && j < w.second.size(); ++j) ok = got.at(w.first)[j] == V2(w.second[j].x, w.second[j].y);
    HV_CHECK(ok, L + ":feature", "id " << w.first << " does not have the image points of its detection, the first of which is at " << w.second[0].x << ", " << w.second[0].y);
  }
}
// the finders on any answer that OpenCV may give
static void detections(Rng& r)
{
  int rows = r.i(2, 9), cols = r.i(2, 9), n = r.b(0.05) ? 0 : r.i(0, rows * cols), m = n ? r.i(0, (rows - 1) * (cols - 1)) : 0;
  DESC = std::to_string(n) + " markers and " + std::to_string(m) + " corners detected on " + std::to_string(rows) + " x " + std::to_string(cols);
  nontrivial();
  auto some = [&](int k, int of) { std::vector<int> v(of); for (int i = 0; i < of; ++i) v[i] = i; std::shuffle(v.begin(), v.end(), r.g); v.resize(k); return v; };
  IDS = some(n, 250);
  CHESS_IDS = some(m, (rows - 1) * (cols - 1));
  MARKERS.clear();
  CHESS.clear();
  std::map<int, std::vector<cv::Point2f>> wa, wc;
  for (int i : IDS)
  {
    std::vector<cv::Point2f> c;
    for (int j = 0; j < 4; ++j) c.push_back(anywhere(r));
    MARKERS.push_back(c);
    wa[i] = c;
  }
  for (int i : CHESS_IDS)
  {
    CHESS.push_back(anywhere(r));
    wc[i] = { CHESS.back() };
  }
  MOCK = true;
  cv::Mat img(40, 40, CV_8UC1, cv::Scalar(255));
  sameFeatures("aruco finder", it::ArucoGridBoardTargetFinder(it::ArucoGridTarget(rows, cols, 0.05, 0.02)).findTargetFeatures(img), wa);
  bool refused = false;
  try { sameFeatures("charuco finder", it::CharucoGridBoardTargetFinder(it::CharucoGridTarget(rows, cols, 0.05, 0.035)).findTargetFeatures(img), wc); }
  catch (const std::runtime_error&) { refused = true; }
  HV_CHECK(refused == (n == 0), "charuco finder:refused", n << " markers");
  MOCK = false;
}
static V2 project(const cv::Mat& h, const V3& p)
{
  cv::Mat q = h * (cv::Mat_<double>(3, 1) << p.x(), p.y(), 1);
  return V2(q.at<double>(0) / q.at<double>(2), q.at<double>(1) / q.at<double>(2));
}
static void found(const std::string& L, const ro::Correspondence2D3D::Set& c, const cv::Mat& h)
{
  for (const auto& x : c)
  {
    double d = (project(h, x.in_target) - x.in_image).norm();
    HV_CHECK(d < 4, L + ":view", "target point " << x.in_target.transpose() << " is paired with an image point " << d << " pixels from its image");
  }
}
static void viewAruco(Rng& r)
{
  Geo g{ r.i(2, 4), r.i(2, 4), 0.05, 0.02 };
  DESC = "view of " + std::to_string(g.rows) + " x " + std::to_string(g.cols) + " markers";
  nontrivial();
  it::ArucoGridTarget t(g.rows, g.cols, g.len, g.gap);
  double px = 1200, m = 30, W = g.cols * g.len + (g.cols - 1) * g.gap, H = g.rows * g.len + (g.rows - 1) * g.gap;
  cv::Mat canvas(cv::Size(W * px + 2 * m, H * px + 2 * m), CV_8UC1, cv::Scalar(255));
  for (int k = 0; k < g.rows * g.cols; ++k)
  {
    cv::Mat mk;
    int s = std::lround(g.len * px);
    cv::aruco::drawMarker(cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_250), k, s, mk, 1);
    int x = std::lround(m + (k % g.cols) * (g.len + g.gap) * px), y = std::lround(m + (k / g.cols) * (g.len + g.gap) * px);
    mk.copyTo(canvas(cv::Rect(x, y, s, s)));
  }
  cv::Mat h, img = view(r, canvas, px, m, h);
  it::ArucoGridBoardTargetFinder f(t);
  auto feat = f.findTargetFeatures(img);
  for (const auto& x : feat) HV_CHECK(x.second.size() == 4, "aruco:corners", x.second.size() << " corners");
  ro::Correspondence2D3D::Set c;
  if (attempt(t, feat, c) != "") return;
  found("aruco", c, h);
}
static void viewCharuco(Rng& r)
{
  int rows = r.i(3, 6), cols = r.i(3, 6);
  DESC = "view of " + std::to_string(rows) + " x " + std::to_string(cols) + " squares";
  nontrivial();
  it::CharucoGridTarget t(rows, cols, 0.05, 0.035);
  double px = 1600, m = 40, W = cols * 0.05, H = rows * 0.05;
  cv::Mat board, canvas(cv::Size(W * px + 2 * m, H * px + 2 * m), CV_8UC1, cv::Scalar(255));
  t.board->draw(cv::Size(W * px, H * px), board, 0, 1);
  board.copyTo(canvas(cv::Rect(m, m, board.cols, board.rows)));
  cv::Mat h, img = view(r, canvas, px, m, h);
  it::CharucoGridBoardTargetFinder f(t);
  it::TargetFeatures feat;
  try { feat = f.findTargetFeatures(img); }
  catch (const std::runtime_error&) { return; }
  ro::Correspondence2D3D::Set c;
  HV_CHECK(attempt(t, feat, c) == "", "charuco:features", "the features found are refused");
  found("charuco", c, h);
}
int main(int argc, char** argv)
{
  return run(argc, argv, { { "circle", 500, 5000, circle }, { "aruco", 400, 4000, aruco }, { "charuco", 300, 3000, charuco }, { "detections", 300, 3000, detections }, { "view aruco", 60, 600, viewAruco }, { "view charuco", 60, 600, viewCharuco } });
}
