// Shared parts of the concrete harnesses: seeded generators, failure reports, case loop.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace hv
{
using Iso = Eigen::Isometry3d;
using V3 = Eigen::Vector3d;
using V2 = Eigen::Vector2d;

struct Rng
{
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  double u(double a = 0, double b = 1) { return std::uniform_real_distribution<double>(a, b)(g); }
  int i(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }  // inclusive
  bool b(double p = 0.5) { return u() < p; }
  double n(double s = 1) { return std::normal_distribution<double>(0, s)(g); }
  V3 v3(double s = 1) { double a = u(-s, s), b = u(-s, s), c = u(-s, s); return V3(a, b, c); }
  V3 axis()
  {
    V3 v;
    do { double a = n(), b = n(), c = n(); v = V3(a, b, c); } while (v.norm() < 1e-3);
    return v.normalized();
  }
  Iso iso(double ang = M_PI, double t = 2)
  {
    Iso r = Iso::Identity();
    double a = u(0, ang);
    r.linear() = Eigen::AngleAxisd(a, axis()).toRotationMatrix();
    r.translation() = v3(t);
    return r;
  }
};

// ---- state of the run
inline uint64_t SEED = 1;
inline long CASE = -1;
inline FILE* OUT = nullptr;
inline int PROG = -1;
inline long EVALS = 0, NONTRIVIAL = 0, NFAIL = 0;
inline std::string DESC;      // description of the current case
inline std::string STAGE;     // group of the current case
inline std::set<std::string> SEEN;
inline std::vector<std::string> SAMPLES;
inline bool THOROUGH = false;

inline std::string esc(const std::string& s)
{
  std::string o;
  for (char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); o += b; }
    else o += c;
  }
  return o;
}
inline void fail(const std::string& key, const std::string& what)
{
  ++NFAIL;
  fprintf(OUT, "{\"fail\": \"%s\", \"stage\": \"%s\", \"case\": %ld, \"what\": \"%s\", \"input\": \"%s\"}\n", esc(key).c_str(), esc(STAGE).c_str(), CASE,
          esc(what).c_str(), esc(DESC).c_str());
  fflush(OUT);
}
template <typename M>
std::string str(const M& m)
{
  std::ostringstream s;
  s.precision(17);
  s << m;
  return s.str();
}
inline std::string str(const Iso& m) { return str(m.matrix()); }
inline std::string strv(const std::vector<double>& v)
{
  std::ostringstream s;
  s.precision(10);
  s << "[";
  for (std::size_t i = 0; i < v.size() && i < 60; ++i) s << (i ? ", " : "") << v[i];
  s << (v.size() > 60 ? ", ..." : "") << "]";
  return s.str();
}
inline bool near(double a, double b, double tol = 1e-7)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b)));
}
inline bool nearIso(const Iso& a, const Iso& b, double tol = 1e-7)
{
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
      if (!near(a.matrix()(i, j), b.matrix()(i, j), tol)) return false;
  return true;
}
// one expectation
#define HV_CHECK(cond, key, what) \
  do { ++hv::EVALS; if (!(cond)) { std::ostringstream hv_s; hv_s.precision(12); hv_s << what; hv::fail(key, hv_s.str()); } } while (0)
#define HV_NEAR(a, b, tol, key, what) \
  do { ++hv::EVALS; double hv_a = (a), hv_b = (b); if (!hv::near(hv_a, hv_b, tol)) { std::ostringstream hv_s; hv_s.precision(12); hv_s << what << ": code " << hv_a << ", specification " << hv_b; hv::fail(key, hv_s.str()); } } while (0)
#define HV_ISO(a, b, tol, key, what) \
  do { ++hv::EVALS; hv::Iso hv_a = (a), hv_b = (b); if (!hv::nearIso(hv_a, hv_b, tol)) { std::ostringstream hv_s; hv_s.precision(12); hv_s << what << ": code " << hv_a.matrix() << ", specification " << hv_b.matrix(); hv::fail(key, hv_s.str()); } } while (0)

// a distinct non-trivial case was built (key: what makes it distinct)
inline void nontrivial(const std::string& d = "")
{
  std::string k = STAGE + ":" + (d.empty() ? DESC : d) + ":" + std::to_string(CASE);
  if (SEEN.insert(k).second)
  {
    ++NONTRIVIAL;
    if (SAMPLES.size() < 3) SAMPLES.push_back(STAGE + "#" + std::to_string(CASE) + " " + DESC.substr(0, 300));
  }
}

struct Stage
{
  std::string name;
  long quick, thorough;
  std::function<void(Rng&)> f;
};

inline uint64_t mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

// options: --seed S --tier quick|thorough --shard I N --only STAGE CASE --out FILE --progress FILE
inline int run(int argc, char** argv, const std::vector<Stage>& stages)
{
  long shard = 0, nshard = 1, only = -1;
  std::string only_stage, out = "/dev/stdout", prog;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--seed") SEED = std::strtoull(argv[++i], nullptr, 10);
    else if (a == "--tier") THOROUGH = std::string(argv[++i]) == "thorough";
    else if (a == "--shard") { shard = atol(argv[++i]); nshard = atol(argv[++i]); }
    else if (a == "--only") { only_stage = argv[++i]; only = atol(argv[++i]); }
    else if (a == "--out") out = argv[++i];
    else if (a == "--progress") prog = argv[++i];
  }
  OUT = fopen(out.c_str(), "w");
  if (!OUT) return 3;
  if (!prog.empty()) PROG = open(prog.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  for (const auto& st : stages)
  {
    if (!only_stage.empty() && st.name != only_stage) continue;
    long n = THOROUGH ? st.thorough : st.quick;
    for (long c = 0; c < n; ++c)
    {
      if (only >= 0 ? c != only : (c % nshard) != shard) continue;
      STAGE = st.name;
      CASE = c;
      DESC.clear();
      if (PROG >= 0)
      {
        std::string p = st.name + " " + std::to_string(c) + "            \n";
        if (pwrite(PROG, p.data(), p.size(), 0) < 0) {}
      }
      uint64_t h = mix(SEED);
      for (char ch : st.name) h = mix(h ^ (unsigned char)ch);
      Rng r(mix(h ^ (uint64_t)c));
      try { st.f(r); }
      catch (const std::exception& e) { fail("unexpected-exception:" + st.name, std::string("unexpected exception: ") + e.what()); }
      catch (...) { fail("unexpected-exception:" + st.name, "unexpected exception"); }
      if (NFAIL > 200) break;
    }
  }
  fprintf(OUT, "{\"evaluations\": %ld, \"distinct_nontrivial\": %ld, \"failures\": %ld, \"samples\": [", EVALS, NONTRIVIAL, NFAIL);
  for (std::size_t i = 0; i < SAMPLES.size(); ++i) fprintf(OUT, "%s\"%s\"", i ? ", " : "", esc(SAMPLES[i]).c_str());
  fprintf(OUT, "]}\n");
  fclose(OUT);
  return 0;
}
}  // namespace hv
