// Kinematic chains as homogeneous matrices, beside the library's
#pragma once
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include "common.h"
using namespace hv;
namespace ro = rct_optimizations;
using M4 = Eigen::Matrix4d;
using V3 = Eigen::Vector3d;
static M4 rot(const V3& aa)
{
  M4 m = M4::Identity();
  double t = std::sqrt(aa.x() * aa.x() + aa.y() * aa.y() + aa.z() * aa.z());
  double s = t > 1e-5 ? std::sin(t) / t : 1 - t * t / 6, c = t > 1e-5 ? (1 - std::cos(t)) / (t * t) : 0.5 - t * t / 24;
  Eigen::Matrix3d k;
  k << 0, -aa.z(), aa.y(), aa.z(), 0, -aa.x(), -aa.y(), aa.x(), 0;
  m.block<3, 3>(0, 0) = Eigen::Matrix3d::Identity() + s * k + c * k * k;
  return m;
}
static M4 inv(const M4& a)
{
  M4 m = M4::Identity();
  m.block<3, 3>(0, 0) = a.block<3, 3>(0, 0).transpose();
  m.block<3, 1>(0, 3) = -m.block<3, 3>(0, 0) * a.block<3, 1>(0, 3);
  return m;
}
struct J { double p[4]; bool lin; };
struct Chain
{
  std::vector<J> j;
  M4 base;
  std::vector<double> q;
  M4 fk(const double* off) const
  {
    M4 t = base;
    std::size_t n = j.size();
    for (std::size_t i = 0; i < q.size(); ++i)
    {
      double v[4];
      for (int k = 0; k < 4; ++k) v[k] = j[i].p[k] + off[k * n + i] + (k == (j[i].lin ? 0 : 1) ? q[i] : 0);
      M4 a = rot(V3(0, 0, v[1])), b = rot(V3(v[3], 0, 0));
      a(2, 3) = v[0];
      b(0, 3) = v[2];
      t = t * a * b;
    }
    return t;
  }
};
static M4 pose(const double* t, const double* r)
{
  M4 m = rot(V3(r[0], r[1], r[2]));
  for (int k = 0; k < 3; ++k) m(k, 3) = t[k];
  return m;
}
struct Problem
{
  Chain c[2];
  std::vector<std::vector<double>> x;  // the eight blocks
  M4 camToTarget() const { return inv(c[0].fk(x[0].data()) * pose(x[2].data(), x[3].data())) * pose(x[6].data(), x[7].data()) * c[1].fk(x[1].data()) * pose(x[4].data(), x[5].data()); }
};
static ro::DHChain make(Rng& r, Chain& c, bool all)
{
  int n = r.i(0, 4);
  std::vector<ro::DHTransform> ts;
  for (int i = 0; i < n; ++i)
  {
    J j{ { r.u(-1, 1), r.u(-4, 4), r.u(-1, 1), r.u(-4, 4) }, r.b(0.4) };
    c.j.push_back(j);
    ts.emplace_back(Eigen::Vector4d(j.p[0], j.p[1], j.p[2], j.p[3]), j.lin ? ro::DHJointType::LINEAR : ro::DHJointType::REVOLUTE, "j" + std::to_string(i), 1);
  }
  Iso b = r.iso();
  c.base = b.matrix();
  int m = all ? n : r.i(0, n);
  for (int i = 0; i < m; ++i) c.q.push_back(r.u(-4, 4));
  return ro::DHChain(ts, b);
}
