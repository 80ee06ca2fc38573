// Plain planar geometry of the oracles.
#ifndef VF_GEO_HPP
#define VF_GEO_HPP
#include "el.hpp"
namespace geo {
typedef std::pair<double, double> P;      // lat, lon
typedef el::Coords Ring;
inline double area(const Ring &r) {       // signed, ccw in (lon, lat) is positive
  if (r.empty()) return 0;
  double s = 0; P o = r[0];
  for (size_t i = 0; i < r.size(); ++i) { P a = r[i], b = r[(i + 1) % r.size()]; s += (a.second - o.second) * (b.first - o.first) - (b.second - o.second) * (a.first - o.first); }
  return s / 2;
}
inline bool inside(const Ring &r, P p) {
  bool c = false;
  for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++)
    if ((r[i].first > p.first) != (r[j].first > p.first) && p.second < (r[j].second - r[i].second) * (p.first - r[i].first) / (r[j].first - r[i].first) + r[i].second) c = !c;
  return c;
}
inline double segDist(P p, P a, P b) {
  double dx = b.first - a.first, dy = b.second - a.second, l = dx * dx + dy * dy;
  double t = l > 0 ? ((p.first - a.first) * dx + (p.second - a.second) * dy) / l : 0; t = std::max(0., std::min(1., t));
  return std::hypot(p.first - a.first - t * dx, p.second - a.second - t * dy);
}
inline double lineDist(const Ring &r, P p, bool closed) {
  double d = 1e9;
  if (r.size() == 1) return std::hypot(p.first - r[0].first, p.second - r[0].second);
  for (size_t i = 0; i + 1 < r.size() + (closed ? 1 : 0); ++i) d = std::min(d, segDist(p, r[i], r[(i + 1) % r.size()]));
  return d;
}
inline double length(const Ring &r, bool closed = false) {
  double s = 0;
  for (size_t i = 0; i + 1 < r.size() + (closed ? 1 : 0); ++i) { P a = r[i], b = r[(i + 1) % r.size()]; s += std::hypot(a.first - b.first, a.second - b.second); }
  return s;
}
// Liang-Barsky: part [t0,t1] of a->b inside the box
inline bool clipSeg(const el::BoundingBox &bb, P a, P b, double &t0, double &t1) {
  t0 = 0; t1 = 1; double d[2] = {b.first - a.first, b.second - a.second}, o[2] = {a.first, a.second};
  double lo[2] = {bb.minPoint.latitude, bb.minPoint.longitude}, hi[2] = {bb.maxPoint.latitude, bb.maxPoint.longitude};
  for (int i = 0; i < 2; ++i) {
    if (d[i] == 0) { if (o[i] < lo[i] || o[i] > hi[i]) return false; continue; }
    double u = (lo[i] - o[i]) / d[i], v = (hi[i] - o[i]) / d[i]; if (u > v) std::swap(u, v);
    t0 = std::max(t0, u); t1 = std::min(t1, v); if (t0 > t1) return false;
  }
  return true;
}
inline double lengthInside(const el::BoundingBox &bb, const Ring &r, bool closed = false) {
  double s = 0, t0, t1;
  for (size_t i = 0; i + 1 < r.size() + (closed ? 1 : 0); ++i) { P a = r[i], b = r[(i + 1) % r.size()]; if (clipSeg(bb, a, b, t0, t1)) s += (t1 - t0) * std::hypot(a.first - b.first, a.second - b.second); }
  return s;
}
// Sutherland-Hodgman; the area of the result is that of ring ∩ box whatever the shape of the ring
inline Ring clipRing(const el::BoundingBox &bb, const Ring &r) {
  Ring in = r;
  for (int side = 0; side < 4 && !in.empty(); ++side) {
    double c = side == 0 ? bb.minPoint.latitude : side == 1 ? bb.maxPoint.latitude : side == 2 ? bb.minPoint.longitude : bb.maxPoint.longitude;
    auto val = [&](P p) { double v = side < 2 ? p.first : p.second; return side % 2 ? c - v : v - c; };
    Ring out;
    for (size_t i = 0; i < in.size(); ++i) {
      P a = in[i], b = in[(i + 1) % in.size()]; double va = val(a), vb = val(b);
      if (va >= 0) out.push_back(a);
      if ((va >= 0) != (vb >= 0)) { double t = va / (va - vb); out.push_back({a.first + t * (b.first - a.first), a.second + t * (b.second - a.second)}); }
    }
    in = out;
  }
  return in;
}
inline double areaInside(const el::BoundingBox &bb, const Ring &r) { return std::abs(area(clipRing(bb, r))); }
inline bool crosses(P a, P b, P c, P d) {
  auto o = [](P p, P q, P r) { return (q.second - p.second) * (r.first - p.first) - (q.first - p.first) * (r.second - p.second); };
  return (o(a, b, c) > 0) != (o(a, b, d) > 0) && (o(c, d, a) > 0) != (o(c, d, b) > 0);
}
inline bool simple(const Ring &r) {
  for (size_t i = 0; i < r.size(); ++i) for (size_t j = i + 2; j < r.size(); ++j) { if (i == 0 && j + 1 == r.size()) continue; if (crosses(r[i], r[i + 1], r[j], r[(j + 1) % r.size()])) return false; }
  return true;
}
inline bool inBox(const el::BoundingBox &b, P p, double m = 0) { return p.first >= b.minPoint.latitude - m && p.first <= b.maxPoint.latitude + m && p.second >= b.minPoint.longitude - m && p.second <= b.maxPoint.longitude + m; }
inline double boxDist(const el::BoundingBox &b, P p) {   // distance to the outline
  return lineDist({{b.minPoint.latitude, b.minPoint.longitude}, {b.minPoint.latitude, b.maxPoint.longitude}, {b.maxPoint.latitude, b.maxPoint.longitude}, {b.maxPoint.latitude, b.minPoint.longitude}}, p, true);
}
}
#endif
