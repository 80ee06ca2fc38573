// C19: heights against the plain interpolation of the files they come from, through the providers and the C API.
#include "api.hpp"
#include "scene.hpp"
#include "heightmap/GridElevationProvider.hpp"
#include "heightmap/SrtmElevationProvider.hpp"
#include <memory>
using namespace el;
using utymap::GeoCoordinate;
using utymap::utils::GeoUtils;
using utymap::heightmap::GridElevationProvider;
using utymap::heightmap::SrtmElevationProvider;
namespace {
typedef std::pair<double, double> P;
double bilinear(const std::function<double(size_t, size_t)> &h, size_t n, double x, double y, double &lo, double &hi) {   // x, y in cells
  x = std::max(0., std::min(x, n - 1.)); y = std::max(0., std::min(y, n - 1.));
  size_t i = std::min<size_t>((size_t) x, n - 2), j = std::min<size_t>((size_t) y, n - 2);
  long double u = x - i, v = y - j, a = h(i, j), b = h(i + 1, j), c = h(i, j + 1), d = h(i + 1, j + 1);
  lo = (double) std::min(std::min(a, b), std::min(c, d)); hi = (double) std::max(std::max(a, b), std::max(c, d));
  return (double) ((a * (1 - u) + b * u) * (1 - v) + (c * (1 - u) + d * u) * v);
}
struct Source { std::string what; bool ok = true; size_t n = 0; BoundingBox b; std::function<double(size_t, size_t)> at; double slope = 0; };   // at(column from west, row from south)
struct Query { QuadKey q; P p; size_t src; };
std::string str(const Query &q) { std::ostringstream s; s.precision(17); s << qk(q.q) << " at " << q.p.first << "," << q.p.second; return s.str(); }

void judge(vf::Ctx &c, const Source &s, const Query &q, double got, const std::string &where) {
  double lo, hi, x = (q.p.second - s.b.minPoint.longitude) / s.b.width() * (s.n - 1), y = (q.p.first - s.b.minPoint.latitude) / s.b.height() * (s.n - 1);
  double want = bilinear(s.at, s.n, x, y, lo, hi);
  // two samples meet on the border of a cell of the grid: rounding may choose either side of it; coordinates carry about 1e-13 degree
  double tol = 1e-6 + s.slope * (2e-7 + 1e-12 * s.n / s.b.width() * 180);
  std::ostringstream d; d.precision(17); d << s.what << " " << str(q) << " (cell " << x << "," << y << " of " << s.n << ")\nexpected " << want << " between " << lo << " and " << hi << ", got " << got;
  c.check(std::isfinite(got) && std::abs(got - want) <= tol, where + "/value", d.str());
  c.check(!(got < lo - tol) && !(got > hi + tol), where + "/range", d.str());
  c.count("heights_compared"); if (lo != hi) c.count("between_different_samples"); if (want < 0) c.count("below_zero");
}
// the same questions in another order, to another provider
template<class T> void ask(vf::Ctx &c, const std::vector<Source> &src, std::vector<Query> qs, const std::string &index, const std::string &where, bool viaApi, int kind) {
  std::map<std::string, double> first;
  for (int round = 0; round < 2; ++round) {
    std::unique_ptr<T> p; std::unique_ptr<api::Engine> e;
    if (viaApi) { api::Call call(*new api::Result()); connect(index.c_str(), api::onError); } else p.reset(new T(index));
    c.rng.shuffle(qs);
    for (auto &q : qs) {
      double h = 0; bool failed = false;
      if (viaApi) { h = getElevationByQuadKey(q.q.tileX, q.q.tileY, q.q.levelOfDetail, kind, q.p.first, q.p.second); failed = std::isnan(h); }
      else try { h = c.rng.chance(0.5) ? p->getElevation(q.q, q.p.first, q.p.second) : p->getElevation(q.q, GeoCoordinate(q.p.first, q.p.second)); } catch (const std::exception &) { failed = true; }
      const Source &s = src[q.src];
      if (!s.ok) { c.check(failed, where + "/missing", s.what + " " + str(q) + " gives " + std::to_string(h)); c.count("without_data"); continue; }
      if (failed) { c.violation(where + "/failed", s.what + " " + str(q)); continue; }
      judge(c, s, q, h, where);
      auto k = str(q); if (round == 0) first[k] = h; else c.check(first[k] == h, where + "/order", k + " " + std::to_string(first[k]) + " and " + std::to_string(h) + " in another order");
    }
    if (viaApi) disconnect();
  }
}
void spread(vf::Rng &r, const BoundingBox &b, size_t n, std::vector<P> &v, double beyond = 0) {     // corners, samples, borders of cells, anywhere
  v.push_back({b.minPoint.latitude, b.minPoint.longitude}); v.push_back({b.maxPoint.latitude, b.minPoint.longitude}); v.push_back({b.minPoint.latitude, b.maxPoint.longitude});
  for (int i = 0; i < 25; ++i) {
    auto t = [&] { switch (r.below(5)) { case 0: return (double) r.below(n) / (n - 1); case 1: return std::min(1., std::max(0., (double) r.below(n) / (n - 1) + r.real(-1e-9, 1e-9))); case 2: return r.chance(0.5) ? r.real(0, 1e-6) : 1 - r.real(0, 1e-6); default: return r.chance(beyond) ? r.pick(std::vector<double>{-r.real(0, 1e-9), 1 + r.real(0, 1e-9), -r.real(), 1 + r.real()}) : r.real(); } };
    v.push_back({b.minPoint.latitude + t() * b.height(), b.minPoint.longitude + t() * b.width()});
  }
}
double slope(const Source &s) { double m = 0; for (size_t j = 0; j < s.n; ++j) for (size_t i = 0; i < s.n; ++i) { if (i + 1 < s.n) m = std::max(m, std::abs(s.at(i, j) - s.at(i + 1, j))); if (j + 1 < s.n) m = std::max(m, std::abs(s.at(i, j) - s.at(i, j + 1))); } return m; }

void grid(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c), index = dir + "/index/"; vf::mkdirs(dir + "/index");
  std::vector<Source> src; std::vector<Query> qs; size_t tiles = 1 + r.below(4); std::string content;
  QuadKey q0 = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(r.real(-84, 84), r.real(-179.9, 179.9)), (int) r.range(1, 19));
  for (size_t t = 0; t < tiles; ++t) {
    QuadKey q = q0; if (t == 1) q.tileX ^= 1; else if (t == 2) q.tileY ^= 1; else if (t == 3) { q.levelOfDetail = std::max(1, q.levelOfDetail - 1); q.tileX = q.levelOfDetail == q0.levelOfDetail ? q.tileX ^ 1 : q.tileX / 2; if (q.levelOfDetail == q0.levelOfDetail) q.tileY ^= 1; else q.tileY /= 2; }
    Source s; s.b = GeoUtils::quadKeyToBoundingBox(q); s.n = r.chance(0.1) ? 50 + r.below(250) : r.range(2, 20); s.ok = r.chance(0.85);
    auto h = std::make_shared<std::vector<int>>(); int shape = (int) r.below(5); double base = r.real(-500, 3000), sp = r.pick(std::vector<double>{0, 3, 60, 2000, 1e6});
    std::string text; for (size_t i = 0; i < s.n * s.n; ++i) { double v = shape == 0 ? base : shape == 1 ? base + sp * (i % s.n) / s.n : shape == 2 ? base + sp * (i / s.n) / s.n : r.real(-sp, sp); h->push_back((int) v); text += (i ? r.chance(0.1) ? "\n" : " " : "") + std::to_string((int) v); }
    size_t n = s.n; s.at = [h, n](size_t x, size_t y) { return (double) (*h)[y * n + x]; }; s.slope = slope(s); s.what = "grid " + std::to_string(n) + "x" + std::to_string(n) + (s.ok ? "" : " unusable");
    if (!s.ok) { if (r.chance(0.5)) text = r.pick(std::vector<std::string>{"", "1 2 3", "a b c d", "1 2 x 4"}); else text.clear(); }
    std::string d = index + "data/" + std::to_string(q.levelOfDetail); vf::mkdirs(d);
    if (!text.empty()) vf::spit(d + "/" + GeoUtils::quadKeyToString(q) + ".ele", text);
    content += qk(q) + text;
    std::vector<P> v; spread(r, s.b, s.n, v, 0.1);   // vertices of a tile may lie a rounding error beyond it: the border counts there
    for (auto &p : v) { p.first = std::max(-90., std::min(90., p.first)); p.second = std::max(-180., std::min(180., p.second)); if (p.first < s.b.minPoint.latitude || p.first > s.b.maxPoint.latitude || p.second < s.b.minPoint.longitude || p.second > s.b.maxPoint.longitude) c.count("beyond_border"); qs.push_back({q, p, t}); } src.push_back(s);
  }
  bool viaApi = r.chance(0.4); c.distinct(content); c.count(viaApi ? "grid_api" : "grid_provider"); c.count("grids", tiles);
  ask<GridElevationProvider>(c, src, qs, index, "grid", viaApi, api::GRID);
  // heights do not jump inside a tile, and agree with the neighbour where the samples on the common border agree
}

void srtm(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c), index = dir + "/index/"; vf::mkdirs(dir + "/index/data");
  int lat = (int) r.pick(std::vector<long>{-1, 0, r.range(-60, 59), r.range(-60, 59)}), lon = (int) r.pick(std::vector<long>{-1, 0, r.range(-180, 179), r.range(-180, 179), -100, 99, -180, 179});
  std::vector<Source> src; std::vector<Query> qs; std::string content; std::vector<std::pair<int, int>> cells{{lat, lon}};
  if (r.chance(0.7)) cells.push_back({lat, lon + 1 > 179 ? lon - 1 : lon + 1}); if (r.chance(0.4)) cells.push_back({lat - 1, lon}); if (r.chance(0.3)) cells.push_back({-lat - 1, -lon - 1});
  std::set<std::pair<int, int>> seen; std::vector<std::pair<int, int>> u; for (auto &x : cells) if (seen.insert(x).second) u.push_back(x);
  for (size_t t = 0; t < u.size(); ++t) {
    int n = r.chance(0.06) ? 3601 : 1201; auto h = std::make_shared<std::vector<std::int16_t>>((size_t) n * n); std::uint64_t seed = r.next();
    int shape = (int) r.below(4); double f = r.real(0.001, 0.1), g = r.real(0.001, 0.1), amp = r.pick(std::vector<double>{0, 5, 200, 9000, 32767});
    for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) (*h)[(size_t) y * n + x] = (std::int16_t) (shape == 0 ? amp * std::sin(x * f) * std::cos(y * g) : shape == 1 ? (x + y) % 256 - 40 : shape == 2 ? (x * 7 + y * 13) % 600 : amp ? (double) (vf::mix(seed + (std::uint64_t) y * n + x) % (2 * (std::uint64_t) amp)) - amp : 0);
    std::string raw((size_t) n * n * 2, 0); for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) { std::int16_t v = (*h)[(size_t) y * n + x]; size_t o = ((size_t) (n - 1 - y) * n + x) * 2; raw[o] = (char) (v >> 8); raw[o + 1] = (char) v; }   // northern row first, high byte first
    Source s; s.n = n; s.b = BoundingBox(GeoCoordinate(u[t].first, u[t].second), GeoCoordinate(u[t].first + 1, u[t].second + 1)); s.ok = r.chance(0.9);
    s.at = [h, n](size_t x, size_t y) { return (double) (*h)[y * n + x]; }; s.slope = n == 1201 ? slope(s) : 2 * amp + 600;
    char name[64]; snprintf(name, sizeof name, "%c%02d%c%03d.hgt", u[t].first < 0 ? 'S' : 'N', std::abs(u[t].first), u[t].second < 0 ? 'W' : 'E', std::abs(u[t].second));
    s.what = std::string(name) + " " + std::to_string(n) + (s.ok ? "" : " unusable"); content += name + std::to_string(shape) + std::to_string(amp);
    if (s.ok) vf::spit(index + "data/" + name, raw); else if (r.chance(0.5)) vf::spit(index + "data/" + name, raw.substr(0, r.below(raw.size())));
    std::vector<P> v; spread(r, s.b, n, v);
    for (auto &p : v) {
      // the northern and eastern border belong to the next cell
      if (p.first >= u[t].first + 1) p.first = std::nextafter(u[t].first + 1, -1000); if (p.second >= u[t].second + 1) p.second = std::nextafter(u[t].second + 1, -1000);
      if (p.first < u[t].first || p.second < u[t].second) continue;
      qs.push_back({GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(p.first, p.second), (int) r.range(1, 19)), p, t});
    }
    src.push_back(s); c.count(n == 1201 ? "srtm3_cells" : "srtm1_cells"); if (u[t].first < 0) c.count("southern_cells"); if (u[t].second < 0) c.count("western_cells");
  }
  bool viaApi = r.chance(0.4); c.distinct(content); c.count(viaApi ? "srtm_api" : "srtm_provider");
  ask<SrtmElevationProvider>(c, src, qs, index, "srtm", viaApi, api::SRTM);
  // two cells which share the samples of their border meet there
}

// data which appears later is found then, and what failed before does not stay failed
void late(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c), index = dir + "/index/"; vf::mkdirs(dir + "/index/data");
  QuadKey q = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(r.real(-70, 70), r.real(-179, 179)), (int) r.range(5, 18)); auto b = GeoUtils::quadKeyToBoundingBox(q); P p = scene::pick(r, b, -0.01);
  { api::Call call(*new api::Result()); connect(index.c_str(), api::onError); }
  double a = getElevationByQuadKey(q.tileX, q.tileY, q.levelOfDetail, api::GRID, p.first, p.second), s0 = getElevationByQuadKey(q.tileX, q.tileY, q.levelOfDetail, api::SRTM, p.first, p.second);
  c.check(std::isnan(a) && std::isnan(s0), "late/nothing", "a height without data: " + std::to_string(a) + " " + std::to_string(s0));
  scene::Grid g = scene::gridFile(r, dir + "/index", q);
  double h = getElevationByQuadKey(q.tileX, q.tileY, q.levelOfDetail, api::GRID, p.first, p.second);
  c.check(std::abs(h - g.at(p.first, p.second)) <= g.tolerance(), "late/value", qk(q) + " expected " + std::to_string(g.at(p.first, p.second)) + " got " + std::to_string(h));
  double f = getElevationByQuadKey(q.tileX, q.tileY, q.levelOfDetail, api::FLAT, p.first, p.second);
  c.check(f == 0, "late/flat", "flat gives " + std::to_string(f));
  disconnect(); c.count("late");
}
}
int main(int argc, char **argv) { return vf::main(argc, argv, {{"grid", 1500, 60000, grid}, {"srtm", 60, 3000, srtm}, {"late", 200, 4000, late}}); }
