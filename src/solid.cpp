// C23: solid objects have the place and the size their element and style declare.
#include "api.hpp"
#include "scene.hpp"
#include "geo.hpp"
#include <array>
#include <map>
#include <set>
using el::Coords; using el::M; using el::Tags; using el::QuadKey; using utymap::utils::GeoUtils; using geo::P;
namespace {
typedef std::array<double, 3> V3;
struct Frame {                       // metres around a place
  double la, lo, my, mx;
  Frame(double la, double lo) : la(la), lo(lo), my(111319.49079327358), mx(111319.49079327358 * std::cos(la * M_PI / 180)) {}
  P at(double x, double y) const { return {la + y / my, lo + x / mx}; }
  P m(P p) const { return {(p.first - la) * my, (p.second - lo) * mx}; }
  Coords m(const Coords &c) const { Coords o; for (auto &p : c) o.push_back(m(p)); return o; }
};
struct Tri { V3 p[3]; double flat() const { return ((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])) / 2; }
  double area() const { V3 a, b; for (int i = 0; i < 3; ++i) { a[i] = p[1][i] - p[0][i]; b[i] = p[2][i] - p[0][i]; } double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0]; return std::sqrt(x * x + y * y + z * z) / 2; }
  double low() const { return std::min({p[0][2], p[1][2], p[2][2]}); } double high() const { return std::max({p[0][2], p[1][2], p[2][2]}); } };
std::vector<Tri> tris(const api::Mesh &m, const Frame &f) {
  std::vector<Tri> r; for (size_t i = 0; i + 2 < m.t.size(); i += 3) { Tri t; for (int k = 0; k < 3; ++k) { size_t v = 3 * (size_t) m.t[i + k]; P q = f.m({m.v[v + 1], m.v[v]}); t.p[k] = {{q.second, q.first, m.v[v + 2]}}; } r.push_back(t); } return r;
}
std::string n3(double d) { return el::num(std::round(d * 1000) / 1000); }
std::string show(const Tri &t) { std::string s; for (auto &p : t.p) s += "(" + n3(p[0]) + "," + n3(p[1]) + "," + n3(p[2]) + ")"; return s; }

struct World {
  vf::Ctx &c; vf::Rng &r; std::string dir; QuadKey q; el::BoundingBox b; Frame f; std::unique_ptr<api::Engine> e; std::string style; bool grid; std::string text; bool disk;
  World(vf::Ctx &c, const std::string &sheet) : c(c), r(c.rng), dir(vf::freshDir(c, "s")), q(GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(r.real(-65, 65), r.real(-175, 175)), 16)), b(GeoUtils::quadKeyToBoundingBox(q)), f(b.center().latitude, b.center().longitude) {
    grid = r.chance(0.4); style = dir + "/s.mapcss"; disk = r.chance(0.2);
    vf::spit(dir + "/t.txt", "0,100,100\nbackground,0,0,100,100\n"); vf::spit(style, sheet); text = sheet + "\n";
    e.reset(new api::Engine(dir)); e->style(style); if (disk) e->persistent("s"); else e->memory("s");
    if (grid) { scene::gridFile(r, dir + "/index", q); c.count("grid_elevation"); }
  }
  double half() const { return (b.maxPoint.latitude - b.minPoint.latitude) * f.my / 2; }
  double ground(P p) const { return getElevationByQuadKey(q.tileX, q.tileY, 16, grid ? api::GRID : api::FLAT, p.first, p.second); }
  void xml(const std::string &s) { vf::spit(dir + "/f.xml", s); text += s; api::Result x; api::addFile(x, "s", style, dir + "/f.xml", q); c.check(x.errors.empty(), "import", (x.errors.empty() ? "" : x.errors[0]) + "\n" + text); }
  api::Result load() { api::Result x; api::load(x, style, q, grid ? api::GRID : api::FLAT); c.check(x.errors.empty(), "load", (x.errors.empty() ? "" : x.errors[0]) + "\n" + text); return x; }
};

// ---- buildings ----
Coords ring(vf::Rng &r, int shape, double cx, double cy, double size, const Frame &f) {
  Coords o; double rot = r.real(0, 2 * M_PI), w = size * r.real(0.3, 1), h = size * r.real(0.3, 1);
  auto put = [&](double x, double y) { o.push_back(f.at(cx + x * std::cos(rot) - y * std::sin(rot), cy + x * std::sin(rot) + y * std::cos(rot))); };
  switch (shape) {
    case 0: put(-w, -h); put(w, -h); put(w, h); put(-w, h); break;
    case 1: { size_t n = 3 + r.below(9); std::vector<double> a; double s = r.real(0, 6); for (size_t i = 0; i < n; ++i) a.push_back(s + 2 * M_PI * (i + r.real(0, 0.7)) / n); for (double x : a) put(w * std::cos(x), h * std::sin(x)); break; }   // convex
    case 2: { double u = w * r.real(-0.6, 0.6), v = h * r.real(-0.6, 0.6); put(-w, -h); put(w, -h); put(w, v); put(u, v); put(u, h); put(-w, h); break; }                     // L
    default: { size_t n = 4 + r.below(10); double s = r.real(0, 6); for (size_t i = 0; i < n; ++i) { double a = s + 2 * M_PI * (i + r.real(0, 0.6)) / n, k = r.real(0.35, 1); put(size * k * std::cos(a), size * k * std::sin(a)); } }  // star
  }
  return o;
}
bool convex(const Coords &o) {
  for (size_t i = 0, n = o.size(); i < n; ++i) { P a = o[i], b = o[(i + 1) % n], d = o[(i + 2) % n]; if ((b.second - a.second) * (d.first - b.first) - (b.first - a.first) * (d.second - b.second) <= 0) return false; } return true;
}
void buildings(vf::Ctx &c) {
  auto &r = c.rng;
  World w(c, "@texture url(\"t.txt\");\nrelation|z16[type=multipolygon] { multipolygon: true; }\narea|z16[b],relation|z16[b] { clip: false; builder: building; building: true; height: eval(\"tag('h')\"); min-height: eval(\"tag('mh')\"); roof-type: eval(\"tag('rt')\"); roof-height: eval(\"tag('rh')\"); roof-direction: eval(\"tag('rd')\"); facade-type: eval(\"tag('ft')\"); facade-color: gradient(blue); roof-color: gradient(red); roof-texture-index: 0; roof-texture-type: background; roof-texture-scale: 50; facade-texture-index: 0; facade-texture-type: background; facade-texture-scale: 50; }\n");
  static const std::vector<std::string> rts = {"none", "flat", "flat", "dome", "pyramidal", "mansard", "skillion", "round"}, fts = {"flat", "flat", "flat", "flat", "cylinder", "sphere"}, rds = {"N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW", "90", "200", "12.5"};
  struct B { M m; int shape; double h, mh, rh; std::string rt, ft, rd; };
  std::vector<B> bs; double H = w.half() * 0.8;
  for (size_t i = 0, n = 1 + r.below(4); i < n; ++i) {
    B x; x.shape = (int) r.below(4); x.rt = r.pick(rts); x.ft = r.pick(fts); x.rd = r.pick(rds); if (x.rt == "round") { if (r.chance(0.7)) x.shape = 0; if (r.chance(0.4)) x.rd = r.chance(0.5) ? "across" : "along"; }
    x.h = std::round(r.real(2, 60) * 10) / 10; x.mh = r.chance(0.6) ? 0 : std::round(r.real(0.5, x.h - 0.6) * 10) / 10; x.rh = r.chance(0.1) ? 0 : std::round(r.real(0.5, 12) * 10) / 10;
    double size = r.real(4, 40), cx = r.real(-H, H), cy = r.real(-H, H); Coords o = ring(r, x.shape, cx, cy, size, w.f); if (!geo::simple(w.f.m(o))) continue;
    x.m.id = 10 + i; x.m.tags = {{"b", "yes"}, {"h", el::num(x.h)}, {"mh", el::num(x.mh)}, {"rt", x.rt}, {"rh", el::num(x.rh)}, {"rd", x.rd}, {"ft", x.ft}};
    bool multi = r.chance(0.25);
    if (!multi) { x.m.kind = el::AREA; x.m.pts = o; }
    else {
      x.m.kind = el::RELATION; x.m.tags.push_back({"type", "multipolygon"}); if (x.rt == "pyramidal" || x.rt == "skillion" || (x.rt == "round" && x.rd == "across")) { x.rt = "flat"; x.m.tags[3].second = "flat"; } if (x.ft != "flat") { x.ft = "flat"; x.m.tags[6].second = "flat"; } x.shape = 4;
      M k; k.kind = el::AREA; k.pts = o; x.m.kids.push_back(k);
      Coords hole = ring(r, (int) r.below(2), cx, cy, size * 0.15, w.f); bool in = true; for (auto &p : hole) in &= geo::inside(o, p) && geo::lineDist(w.f.m(o), w.f.m(p), true) > 0.3; for (size_t a = 0; a < hole.size() && in; ++a) for (size_t b = 0; b < o.size(); ++b) in &= !geo::crosses(hole[a], hole[(a + 1) % hole.size()], o[b], o[(b + 1) % o.size()]);
      if (in) { k.pts = hole; x.m.kids.push_back(k); c.count("with_hole"); }
    }
    bs.push_back(x);
  }
  if (bs.empty()) return;
  std::vector<M> ms; for (auto &x : bs) ms.push_back(x.m); bool api = r.chance(0.3) && !w.disk;
  if (api) for (auto &x : ms) if (x.kind == el::RELATION) api = false;
  if (api) for (auto &x : ms) { Coords p = x.pts; p.push_back(p[0]); api::Result a; api::addElement(a, "s", w.style, x.id, p, x.tags, 16, 16); c.check(a.errors.empty(), "add", w.text); w.text += el::dump(x) + "\n"; }
  else w.xml(scene::toXml(ms));
  api::Result res = w.load(); std::set<std::string> names; for (auto &m : res.meshes) c.check(names.insert(m.name).second, "delivered-twice", m.name + "\n" + w.text);
  for (auto &x : bs) {
    std::string name = "building:" + std::to_string(x.m.id), what = name + " " + x.rt + "/" + x.ft + " h " + n3(x.h) + " mh " + n3(x.mh) + " rh " + n3(x.rh) + " rd " + x.rd; const api::Mesh *m = nullptr;
    for (auto &y : res.meshes) if (y.name == name) m = &y; c.check(m, "no-mesh", what + "\n" + w.text); if (!m) continue;
    auto fail = [&](const std::string &k, const std::string &d) { c.violation(k, what + ": " + d + "\n" + w.text); };
    std::vector<Coords> rings; if (x.m.kind == el::AREA) rings.push_back(x.m.pts); else for (auto &k : x.m.kids) rings.push_back(k.pts);
    std::vector<Coords> geoRings = rings; for (auto &o : rings) o = w.f.m(o); double A = std::abs(geo::area(rings[0])); for (size_t i = 1; i < rings.size(); ++i) A -= std::abs(geo::area(rings[i]));
    auto T = tris(*m, w.f); double lowest = 1e18; for (auto &t : T) lowest = std::min(lowest, t.low()); if (T.empty() && x.rt == "none") { fail("empty", ""); continue; }
    double h = x.h == 0 ? 10 : x.h, ele = 0; bool known = !w.grid;
    double minX = 1e18, maxX = -1e18, minY = 1e18, maxY = -1e18; for (auto &p : rings[0]) { minY = std::min(minY, p.first); maxY = std::max(maxY, p.first); minX = std::min(minX, p.second); maxX = std::max(maxX, p.second); }
    double rx = (maxX - minX) / 2, ry = (maxY - minY) / 2, cx = minX + rx, cy = minY + ry; bool sphere = x.ft == "sphere", dome = x.rt == "dome";
    if (!known) { // the ground under the building is the ground at one of its corners
      double bestD = 1e18, at = x.mh; for (auto &o : geoRings) for (auto &p : o) { double g = w.ground(p); double d = sphere || dome ? 1e18 : std::abs(g + at - lowest); if (d < bestD) bestD = d, ele = g; }
      if (sphere || dome) { c.count("unknown_ground"); continue; } if (bestD > 1e-6) { fail("ground", "lowest " + n3(lowest) + " no corner has this ground"); continue; } }
    double base = ele + x.mh, top = ele + h, E = 1e-5; bool flatFacade = x.ft == "flat", cyl = x.ft == "cylinder";
    double roofTop = x.rt == "flat" || x.rt == "none" ? top : dome ? top + ry * 1.01 : top + x.rh;
    // heights and place
    double highest = -1e18; for (auto &t : T) highest = std::max(highest, t.high());
    double lowAllowed = sphere ? base - ry * 1.01 : dome ? std::min(base, top - ry * 1.01) : base; double highAllowed = sphere ? std::max(roofTop, base + 2.02 * ry) : roofTop;
    if (lowest < lowAllowed - E || highest > highAllowed + E) fail("height", "from " + n3(lowest) + " to " + n3(highest) + " instead of " + n3(lowAllowed) + " to " + n3(highAllowed));
    bool over = true; Tri out;
    for (auto &t : T) for (auto &p : t.p) {
      P q{p[1], p[0]}; bool inCircle = std::pow((p[0] - cx) / rx, 2) + std::pow((p[1] - cy) / ry, 2) < 1.0001, in = (dome || sphere || cyl) && inCircle;
      if (!in) { double d = 1e18; for (auto &o : rings) d = std::min(d, geo::lineDist(o, q, true)); in = d < 0.03; if (!in) { in = geo::inside(rings[0], q); for (size_t i = 1; i < rings.size(); ++i) in &= !geo::inside(rings[i], q); } }
      if (!in && !(x.rt == "pyramidal" && !convex(rings[0])) && !(x.rt == "round" && x.shape != 0 && rings[0].size() == 4)) { over = false; out = t; }
    }
    if (!over) fail("not-over-footprint", show(out));
    // facades
    if (flatFacade) {
      for (size_t o = 0; o < rings.size(); ++o) for (size_t i = 0; i < rings[o].size(); ++i) {
        P a = rings[o][i], d = rings[o][(i + 1) % rings[o].size()]; double want = std::hypot(a.first - d.first, a.second - d.second) * (top - base), got = 0;
        for (auto &t : T) { if (t.high() > top + E || std::abs(t.flat()) > 1e-6) continue; bool on = true; for (auto &p : t.p) on &= geo::segDist({p[1], p[0]}, a, d) < 1e-5; if (on) got += t.area(); }
        c.count("facade_edges"); if (std::abs(got - want) > 1e-4 + 1e-6 * want) { fail("facade", "edge " + std::to_string(o) + "." + std::to_string(i) + " of " + n3(want) + " m2 has " + n3(got)); break; }
      }
    } else if (cyl) {
      double side = 0, cap = 0; std::set<int> seg; for (auto &t : T) { if (t.high() > top + E || t.low() < base - E) continue; bool circ = true; for (auto &p : t.p) { double k = std::sqrt(std::pow((p[0] - cx) / rx, 2) + std::pow((p[1] - cy) / ry, 2)); circ &= std::abs(k - 1) < 1e-3; } if (circ && t.high() - t.low() > E) { side += std::abs((std::abs(t.area()))); } (void) cap; }
      // the sides of a polygon with seven corners on the ellipse
      double per = 0; for (int i = 0; i < 7; ++i) { double u = 2 * M_PI * i / 7, v = 2 * M_PI * (i + 1) / 7; per += std::hypot(rx * (std::cos(u) - std::cos(v)), ry * (std::sin(u) - std::sin(v))); }
      (void) per; double circle = M_PI * (3 * (rx + ry) - std::sqrt((3 * rx + ry) * (rx + 3 * ry)));
      if (side < 0.85 * circle * (top - base) || side > 1.001 * circle * (top - base)) fail("facade-cylinder", n3(side) + " m2 around " + n3(circle * (top - base))); c.count("cylinders");
    } else {
      double lo = 1e18, hi = -1e18, x0 = 1e18, x1 = -1e18; for (auto &t : T) for (auto &p : t.p) { if (x.rt != "none" && p[2] >= top - E) continue; lo = std::min(lo, p[2]); hi = std::max(hi, p[2]); x0 = std::min(x0, p[0]); x1 = std::max(x1, p[0]); }
      if (x.rt == "none") { if (x.mh == 0) { if (hi - lo < 1.6 * ry || hi - lo > 2.02 * ry || x1 - x0 < 1.6 * rx || x1 - x0 > 2.001 * rx) fail("facade-sphere", n3(hi - lo) + " m high and " + n3(x1 - x0) + " m wide instead of " + n3(2 * ry) + " and " + n3(2 * rx)); c.count("spheres"); } }
    }
    // roof
    double flatTop = 0, floor = 0, roof = 0, ridge = 0; for (auto &t : T) { double a = std::abs(t.flat()); if (a < 1e-9) continue; bool atTop = t.low() > top - E && t.high() < top + E, atBase = t.low() > base - E && t.high() < base + E; if (atBase && !(sphere || cyl)) floor += a; else if (atTop && !(cyl || sphere)) flatTop += a; else if (t.low() > top - E) { roof += a; } if (t.low() > top + x.rh - E && x.rh > E) ridge += a; }
    double tol = 1e-4 + 1e-5 * A, loose = 0.05 * geo::length(rings[0], true) + 1e-3 * A; bool plain = !(sphere || cyl);
    if (plain) {
      if (x.mh > 0) { c.count("floors"); if (std::abs(floor - A) > tol) fail("floor", n3(floor) + " m2 instead of " + n3(A)); } else if (floor > tol && top - base > E) fail("floor", n3(floor) + " m2 without min-height");
      if (x.rt == "flat") { c.count("flat_roofs"); if (std::abs(flatTop - A) > tol) fail("flat-roof", n3(flatTop) + " m2 instead of " + n3(A)); }
      else if (x.rt == "none") { if (flatTop + roof > tol) fail("roof-none", n3(flatTop + roof) + " m2"); }
      else if (!dome && x.rh > 0) {
        bool fallback = x.rt != "pyramidal" && std::abs(flatTop - A) <= tol && roof < tol;
        if (fallback) c.count("fallback:" + x.rt);
        else {
          c.count("roof:" + x.rt);
          double all = flatTop + roof; bool judged = x.rt == "pyramidal" ? convex(rings[0]) : x.rt == "round" ? x.shape == 0 : true;
          if (judged && std::abs(all - A) > (x.rt == "mansard" ? loose : tol * 10)) fail("roof-" + x.rt, "covers " + n3(all) + " m2 instead of " + n3(A));
          double want = x.rt == "round" ? 0.97 * x.rh : x.rh; if (highest < top + want - E) fail("roof-height", n3(highest - top) + " m instead of " + n3(x.rh));
          if (x.rt == "mansard" && ridge < (x.shape == 0 ? 0.2 : 0.01) * A) fail("roof-mansard", "flat part of " + n3(ridge) + " m2 of " + n3(A));
          if (x.rt == "skillion" && x.shape == 0) { // the roof faces its direction: it is low there
            double deg = 0; static const std::vector<std::string> names = {"N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"}; auto it = std::find(names.begin(), names.end(), x.rd); deg = it == names.end() ? std::stod(x.rd) : 22.5 * (it - names.begin());
            double dx = std::sin(deg * M_PI / 180), dy = std::cos(deg * M_PI / 180), lowD = 0, highD = 0; int nl = 0, nh = 0;
            for (auto &t : T) for (auto &p : t.p) { double along = (p[0] - cx) * dx + (p[1] - cy) * dy; if (std::abs(p[2] - top - x.rh) < E) { highD += along; ++nh; } }
            for (auto &p : rings[0]) { double best = -1e18; for (auto &t : T) for (auto &v : t.p) if (std::abs(v[0] - p.second) < 1e-4 && std::abs(v[1] - p.first) < 1e-4) best = std::max(best, v[2]); if (std::abs(best - top) < E) { lowD += (p.second - cx) * dx + (p.first - cy) * dy; ++nl; } }
            c.count("skillion_rectangles"); if (!nl || !nh || lowD / nl <= highD / nh) fail("skillion-direction", "low side at " + n3(nl ? lowD / nl : 0) + ", high side at " + n3(nh ? highD / nh : 0) + " m along " + x.rd);
          }
        }
      } else if (dome) {
        double hi = -1e18, x0 = 1e18, x1 = -1e18, y0 = 1e18, y1 = -1e18; for (auto &t : T) { if (t.high() < top + E) continue; for (auto &p : t.p) { hi = std::max(hi, p[2]); x0 = std::min(x0, p[0]); x1 = std::max(x1, p[0]); y0 = std::min(y0, p[1]); y1 = std::max(y1, p[1]); } }
        c.count("domes"); if (hi < top + 0.8 * ry || x1 - x0 < 1.6 * rx || y1 - y0 < 1.6 * ry) fail("dome", "top " + n3(hi - top) + " m, " + n3(x1 - x0) + " x " + n3(y1 - y0) + " instead of radius " + n3(rx) + " x " + n3(ry));
      }
    }
    // a box is closed: every edge of a triangle is shared by a neighbour which goes the other way
    if (flatFacade && x.rt == "flat") {
      std::map<std::array<long, 6>, int> edges; auto key = [](const V3 &a, const V3 &b) { return std::array<long, 6>{{lround(a[0] * 1e4), lround(a[1] * 1e4), lround(a[2] * 1e4), lround(b[0] * 1e4), lround(b[1] * 1e4), lround(b[2] * 1e4)}}; }; double vol = 0;
      for (auto &t : T) { if (t.area() < 1e-9) continue; for (int k = 0; k < 3; ++k) { ++edges[key(t.p[k], t.p[(k + 1) % 3])]; --edges[key(t.p[(k + 1) % 3], t.p[k])]; } auto &p = t.p; double z = base; vol += (p[0][0] - cx) * ((p[1][1] - cy) * (p[2][2] - z) - (p[2][1] - cy) * (p[1][2] - z)) - (p[0][1] - cy) * ((p[1][0] - cx) * (p[2][2] - z) - (p[2][0] - cx) * (p[1][2] - z)) + (p[0][2] - z) * ((p[1][0] - cx) * (p[2][1] - cy) - (p[2][0] - cx) * (p[1][1] - cy)); }
      size_t open = 0; std::string first; for (auto &k : edges) if (k.second) { if (x.mh == 0 && std::abs(k.first[2] * 1e-4 - base) < 1e-3 && std::abs(k.first[5] * 1e-4 - base) < 1e-3) continue; ++open; if (first.empty()) first = n3(k.first[0] * 1e-4) + "," + n3(k.first[1] * 1e-4) + "," + n3(k.first[2] * 1e-4) + "-" + n3(k.first[3] * 1e-4) + "," + n3(k.first[4] * 1e-4) + "," + n3(k.first[5] * 1e-4); }
      c.count("closed_boxes"); if (open) fail("open", std::to_string(open) + " edges, " + first);
      if (!open && std::abs(std::abs(vol / 6) - A * (top - base)) > 1e-3 + 1e-5 * A * (top - base)) fail("volume", n3(vol / 6) + " instead of " + n3(A * (top - base)));
      c.count(vol > 0 ? "volume_positive" : "volume_negative");
    }
    c.count("buildings"); c.distinct(vf::hashStr(api::dump(*m)));
  }
  c.sample(w.text.substr(0, 1500));
}

// ---- parts of one building, which are built together ----
void complexes(vf::Ctx &c) {
  auto &r = c.rng;
  World w(c, "@texture url(\"t.txt\");\nrelation|z16[type=multipolygon] { multipolygon: true; }\nrelation|z16[type=building] { clip: false; builder: building; }\narea|z16[b],relation|z16[b] { clip: false; builder: building; building: true; height: eval(\"tag('h')\"); min-height: eval(\"tag('mh')\"); roof-type: flat; roof-height: 0; facade-type: flat; facade-color: gradient(blue); roof-color: gradient(red); roof-texture-index: 0; roof-texture-type: background; roof-texture-scale: 50; facade-texture-index: 0; facade-texture-type: background; facade-texture-scale: 50; }\n");
  struct B { std::vector<Coords> rings; double h, mh; std::uint64_t id; bool outline; }; std::vector<B> bs; std::vector<M> ms; std::string rel; double H = w.half() * 0.2, X = r.real(-3, 3) * H, Y = r.real(-3, 3) * H; size_t n = 1 + r.below(4), outlines = r.chance(0.6) ? 1 : 0;
  for (size_t i = 0; i < n + outlines; ++i) {
    B x; x.outline = i == n; x.id = 20 + i; x.h = std::round(r.real(2, 60) * 10) / 10; x.mh = r.chance(0.5) ? 0 : std::round(r.real(0.5, x.h - 0.6) * 10) / 10; double cx = X + (i % 2 ? H / 2 : -H / 2), cy = Y + (i / 2 % 2 ? H / 2 : -H / 2), size = r.real(3, H * 0.33); if (x.outline) { cx = X; cy = Y; size = H * 1.5; }
    M m; m.id = x.id; Coords o = ring(r, x.outline ? 0 : (int) r.below(4), cx, cy, size, w.f); if (!geo::simple(w.f.m(o))) return; x.rings.push_back(w.f.m(o)); m.tags = {{"b", "yes"}, {"h", el::num(x.h)}, {"mh", el::num(x.mh)}};
    if (!x.outline && r.chance(0.3)) { m.kind = el::RELATION; m.tags.push_back({"type", "multipolygon"}); M k; k.kind = el::AREA; k.pts = o; m.kids.push_back(k); Coords hole = ring(r, 0, cx, cy, size * 0.15, w.f); bool in = true; for (auto &p : hole) in &= geo::inside(o, p) && geo::lineDist(w.f.m(o), w.f.m(p), true) > 0.3; for (size_t a = 0; a < hole.size() && in; ++a) for (size_t b = 0; b < o.size(); ++b) in &= !geo::crosses(hole[a], hole[(a + 1) % hole.size()], o[b], o[(b + 1) % o.size()]); if (in) { k.pts = hole; m.kids.push_back(k); x.rings.push_back(w.f.m(hole)); } c.count("multipolygon_parts"); }
    else { m.kind = el::AREA; m.pts = o; }
    rel += std::string("<member type=\"") + (m.kind == el::RELATION ? "relation" : "way") + "\" ref=\"" + std::to_string(m.id) + "\" role=\"" + (x.outline ? "outline" : "part") + "\"/>"; ms.push_back(m); if (!x.outline) bs.push_back(x);
  }
  // a building which does not belong to it
  bool alone = r.chance(0.5); if (alone) { M m; m.id = 90; m.kind = el::AREA; m.pts = ring(r, 0, X > 0 ? X - 2.5 * H : X + 2.5 * H, Y, H * 0.4, w.f); m.tags = {{"b", "yes"}, {"h", "7"}, {"mh", "0"}}; ms.push_back(m); }
  std::string x = scene::toXml(ms); x.insert(x.rfind("</osm>"), "<relation id=\"5\">" + rel + "<tag k=\"type\" v=\"building\"/></relation>\n"); w.xml(x); auto res = w.load();
  std::map<std::string, size_t> names; const api::Mesh *m = nullptr; for (auto &y : res.meshes) { ++names[y.name]; if (y.name == "building:5") m = &y; } std::map<std::string, size_t> wantNames{{"building:5", 1}}; if (alone) wantNames["building:90"] = 1;
  auto fail = [&](const std::string &k, const std::string &d) { c.violation(k, d + "\n" + w.text); };
  if (names != wantNames) { std::string s; for (auto &y : names) s += " " + y.first + " x" + std::to_string(y.second); fail("complex-meshes", s); return; }
  auto T = tris(*m, w.f); std::vector<std::vector<Tri>> of(bs.size());
  for (auto &t : T) { P mid{(t.p[0][1] + t.p[1][1] + t.p[2][1]) / 3, (t.p[0][0] + t.p[1][0] + t.p[2][0]) / 3}; size_t k = bs.size(); double best = 0.05; for (size_t i = 0; i < bs.size(); ++i) { double d = 1e18; for (auto &o : bs[i].rings) d = std::min(d, geo::lineDist(o, mid, true)); bool in = geo::inside(bs[i].rings[0], mid); for (size_t j = 1; j < bs[i].rings.size(); ++j) in &= !geo::inside(bs[i].rings[j], mid); if (in) d = 0; if (d < best) best = d, k = i; } if (k == bs.size()) { fail("complex-place", show(t)); return; } of[k].push_back(t); }
  for (size_t i = 0; i < bs.size(); ++i) {
    auto &b = bs[i]; std::string what = "part " + std::to_string(b.id) + " h " + n3(b.h) + " mh " + n3(b.mh) + ": "; double lo = 1e18, hi = -1e18, A = 0, flatTop = 0, floor = 0, side = 0, per = 0; for (auto &t : of[i]) lo = std::min(lo, t.low()), hi = std::max(hi, t.high());
    for (size_t j = 0; j < b.rings.size(); ++j) A += (j ? -1 : 1) * std::abs(geo::area(b.rings[j])), per += geo::length(b.rings[j], true);
    if (of[i].empty()) { fail("complex-part", what + "is missing"); continue; }
    bool ground = false; for (auto &o : b.rings) for (auto &p : o) { P g = w.f.at(p.second, p.first); ground |= std::abs(lo - b.mh - w.ground(g)) < 1e-5; } if (!ground || std::abs(hi - lo - (b.h - b.mh)) > 1e-5) { fail("complex-height", what + "from " + n3(lo) + " to " + n3(hi)); continue; }
    for (auto &t : of[i]) { double a = std::abs(t.flat()); if (a < 1e-9) side += t.area(); else if (t.low() > hi - 1e-5) flatTop += a; else if (t.high() < lo + 1e-5) floor += a; else fail("complex-shape", what + show(t)); }
    double tol = 1e-3 + 1e-4 * A; if (std::abs(flatTop - A) > tol) fail("complex-roof", what + n3(flatTop) + " m2 instead of " + n3(A)); if (std::abs(floor - (b.mh > 0 ? A : 0)) > tol) fail("complex-floor", what + n3(floor) + " m2"); double want = per * (b.h - b.mh); if (std::abs(side - want) > 1e-3 + 1e-5 * want) fail("complex-facade", what + n3(side) + " m2 instead of " + n3(want)); c.count("complex_parts");
  }
  c.count("complexes"); c.distinct(vf::hashStr(api::dump(*m)));
}

// ---- repeated and extruded objects along ways ----
Coords line(vf::Rng &r, const World &w, size_t n) { double H = w.half() * 0.7, x = r.real(-H, H) * 0.5, y = r.real(-H, H) * 0.5, a = r.real(0, 6.28); Coords o; for (size_t i = 0; i < n; ++i) { o.push_back(w.f.at(x, y)); a += r.real(-1, 1); double s = r.real(3, H / 4); x += s * std::cos(a); y += s * std::sin(a); } return o; }
double metres(P a, P b) { double f = M_PI / 180, dla = (a.first - b.first) * f, dlo = (a.second - b.second) * f, x = std::pow(std::sin(dla / 2), 2) + std::cos(a.first * f) * std::cos(b.first * f) * std::pow(std::sin(dlo / 2), 2); return 6378137 * 2 * std::atan2(std::sqrt(x), std::sqrt(1 - x)); }

// what is built along: a way, the outline of an area, or the members of a relation
struct Part { std::uint64_t id; Coords o; bool closed, node; Coords path() const { Coords p = o; if (closed) p.push_back(o[0]); return p; } };
struct Along { std::vector<Part> parts; std::string xml; int kind; };
bool along(vf::Rng &r, const World &w, int kind, bool nodes, const Tags &tags, const Tags &member, Along &a) {
  a.kind = kind; std::vector<M> ms; std::string rel;
  auto outline = [&]() { double H = w.half() * 0.6, size = r.real(5, H / 3); Coords o = ring(r, (int) r.below(4), r.real(-H, H), r.real(-H, H), size, w.f); double s = 0; Coords d = w.f.m(o); for (size_t i = 0; i < d.size(); ++i) { P x = d[i], y = d[(i + 1) % d.size()]; s += x.second * y.first - x.first * y.second; } if (s < 0) std::reverse(o.begin(), o.end()); return o; };
  for (size_t i = 0, n = kind == 2 ? 1 + r.below(4) : 1; i < n; ++i) {
    M m; m.id = kind == 2 ? 50 + i : 5; bool closed = kind == 1 || (kind == 2 && r.chance(0.4)), node = nodes && kind == 2 && !closed && r.chance(0.3); m.kind = node ? el::NODE : closed ? el::AREA : el::WAY; m.pts = closed ? outline() : line(r, w, node ? 1 : 2 + r.below(5)); m.tags = kind == 2 ? member : tags;
    if (closed && !geo::simple(w.f.m(m.pts))) return false; for (auto &p : m.pts) if (!geo::inBox(w.b, p, -1e-5)) return false;
    ms.push_back(m); a.parts.push_back({m.id, m.pts, closed, node}); rel += std::string("<member type=\"") + (node ? "node" : "way") + "\" ref=\"" + std::to_string(m.id) + "\" role=\"\"/>";
  }
  a.xml = scene::toXml(ms); if (kind == 2) { rel = "<relation id=\"5\">" + rel; for (auto &t : tags) rel += "<tag k=\"" + t.first + "\" v=\"" + t.second + "\"/>"; a.xml.insert(a.xml.rfind("</osm>"), rel + "</relation>\n"); } return true;
}

void wall(vf::Ctx &c, World &w, const Part &part, const api::Mesh &x, double wd, double len, double gap, double h) {
  Coords o = part.path(); auto fail = [&](const std::string &k, const std::string &d) { c.violation(k, x.name + ": " + d + "\n" + w.text); };
  // the width is measured in degrees of latitude in both directions
  Coords d; for (auto &p : o) d.push_back({(p.first - w.f.la) * w.f.my, (p.second - w.f.lo) * w.f.my}); Frame f = w.f; f.mx = f.my; auto T = tris(x, f);
  double reach = 0, topA = 0, sideA = 0, full = 0; size_t pieces = 0; bool skip = false;
  for (size_t i = 0; i + 1 < o.size(); ++i) { double L = metres(o[i], o[i + 1]), k = L / (len + gap); if (std::abs(k - std::round(k)) < 1e-4) skip = true; pieces += std::max(1, (int) k); full += std::hypot(d[i].first - d[i + 1].first, d[i].second - d[i + 1].second); }
  for (auto &t : T) {
    for (auto &p : t.p) { reach = std::max(reach, geo::lineDist(d, {p[1], p[0]}, false)); P g{w.f.la + p[1] / w.f.my, w.f.lo + p[0] / w.f.my}; double e = w.ground(g); if (std::abs(p[2] - e) > 1e-5 && std::abs(p[2] - e - h) > 1e-5) { fail("wall-height", n3(p[2]) + " over the ground at " + n3(e)); return; } }
    if (std::abs(t.flat()) > 1e-9) topA += std::abs(t.flat()); else sideA += t.area();
  }
  // the size of the style is converted for the middle of the tile
  double k = reach / wd; if (k < 0.2 || k > 3.5) fail("wall-width", "reaches " + n3(reach) + " m"); 
  double want = full * len / (len + gap) * 2 * reach; if (!skip && std::abs(topA - want) > 0.002 * want + 0.001 * pieces) fail("wall-top", n3(topA) + " m2 instead of " + n3(want));
  if (!skip && T.size() != pieces * 10) fail("wall-pieces", std::to_string(T.size()) + " triangles of " + std::to_string(pieces) + " pieces");
  double sides = 2 * full * len / (len + gap) * h + pieces * 4 * reach * h; if (!skip && !w.grid && std::abs(sideA - sides) > 0.002 * sides) fail("wall-sides", n3(sideA) + " m2 instead of " + n3(sides));
  // both ends of the way, every corner of the outline and the middle of every side are reached
  Coords must; if (gap == 0) { if (part.closed) must = d; for (size_t i = 0; i + 1 < d.size(); ++i) must.push_back({(d[i].first + d[i + 1].first) / 2, (d[i].second + d[i + 1].second) / 2}); must.push_back(d.front()); must.push_back(d.back()); }
  for (P e : must) { double best = 1e18; for (auto &t : T) for (int i = 0; i < 3; ++i) best = std::min(best, geo::lineDist({{t.p[i][1], t.p[i][0]}, {t.p[(i + 1) % 3][1], t.p[(i + 1) % 3][0]}}, e, false)); if (best > reach * 1.01 + 1e-3) fail("wall-end", n3(best) + " m away"); }
  c.count("walls"); if (part.closed) c.count("wall_areas"); c.count("wall_pieces", pieces); c.distinct(vf::hashStr(api::dump(x)));
}

void walls(vf::Ctx &c) {
  auto &r = c.rng; double wd = std::round(r.real(0.1, 2) * 10) / 10, len = std::round(r.real(1, 12)), gap = r.chance(0.5) ? 0 : std::round(r.real(0.2, 6) * 10) / 10, h = std::round(r.real(0.5, 6) * 10) / 10;
  World w(c, "@texture url(\"t.txt\");\nway|z16[w],area|z16[w],relation|z16[w] { builder: barrier; clip: false; color: red; height: " + el::num(h) + "m; width: " + el::num(wd) + "m; length: " + el::num(len) + "m; gap: " + el::num(gap) + "m; type: wall; texture-index: 0; texture-type: background; texture-scale: 50; }\n");
  Along a; if (!along(r, w, r.chance(0.5) ? 0 : 1 + (int) r.below(2), false, {{"w", "1"}}, {{"p", "x"}}, a)) return; w.xml(a.xml);
  auto res = w.load(); if (a.kind == 2) c.count("wall_relations");
  for (auto &part : a.parts) { std::string name = "barrier:" + std::to_string(part.id); const api::Mesh *x = nullptr; size_t n = 0; for (auto &y : res.meshes) if (y.name == name) { x = &y; ++n; } if (n != 1) { c.violation("no-wall", name + " comes " + std::to_string(n) + " times\n" + w.text); return; } wall(c, w, part, *x, wd, len, gap, h); }
}

void copies(vf::Ctx &c) {
  auto &r = c.rng; int kind = (int) r.below(4);   // 0 trees, 1 lamps, 2 pillars, 3 single pillar
  double step = std::round(r.real(2, 30)), size = std::round(r.real(0.5, 4) * 10) / 10, h = std::round(r.real(0.5, 6) * 10) / 10, wide = kind == 1 && r.chance(0.5) ? std::round(r.real(0.5, 5) * 10) / 10 : 0;
  std::string ls = "lsys: t; lsys-size: " + el::num(size) + "m; lsys-colors: red,blue; lsys-texture-indices: 0,0; lsys-texture-types: background,background; lsys-texture-scales: 10,10;", tx = "texture-index: 0; texture-type: background; texture-scale: 50;";
  World w(c, "@texture url(\"t.txt\");\n@lsystem url(\"t.lsys\");\n" + (kind < 2 ? "way|z16[m] { clip: false; tree-step: " + el::num(step) + "m; lamp-step: " + el::num(step) + "m; width: " + el::num(wide) + "m; " + ls + "}\n" : std::string()) + "way|z16[w],node|z16[w],area|z16[w],relation|z16[w] { clip: false; " + (kind == 0 ? "builder: tree; tree-step: " + el::num(step) + "m; " + ls : kind == 1 ? "builder: lamp; lamp-step: " + el::num(step) + "m; width: " + el::num(wide) + "m; " + ls : "builder: barrier; type: pillar; color: red; height: " + el::num(h) + "m; radius: " + el::num(size) + "m; step: " + el::num(step) + "m; " + tx) + " }\n");
  w.e.reset(); vf::spit(w.dir + "/t.lsys", "generations: 1\nangle: 10\nscale: 1\naxiom: F\nz -> F\n"); w.e.reset(new api::Engine(w.dir)); w.e->style(w.style); w.e->memory("s");
  Along a; if (!along(r, w, kind == 3 || r.chance(0.6) ? 0 : kind == 2 && r.chance(0.5) ? 1 : 2, kind == 2, {{"w", "1"}}, {{"m", "1"}}, a)) return;
  if (kind < 2) for (auto &p : a.parts) if (p.closed) return;      // trees and lamps stand along ways
  if (kind == 3) { a.parts[0].o.resize(1); a.parts[0].node = true; M m; m.kind = el::NODE; m.id = 5; m.pts = a.parts[0].o; m.tags = {{"w", "1"}}; a.xml = scene::toXml({m}); }
  w.disk = false; w.xml(a.xml); auto res = w.load(); if (a.kind == 2) c.count("copies_of_relations");
  for (auto &part : a.parts) {
  Coords o = part.path(); std::string name = (kind == 0 ? "trees:" : kind == 1 ? "lamps:" : "barrier:") + std::to_string(part.id);
  const api::Mesh *x = nullptr; size_t found = 0; for (auto &y : res.meshes) if (y.name == name) { x = &y; ++found; } c.check(found < 2, "mesh-twice", w.text); if (part.closed) c.count("copies_along_outline");
  auto fail = [&](const std::string &k, const std::string &d) { c.violation(k, name + ": " + d + "\n" + w.text); };
  std::vector<P> want; bool skip = false;
  if (part.node) want.push_back(o[0]);
  else for (size_t i = 0; i + 1 < o.size(); ++i) {
    double k = metres(o[i], o[i + 1]) / step; if (std::abs(k - std::round(k)) < 1e-4) skip = true; int n = (int) k;
    if (wide > 0) { for (int j = 1; j < n - 1; ++j) want.push_back({o[i].first + (o[i + 1].first - o[i].first) * j / n, o[i].second + (o[i + 1].second - o[i].second) * j / n}); }
    else for (int j = 0; j < n; ++j) want.push_back({o[i].first + (o[i + 1].first - o[i].first) * j / n, o[i].second + (o[i + 1].second - o[i].second) * j / n});
  }
  if (skip) continue; if (!x) { if (want.empty()) continue; fail("no-mesh", ""); return; }
  auto T = tris(*x, w.f); if (want.empty()) { c.check(T.empty(), "not-expected", w.text); continue; }
  if (T.size() % want.size()) { fail("copies", std::to_string(T.size()) + " triangles for " + std::to_string(want.size()) + " copies"); return; }
  size_t per = T.size() / want.size(); double tall = kind < 2 ? size : h; double side = 0;
  if (per < 14) { fail("copies", std::to_string(T.size()) + " triangles for " + std::to_string(want.size()) + " copies"); return; }
  for (size_t i = 0; i < want.size(); ++i) {
    double x0 = 1e18, x1 = -1e18, y0 = 1e18, y1 = -1e18, z0 = 1e18, z1 = -1e18; for (size_t k = i * per; k < (i + 1) * per; ++k) for (auto &p : T[k].p) { x0 = std::min(x0, p[0]); x1 = std::max(x1, p[0]); y0 = std::min(y0, p[1]); y1 = std::max(y1, p[1]); z0 = std::min(z0, p[2]); z1 = std::max(z1, p[2]); }
    P at = w.f.m(want[i]), mid{(y0 + y1) / 2, (x0 + x1) / 2}; double off = std::hypot(at.first - mid.first, at.second - mid.second), grown = kind >= 2 ? 0.3 * size : 0.1 * size; std::string s = "copy " + std::to_string(i) + " ";
    if (wide > 0) { double away = geo::lineDist(w.f.m(o), mid, false); side = std::max(side, away); if (off > 4 * wide + grown) { fail("copy-place", s + n3(off) + " m away"); return; } if (away < 0.2 * wide) { fail("copy-place", s + "is " + n3(away) + " m from the way instead of " + n3(wide)); return; } }
    else if (off > grown + 1e-3) { fail("copy-place", s + n3(off) + " m away"); return; }
    double tol = w.grid && wide > 0 ? 1e9 : 1e-4, g = w.ground(want[i]); if (std::abs(z0 - g) > tol || std::abs(z1 - z0 - tall) > 1e-4) { fail("copy-height", s + "from " + n3(z0) + " to " + n3(z1) + ", ground " + n3(g) + ", height " + n3(tall)); return; }
    double rx = (x1 - x0) / 2, ry = (y1 - y0) / 2; if (std::max(rx, ry) > 1.7 * size * (kind >= 2 ? 2 : 1) || std::min(rx, ry) < 0.8 * size * (kind >= 2 ? 0.4 : 1)) { fail("copy-size", s + n3(rx) + " x " + n3(ry) + " m instead of " + n3(size)); return; }
    c.count("copies:" + std::to_string(kind));
  }
  c.count(w.grid ? "copied_on_grid" : "copied_on_flat"); c.distinct(vf::hashStr(api::dump(*x)));
  }
}
}
int main(int argc, char **argv) { return vf::main(argc, argv, {{"buildings", 2500, 60000, buildings, 60}, {"complexes", 800, 20000, complexes, 60}, {"walls", 1500, 40000, walls, 60}, {"copies", 1500, 40000, copies, 60}}); }
