// C11 and others: random content drawn by the default style, meshes checked one by one.
#include "api.hpp"
#include "scene.hpp"
#include "geo.hpp"
using namespace el;
using utymap::utils::GeoUtils;
namespace {
typedef scene::P P;
struct P3 { double lat, lon, h; };
void wellFormed(vf::Ctx &c, const api::Mesh &m, const std::string &ctx) {
  auto bad = [&](const std::string &k, const std::string &d) { c.violation("mesh/" + k, m.name + ": " + d + "\n" + ctx); };
  size_t n = m.v.size() / 3;
  if (m.v.size() % 3) bad("partial-vertex", std::to_string(m.v.size()));
  if (m.t.size() % 3) bad("partial-triangle", std::to_string(m.t.size()));
  if (m.c.size() != n) bad("colors", std::to_string(m.c.size()) + " colours for " + std::to_string(n) + " vertices");
  if (m.uv.size() != 2 * n) bad("uvs", std::to_string(m.uv.size()) + " uv values for " + std::to_string(n) + " vertices");
  for (auto i : m.t) if (i < 0 || (size_t) i >= n) { bad("index", std::to_string(i) + " of " + std::to_string(n)); break; }
  for (auto d : m.v) if (!std::isfinite(d)) { bad("vertex-not-finite", std::to_string(d)); break; }
  for (auto d : m.uv) if (!std::isfinite(d)) { bad("uv-not-finite", std::to_string(d)); break; }
  if ((m.map.empty() && n) || m.map.size() % 8) bad("uvmap-size", std::to_string(m.map.size()));
  else {
    long prev = 0;
    for (size_t i = 0; i < m.map.size(); i += 8) { if (m.map[i] < prev || (size_t) m.map[i] > m.uv.size()) bad("uvmap-order", std::to_string(m.map[i])); prev = m.map[i]; }
    if ((size_t) prev != m.uv.size()) bad("uvmap-cover", std::to_string(prev) + " of " + std::to_string(m.uv.size()));
  }
  std::vector<char> used(n, 0);
  for (auto i : m.t) if (i >= 0 && (size_t) i < n) used[i] = 1;
  for (size_t i = 0; i < n; ++i) if (!used[i]) { c.count("unused_vertex_meshes"); break; }
  c.count("meshes"); c.count("vertices", n); c.count("triangles", m.t.size() / 3);
}

// fills the store: everything from one XML file, or single elements through the C API (relations always from the file)
void fill(vf::Ctx &c, api::Engine &e, const scene::World &w, const std::string &key, bool viaFile) {
  std::vector<M> rest; std::map<std::string, std::string> rels;
  for (auto &m : w.feats) {
    bool joined = std::find(w.joined.begin(), w.joined.end(), m.id) != w.joined.end();
    if (viaFile || m.kind == RELATION || joined) { rest.push_back(m); if (joined) { rels[scene::tagText(m.tags)] += "<member type=\"way\" ref=\"" + std::to_string(m.id) + "\" role=\"\"/>"; rest.back().tags.clear(); } continue; }
    Coords p = m.pts; if (m.kind == AREA) p.push_back(p.front());
    api::Result a; api::addElement(a, key, w.style, m.id, p, m.tags, w.lod, w.lod);
    for (auto &x : a.errors) c.violation("add/error", x + "\n" + dump(m));
  }
  if (rest.empty()) return;
  std::string f = e.dir + "/in.xml", x = scene::toXml(rest); std::uint64_t id = 9000; for (auto &p : rels) x.insert(x.rfind("</osm>"), "<relation id=\"" + std::to_string(id++) + "\">" + p.second + p.first + "</relation>\n"); vf::spit(f, x);
  api::Result a; api::addFile(a, key, w.style, f, w.lod, w.lod);
  for (auto &x : a.errors) c.violation("import/error", x + "\n" + w.desc);
}
void scenes(vf::Ctx &c, bool custom) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c);
  scene::World w = scene::world(r, dir, custom ? 6 : 10, custom);
  api::Engine e(dir);
  e.memory(); e.style(w.style); enableMeshCache(0);
  int ele = r.chance(0.6) ? api::FLAT : api::GRID;
  if (ele == api::GRID) { scene::gridFile(r, dir + "/index", w.q); c.count("grid_elevation"); }
  fill(c, e, w, "mem", r.chance(0.5));
  // another tile first, so that pooled buffers have been used before
  if (r.chance(0.5)) { api::Result p; QuadKey q2 = w.q; q2.tileX ^= 1; api::load(p, w.style, q2); for (auto &m : p.meshes) wellFormed(c, m, w.desc); }
  api::Result res; api::load(res, w.style, w.q, ele);
  for (auto &x : res.errors) c.violation("load/error", x + "\n" + w.desc);
  for (auto &m : res.meshes) { wellFormed(c, m, w.desc); std::string n = m.name.substr(0, m.name.find(':')); c.count("mesh:" + (n.substr(0, 8) == "terrain_" ? "terrain" : n)); }
  c.count("elements", res.elems.size());
  if (!res.meshes.empty()) c.distinct(w.desc);
}
// C12: the surfaces of the terrain as a partition of the tile
struct Layer { std::string name; int order; double offset; bool ownMesh; };
void terrain(vf::Ctx &c) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c);
  int lod = (int) r.range(12, 18);
  QuadKey q = GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(r.real(-70, 70), r.real(-170, 170)), lod);
  BoundingBox b = GeoUtils::quadKeyToBoundingBox(q);
  const double U = 1e-7, H = b.height();
  // style
  std::vector<int> orders = {9, 5, 2, -3}; r.shuffle(orders);
  std::vector<Layer> layers; std::vector<std::string> names = {"water", "road", "grass", "sand"};
  for (size_t i = 0; i < 4; ++i) layers.push_back({names[i], orders[i], r.chance(0.4) ? (double) r.range(-4, 4) : 0, true});
  double wpc = r.real(0.5, 5); bool noise = r.chance(0.3);
  auto num = [](double v) { char t[40]; snprintf(t, sizeof t, "%.3f", v); return std::string(t); };
  std::string z = "|z1-19", look = "color: red; color-noise-freq: 0; texture-index: 0; texture-type: background; texture-scale: 10;";
  auto looks = [&](const std::string &p) { return p + "color: red;" + p + "color-noise-freq: 0;" + p + "texture-index: 0;" + p + "texture-type: background;" + p + "texture-scale: 10;" + p + "ele-noise-freq: " + (noise ? "0.05" : "0") + ";"; };
  std::string s = "@texture url(\"single.txt\");\ncanvas" + z + " { grid-cell-size: " + num(r.real(3, 25)) + "%; max-area: " + num(r.real(0.2, 3)) + "%;" + looks("");
  for (auto &l : layers) s += l.name + "-sort-order: " + std::to_string(l.order) + ";" + l.name + "-max-area: " + num(r.real(0.2, 3)) + "%;" + looks(l.name + "-") + l.name + "-mesh-name: m_" + l.name + ";" + (l.offset != 0 ? l.name + "-height-offset: " + num(l.offset) + "m;" : "");
  s += "}\n";
  for (auto &l : layers) s += "area" + z + "[l=" + l.name + "],relation" + z + "[l=" + l.name + "],way" + z + "[l=" + l.name + "] { clip: true; builder: terrain; terrain-layer: " + l.name + "; width: " + num(wpc) + "%; }\n";
  for (auto n : {"park", "plaza"}) s += std::string("area") + z + "[l=" + n + "],relation" + z + "[l=" + n + "],way" + z + "[l=" + n + "] { clip: true; builder: terrain; width: " + num(wpc) + "%; max-area: " + num(r.real(0.2, 3)) + "%;" + looks("") + "mesh-name: " + n + ";}\n";
  scene::writeStyleDir(dir + "/style", s);
  scene::World w; w.lod = lod; w.q = q; w.b = b; w.style = dir + "/style/index.mapcss"; w.desc = el::qk(q) + "\n" + s + "\n";
  // regions
  scene::Opt o; o.degenerate = 0; o.outside = 0.4;
  std::vector<std::string> all = names; all.push_back("park"); all.push_back("plaza");
  size_t n = 1 + r.below(7); double rim = 0;
  for (size_t i = 0; i < n; ++i) {
    M m;
    for (int k = 0; k < 50; ++k) {
      m = scene::feature(r, b, 100 + i, o);
      if (m.kind == NODE || (m.kind == WAY && m.pts.size() > 8)) continue;
      if (m.kind == AREA && !geo::simple(m.pts)) continue;
      if (m.kind == AREA && r.chance(0.1)) { double g = r.real(-0.01, 0.2) * H; m.pts = {{b.minPoint.latitude - g, b.minPoint.longitude - g}, {b.minPoint.latitude - g, b.center().longitude}, {b.maxPoint.latitude + g, b.center().longitude}, {b.maxPoint.latitude + g, b.minPoint.longitude - g}}; }
      break;
    }
    if (m.kind == NODE) continue;
    m.tags = {{"l", r.pick(all)}}; if (m.kind == RELATION) m.tags.push_back({"type", "multipolygon"});
    rim += (m.kind == WAY ? 2.2 : 1) * geo::length(m.pts, m.kind == AREA); for (auto &k : m.kids) rim += geo::length(k.pts, true);
    if (c.replay && getenv("ONLY") && !strchr(getenv("ONLY"), (char) ('0' + i))) continue;
    w.feats.push_back(m); w.desc += el::dump(m) + "\n";
    c.count(std::string("region:") + el::kindName(m.kind));
  }
  { vf::Rng own(vf::hashStr(w.desc)); if (own.chance(0.3)) for (auto &m : w.feats) if (m.kind == WAY && own.chance(0.7)) { w.joined.push_back(m.id); w.desc += "way " + std::to_string(m.id) + " in a relation\n"; c.count("ways_of_relations"); } }
  api::Engine e(dir); e.memory(); e.style(w.style); enableMeshCache(0);
  bool grid = r.chance(0.5); scene::Grid g; if (grid) g = scene::gridFile(r, dir + "/index", q);
  fill(c, e, w, "mem", r.chance(0.5));
  // without any element in the tile nothing is built
  { api::Result a; api::addElement(a, "mem", w.style, 99, {{b.center().latitude, b.minPoint.longitude + H * 0.1}, {b.center().latitude, b.minPoint.longitude + H * 0.2}, {b.center().latitude + H * 0.1, b.minPoint.longitude + H * 0.1}, {b.center().latitude, b.minPoint.longitude + H * 0.1}}, {{"l", "sand"}}, lod, lod); }
  { M m; m.kind = AREA; m.id = 99; m.tags = {{"l", "sand"}}; m.pts = {{b.center().latitude, b.minPoint.longitude + H * 0.1}, {b.center().latitude, b.minPoint.longitude + H * 0.2}, {b.center().latitude + H * 0.1, b.minPoint.longitude + H * 0.1}}; w.feats.push_back(m); }
  api::Result res; std::string printed; { vf::Printed p(c); api::load(res, w.style, q, grid ? api::GRID : api::FLAT); printed = p.end(); }
  for (auto &x : res.errors) c.violation("load/error", x + "\n" + w.desc);
  // the triangulation gave up on contours which touch each other: known, see known_findings.txt
  if (printed.find("Topological inconsistency after splitting a segment") != std::string::npos) { c.count("lost_surface"); static int lost = 0; c.violation(++lost > 3 ? "terrain/surfaces-lost-often" : "terrain/surface-lost-in-segmentintersection", w.desc); return; }
  // triangles
  struct T { const api::Mesh *m; P3 p[3]; double lo[2], hi[2]; };
  std::vector<T> tris; double sum = 0;
  for (auto &m : res.meshes) {
    double off = 0; bool known = m.name == "terrain_surface" || m.name == "park" || m.name == "plaza"; for (auto &l : layers) if (m.name == "m_" + l.name) { off = l.offset; known = true; }
    c.check(known, "terrain/unexpected-mesh", m.name + "\n" + w.desc);
    bool reported = false;
    for (size_t i = 0; i + 2 < m.t.size(); i += 3) {
      T t; t.m = &m; bool flat = true;
      for (int k = 0; k < 3; ++k) { size_t v = 3 * (size_t) m.t[i + k]; t.p[k] = {m.v[v + 1], m.v[v], m.v[v + 2]}; }
      for (int k = 0; k < 3; ++k) flat &= !(t.p[k].lat == t.p[(k + 1) % 3].lat && t.p[k].lon == t.p[(k + 1) % 3].lon);
      for (int k = 0; k < 3 && !reported; ++k) if (!geo::inBox(b, {t.p[k].lat, t.p[k].lon}, 2.5 * U)) { reported = true; c.violation("terrain/outside-tile", m.name + " by " + el::num(geo::boxDist(b, {t.p[k].lat, t.p[k].lon}) / U) + " units " + el::num(t.p[k].lat) + " " + el::num(t.p[k].lon) + "\n" + w.desc); }
      if (!flat) { c.count("upright_triangles"); continue; }
      double ar = std::abs(geo::area({{t.p[0].lat, t.p[0].lon}, {t.p[1].lat, t.p[1].lon}, {t.p[2].lat, t.p[2].lon}}));
      sum += ar;
      for (int k = 0; k < 3 && !reported; ++k) {
        bool border = geo::boxDist(b, {t.p[k].lat, t.p[k].lon}) < 1e-10;
        if (noise && !border) continue;
        double want = (grid ? g.at(t.p[k].lat, t.p[k].lon) : 0) + off, tol = grid ? g.tolerance() : 1e-9;
        c.count(border ? "border_heights" : "heights");
        if (std::abs(want - t.p[k].h) > tol) { reported = true; c.violation("terrain/height", m.name + " at " + el::num(t.p[k].lat) + " " + el::num(t.p[k].lon) + ": " + el::num(t.p[k].h) + ", elevation and offset " + el::num(want) + "\n" + w.desc); }
      }
      t.lo[0] = std::min({t.p[0].lat, t.p[1].lat, t.p[2].lat}); t.hi[0] = std::max({t.p[0].lat, t.p[1].lat, t.p[2].lat});
      t.lo[1] = std::min({t.p[0].lon, t.p[1].lon, t.p[2].lon}); t.hi[1] = std::max({t.p[0].lon, t.p[1].lon, t.p[2].lon});
      tris.push_back(t);
    }
  }
  double whole = b.width() * b.height(), tol = (4 * (rim + 4 * H) * U + 2e4 * U * U + 1e-6 * whole) * 2;
  if (std::abs(sum - whole) > tol) c.violation("terrain/area", "surfaces cover " + el::num(sum / whole) + " of the tile, tolerance " + el::num(tol / whole) + "\n" + w.desc);
  // sample points
  const double margin = 30 * U;
  for (int i = 0; i < 80; ++i) {
    P p = scene::pick(r, b, 0);
    if (w.feats.size() && r.chance(0.6)) { // near a region
      const M &m = r.pick(w.feats); const Coords &pts = m.kind == RELATION ? r.pick(m.kids).pts : m.pts; P a = r.pick(pts); double d = H * r.pick(std::vector<double>{0.01, 0.05, 0.2}); p = {a.first + r.real(-d, d), a.second + r.real(-d, d)};
    }
    if (!geo::inBox(b, p) || geo::boxDist(b, p) < margin) continue;
    bool unsure = false; std::map<int, std::set<std::string>> claims;
    for (auto &m : w.feats) {
      bool in = false; const std::string &l = m.tags[0].second;
      if (m.kind == WAY) {
        double half = wpc * 0.01 * H, d = geo::lineDist(m.pts, p, false);
        // the way is cut at the tile before it is widened
        double dIn = 1e9, t0, t1;
        for (size_t k = 0; k + 1 < m.pts.size(); ++k) if (geo::clipSeg(b, m.pts[k], m.pts[k + 1], t0, t1)) { P a = m.pts[k], z2 = m.pts[k + 1]; auto at = [&](double t) { return P(a.first + t * (z2.first - a.first), a.second + t * (z2.second - a.second)); }; dIn = std::min(dIn, geo::segDist(p, at(t0), at(t1))); }
        if (d > half * 1.1 + margin) in = false; else if (dIn < half * 0.9 - margin) in = true; else unsure = true;
      } else {
        std::vector<const Coords *> rings; if (m.kind == AREA) rings.push_back(&m.pts); else for (auto &k : m.kids) rings.push_back(&k.pts);
        for (auto *ring : rings) { if (geo::lineDist(*ring, p, true) < margin) unsure = true; if (geo::inside(*ring, p)) in = !in; }
      }
      if (in) { int ord = 0; std::string mesh = l; for (auto &y : layers) if (y.name == l) { ord = y.order; mesh = "m_" + l; } claims[ord].insert(mesh); }
    }
    if (unsure) continue;
    std::set<std::string> want = claims.empty() ? std::set<std::string>{"terrain_surface"} : claims.rbegin()->second;
    int cover = 0; const api::Mesh *by = nullptr; bool edge = false; std::string who;
    for (auto &t : tris) {
      if (p.first < t.lo[0] - 1e-9 || p.first > t.hi[0] + 1e-9 || p.second < t.lo[1] - 1e-9 || p.second > t.hi[1] + 1e-9) continue;
      double lat[3], lon[3]; for (int k = 0; k < 3; ++k) { lat[k] = t.p[k].lat - p.first; lon[k] = t.p[k].lon - p.second; }
      int pos = 0, neg = 0; bool close = false;
      for (int k = 0; k < 3; ++k) {
        int l = (k + 1) % 3; double cr = lon[k] * lat[l] - lon[l] * lat[k];
        if (geo::segDist({0, 0}, {lat[k], lon[k]}, {lat[l], lon[l]}) < 1e-11) close = true;
        (cr > 0 ? pos : neg)++;
      }
      if (close) edge = true; else if (pos == 3 || neg == 3) { ++cover; by = t.m; who += by->name + "#" + std::to_string(by - &res.meshes[0]) + " "; }
    }
    if (edge) { c.count("samples_on_edge"); continue; }
    c.count("samples"); c.count(claims.empty() ? "samples_background" : claims.size() > 1 ? "samples_contested" : "samples_claimed");
    std::string where = "at " + el::num(p.first) + " " + el::num(p.second) + "\n" + w.desc;
    if (cover != 1) c.violation(cover ? "terrain/overlap" : "terrain/gap", std::to_string(cover) + " triangles " + who + where);
    else if (!want.count(by->name)) c.violation("terrain/wrong-surface", "covered by " + by->name + " instead of " + *want.begin() + " " + where);
  }
  if (!w.feats.empty()) c.distinct(w.desc);
  c.count("terrain_tiles"); if (grid) c.count("grid_tiles");
}
// the input of the known finding: contours of the background which touch at 1e-17 degree
void terrainKnown(vf::Ctx &c) { c.rng = vf::Rng(vf::mix(6) ^ vf::mix(vf::hashStr("terrain")) ^ vf::mix(4190 * 7919 + 13)); terrain(c); }
void scenesDefault(vf::Ctx &c) { scenes(c, false); }
void scenesCustom(vf::Ctx &c) { scenes(c, true); }
}
int main(int argc, char **argv) {
  return vf::main(argc, argv, {{"default", 1500, 20000, scenesDefault}, {"custom", 2000, 30000, scenesCustom}, {"terrain", 3000, 30000, terrain}, {"terrainKnown", 1, 1, terrainKnown}});
}
