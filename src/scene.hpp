// Random map content which reaches every builder, with ordinary and degenerate geometry.
#ifndef VF_SCENE_HPP
#define VF_SCENE_HPP
#include "el.hpp"
namespace scene {
using el::M; using el::Tags; using el::Coords; using el::BoundingBox;
typedef std::pair<double, double> P;

struct Opt { double degenerate = 0.05; double outside = 0.2; int maxPts = 12; };

inline P pick(vf::Rng &r, const BoundingBox &b, double grow) {
  double h = b.maxPoint.latitude - b.minPoint.latitude, w = b.maxPoint.longitude - b.minPoint.longitude;
  return {r.real(b.minPoint.latitude - grow * h, b.maxPoint.latitude + grow * h), r.real(b.minPoint.longitude - grow * w, b.maxPoint.longitude + grow * w)};
}
// star shaped ring around c, ccw
inline Coords star(vf::Rng &r, P c, double rad, size_t n, double rough) {
  Coords v; double ph = r.real(0, 6.28);
  for (size_t i = 0; i < n; ++i) { double a = ph + (i + r.real(-0.3, 0.3)) * 6.283185307 / n, q = rad * r.real(1 - rough, 1); v.push_back({c.first + q * std::sin(a), c.second + q * std::cos(a)}); }
  return v;
}
inline Coords rect(vf::Rng &r, P c, double rad) {
  double w = rad * r.real(0.3, 1), h = rad * r.real(0.3, 1), a = r.chance(0.5) ? 0 : r.real(0, 3.14);
  Coords v; for (auto &p : Coords{{-h, -w}, {-h, w}, {h, w}, {h, -w}}) v.push_back({c.first + p.first * std::cos(a) + p.second * std::sin(a), c.second - p.first * std::sin(a) + p.second * std::cos(a)});
  return v;   // ccw in (lon,lat)
}
inline Coords ring(vf::Rng &r, const BoundingBox &b, const Opt &o, double relSize) {
  double h = b.maxPoint.latitude - b.minPoint.latitude;
  P c = pick(r, b, r.chance(o.outside) ? 0.2 : -0.1);
  double rad = h * relSize * r.real(0.2, 1);
  if (r.chance(o.degenerate)) {
    Coords v; size_t n = 3 + r.below(5);
    switch (r.below(4)) {
      case 0: for (size_t i = 0; i < n; ++i) v.push_back(c); break;                                   // a single point
      case 1: for (size_t i = 0; i < n; ++i) v.push_back({c.first + i * rad / n, c.second + i * rad / n}); break;   // a line
      case 2: for (size_t i = 0; i < n + 2; ++i) v.push_back({c.first + r.real(-rad, rad), c.second + r.real(-rad, rad)}); break;   // self crossing
      default: v = star(r, c, rad, n, 0.3); v.insert(v.begin() + 1, v[0]); v.push_back(v.back());        // repeated points
    }
    return v;
  }
  if (r.chance(0.4)) return rect(r, c, rad);
  return star(r, c, rad, 3 + r.below(o.maxPts), r.chance(0.5) ? 0.2 : 0.7);
}
inline Coords line(vf::Rng &r, const BoundingBox &b, const Opt &o, double relSize) {
  double h = b.maxPoint.latitude - b.minPoint.latitude;
  P c = pick(r, b, r.chance(o.outside) ? 0.2 : -0.05); Coords v{c}; size_t n = 1 + r.below(o.maxPts);
  double dir = r.real(0, 6.28);
  for (size_t i = 0; i < n; ++i) { dir += r.real(-1, 1); double q = h * relSize * r.real(0.05, 0.5); c = {c.first + q * std::sin(dir), c.second + q * std::cos(dir)}; v.push_back(c); }
  if (r.chance(o.degenerate)) { if (r.chance(0.5)) v.insert(v.begin() + 1, v[0]); else v.push_back(v[v.size() - 2]); }
  return v;
}

inline const std::vector<Tags> &areaTags() {
  static const std::vector<Tags> t = {
    {{"building", "yes"}}, {{"building", "house"}, {"height", "12"}}, {{"building", "residential"}, {"building:levels", "5"}},
    {{"building", "yes"}, {"roof:shape", "dome"}, {"height", "20"}, {"roof:height", "5"}}, {{"building", "yes"}, {"roof:shape", "pyramidal"}, {"roof:height", "6"}},
    {{"building", "yes"}, {"roof:shape", "mansard"}, {"roof:height", "4"}}, {{"building", "yes"}, {"roof:shape", "skillion"}, {"roof:height", "4"}, {"roof:direction", "90"}},
    {{"building", "yes"}, {"roof:shape", "round"}, {"roof:height", "4"}}, {{"building", "yes"}, {"building:shape", "cylinder"}, {"height", "15"}},
    {{"building", "yes"}, {"building:shape", "sphere"}, {"height", "15"}, {"min_height", "3"}}, {{"building:part", "yes"}, {"height", "18"}, {"min_height", "6"}},
    {{"building", "yes"}, {"building:colour", "red"}}, {{"building", "yes"}, {"height", "abc"}}, {{"building", "yes"}, {"roof:colour", "#12"}},
    {{"natural", "wood"}}, {{"natural", "water"}}, {{"natural", "sand"}}, {{"landuse", "grass"}}, {{"landuse", "forest"}}, {{"landuse", "residential"}}, {{"leisure", "park"}},
    {{"waterway", "riverbank"}}, {{"amenity", "parking"}}, {{"leisure", "pitch"}}, {{"barrier", "wall"}}, {{"barrier", "hedge"}}, {{"highway", "pedestrian"}},
    {{"amenity", "school"}, {"name", "Schule"}}, {{"kind", "earth"}}, {{"kind", "building"}}, {{"kind", "water"}}, {{"kind", "park"}}, {{"landuse", "cemetery"}}, {{"man_made", "tower"}, {"height", "40"}}};
  return t;
}
inline const std::vector<Tags> &lineTags() {
  static const std::vector<Tags> t = {
    {{"highway", "residential"}}, {{"highway", "footway"}}, {{"highway", "primary"}, {"lanes", "4"}}, {{"highway", "service"}}, {{"highway", "path"}}, {{"barrier", "fence"}},
    {{"barrier", "wall"}, {"height", "3"}}, {{"barrier", "bollard"}}, {{"natural", "tree_row"}}, {{"waterway", "river"}}, {{"waterway", "stream"}}, {{"railway", "rail"}}, {{"railway", "tram"}},
    {{"barrier", "kerb"}}, {{"natural", "cliff"}}, {{"kind", "highway"}}, {{"kind", "major_road"}}, {{"kind", "river"}}, {{"boundary", "administrative"}}, {{"power", "line"}}};
  return t;
}
inline const std::vector<Tags> &nodeTags() {
  static const std::vector<Tags> t = {{{"natural", "tree"}}, {{"barrier", "bollard"}}, {{"highway", "street_lamp"}}, {{"amenity", "cafe"}, {"name", "Café"}}, {{"place", "city"}, {"name", "Berlin"}},
    {{"shop", "bakery"}}, {{"kind", "city"}, {"name", "x"}}, {{"natural", "peak"}, {"ele", "100"}}, {{"barrier", "gate"}}};
  return t;
}
inline Tags some(vf::Rng &r, const std::vector<Tags> &v) { Tags t = r.pick(v); if (r.chance(0.2)) t.push_back({"name", el::word(r)}); if (r.chance(0.1)) t.push_back({"zz" + std::to_string(r.below(50)), el::word(r)}); return t; }

inline M feature(vf::Rng &r, const BoundingBox &b, std::uint64_t id, const Opt &o = Opt()) {
  M m; m.id = id;
  switch (r.below(8)) {
    case 0: m.kind = el::NODE; m.pts = {pick(r, b, r.chance(o.outside) ? 0.05 : -0.02)}; m.tags = some(r, nodeTags()); break;
    case 1: case 2: m.kind = el::WAY; m.pts = line(r, b, o, r.pick(std::vector<double>{0.1, 0.5, 2})); m.tags = some(r, lineTags()); break;
    case 3: {
      m.kind = el::RELATION; m.tags = some(r, areaTags());
      P c = pick(r, b, 0); double rad = (b.maxPoint.latitude - b.minPoint.latitude) * r.pick(std::vector<double>{0.05, 0.2, 0.8});
      M a; a.kind = el::AREA; a.id = 0; a.pts = star(r, c, rad, 6 + r.below(8), 0.15); m.kids.push_back(a);
      size_t holes = r.below(4); double ph = r.real(0, 6.28);
      for (size_t i = 0; i < holes; ++i) { M h; h.kind = el::AREA; h.id = 0; h.pts = star(r, {c.first + 0.27 * rad * std::sin(ph + i * 2.094), c.second + 0.27 * rad * std::cos(ph + i * 2.094)}, rad * 0.12, 5 + r.below(4), 0.15); std::reverse(h.pts.begin(), h.pts.end()); m.kids.push_back(h); }
      m.tags.push_back({"type", "multipolygon"}); break; }
    default: m.kind = el::AREA; m.pts = ring(r, b, o, r.pick(std::vector<double>{0.03, 0.1, 0.5, 1.5})); m.tags = some(r, areaTags());
  }
  return m;
}

// ---- own stylesheet: every builder, most parameters taken from tags of the element ----
inline std::string customSheet(vf::Rng &r, int lo, int hi) {
  std::string z = "|z" + std::to_string(lo) + "-" + std::to_string(hi);
  auto pc = [&](double a, double b) { char t[32]; snprintf(t, sizeof t, "%.2f%%", r.real(a, b)); return std::string(t); };
  auto grad = [&] { static const std::vector<std::string> g = {"red", "#f1eee8", "gradient(#ff0000, #00ff00 50%, #0000ff)", "gradient(#000000, #ffffff)", "gradient(#0fffa6, #0cc775 20%, #066139 80%, #ffffff)", "yellow"}; return r.pick(g); };
  auto tex = [&](const std::string &p) {
    static const std::vector<std::string> ty = {"background", "facade", "grass", "water", "tree", "roof"};
    return p + "texture-index: " + std::to_string(r.below(2)) + ";" + p + "texture-type: " + r.pick(ty) + ";" + p + "texture-scale: " + std::to_string(1 + r.below(200)) + ";";
  };
  auto layer = [&](const std::string &p, int order) {
    std::string s = p + "sort-order: " + std::to_string(order) + ";" + p + "max-area: " + pc(0.3, 3) + ";" + p + "color: " + grad() + ";" + p + "color-noise-freq: " + std::to_string(r.below(3) * 0.1) + ";" + p + "ele-noise-freq: " + std::to_string(r.below(2) * 0.05) + ";" + tex(p);
    if (r.chance(0.5)) s += p + "mesh-name: m_" + p.substr(0, p.size() - 1) + ";";
    if (r.chance(0.5)) s += p + "height-offset: " + std::to_string((int) r.range(-3, 3)) + "m;";
    if (r.chance(0.3)) s += p + "mesh-extras: forest;" + p + "tree-frequency: 2; tree-frequency: 3; tree-chunk-size: 3; lsys: tree; lsys-size: 1m; lsys-colors: brown,green; lsys-texture-indices: 0,1; lsys-texture-types: background,tree; lsys-texture-scales: 10,20;";
    return s;
  };
  std::string s = "@lsystem url(\"tree.lsys\");\n@lsystem url(\"lamp.lsys\");\n@texture url(\"single.txt\");\n@texture url(\"atlas.txt\");\n";
  s += "canvas" + z + " { grid-cell-size: " + pc(3, 20) + "; max-area: " + pc(0.3, 4) + "; color: " + grad() + "; color-noise-freq: 0.1; ele-noise-freq: " + std::to_string(r.below(2) * 0.05) + ";" + tex("") +
    layer("water-", 5) + "\n" + layer("road-", (int) r.range(1, 9)) + "\n" + layer("grass-", 2) + "}\n";
  s += "relation" + z + "[type=multipolygon] { multipolygon: true; }\nrelation" + z + "[type=building] { building: true; builder: building; clip: false; }\n";
  for (auto l : {"water", "road", "grass"}) s += std::string("area") + z + "[l=" + l + "],relation" + z + "[l=" + l + "],way" + z + "[l=" + l + "] { clip: true; builder: terrain; terrain-layer: " + l + "; width: " + (r.chance(0.5) ? pc(0.5, 4) : "3m") + "; }\n";
  s += "area" + z + "[l=park],relation" + z + "[l=park],way" + z + "[l=park] { clip: true; builder: terrain; width: 2m; max-area: " + pc(0.3, 4) + "; color: " + grad() + ";" + tex("") + (r.chance(0.5) ? "mesh-name: park;" : "") + (r.chance(0.5) ? "height-offset: 2m;" : "") +
    (r.chance(0.5) ? "mesh-extras: forest; tree-frequency: 4; tree-chunk-size: 2; lsys: tree; lsys-size: 1m; lsys-colors: brown,green; lsys-texture-indices: 0,1; lsys-texture-types: background,tree; lsys-texture-scales: 10,20;" : "") + "}\n";
  s += "area" + z + "[b],relation" + z + "[b] { clip: " + (r.chance(0.2) ? "true" : "false") + "; building: true; builder: building" + (r.chance(0.2) ? ",place" : "") + "; height: eval(\"tag('h')\"); min-height: eval(\"tag('mh')\"); roof-type: eval(\"tag('rt')\"); roof-height: eval(\"tag('rh')\"); roof-direction: eval(\"tag('rd')\"); facade-type: eval(\"tag('ft')\"); roof-color: " + grad() + "; facade-color: " + grad() + ";" + tex("roof-") + tex("facade-") + "}\n";
  s += "node" + z + "[w],way" + z + "[w],area" + z + "[w] { clip: true; builder: barrier; color: " + grad() + "; height: eval(\"tag('h')\"); width: 0.2m; length: " + std::to_string(1 + r.below(9)) + "m; gap: " + std::to_string(r.below(3)) + "m; radius: 0.4m; step: " + std::to_string(3 + r.below(30)) + "m; type: eval(\"tag('w')\");" + tex("") + "}\n";
  s += "node" + z + "[t],way" + z + "[t] { builder: tree; tree-step: " + std::to_string(5 + r.below(60)) + "m; lsys: tree; lsys-size: 1m; lsys-colors: brown,green; lsys-texture-indices: 0,1; lsys-texture-types: background,tree; lsys-texture-scales: 200,50; }\n";
  s += "node" + z + "[lamp],way" + z + "[lamp] { clip: true; builder: lamp; lamp-step: " + std::to_string(5 + r.below(60)) + "m; width: " + (r.chance(0.5) ? "0m" : "1m") + "; lsys: lamp; lsys-size: 1m; lsys-colors: gray,yellow; lsys-texture-indices: 0,1; lsys-texture-types: background,background; lsys-texture-scales: 200,50; }\n";
  s += "node" + z + "[p],way" + z + "[p],area" + z + "[p],relation" + z + "[p] { builder: place; material: info; clip: true; text: eval(\"tag('p')\"); }\n";
  s += "node" + z + "[skip],way" + z + "[skip],area" + z + "[skip],relation" + z + "[skip] { skip: true; }\n";
  return s;
}
inline void writeStyleDir(const std::string &dir, const std::string &sheet) {
  static const std::string from = "/repo/unity/demo/Assets/StreamingAssets/mapcss/default/";
  vf::mkdirs(dir);
  vf::spit(dir + "/index.mapcss", sheet);
  for (auto f : {"tree.lsys", "lamp.lsys", "single.txt", "atlas.txt"}) vf::spit(dir + "/" + f, vf::slurp(from + f));
}
inline Tags customTags(vf::Rng &r, el::Kind k) {
  auto num = [&](int a, int b) { return std::to_string(r.range(a, b)); };
  static const std::vector<std::string> rt = {"none", "flat", "dome", "pyramidal", "mansard", "skillion", "round"}, ft = {"flat", "flat", "flat", "cylinder", "sphere"}, rd = {"N", "SSE", "90", "across", "along", "200"};
  static const std::vector<std::string> lay = {"water", "road", "grass", "park"};
  Tags t;
  auto building = [&] { int h = (int) r.range(4, 40); t = {{"b", "yes"}, {"h", std::to_string(h)}, {"mh", r.chance(0.7) ? "0" : num(1, h)}, {"rt", r.pick(rt)}, {"rh", num(0, 8)}, {"rd", r.pick(rd)}, {"ft", r.pick(ft)}}; };
  if (k == el::NODE) switch (r.below(4)) { case 0: t = {{"w", "pillar"}, {"h", num(1, 3)}}; break; case 1: t = {{"t", "1"}}; break; case 2: t = {{"lamp", "1"}}; break; default: t = {{"p", el::word(r)}}; }
  else if (k == el::WAY) switch (r.below(6)) { case 0: t = {{"w", r.chance(0.5) ? "pillar" : "wall"}, {"h", num(1, 3)}}; break; case 1: t = {{"t", "1"}}; break; case 2: t = {{"lamp", "1"}}; break; case 3: t = {{"p", el::word(r)}}; break; default: t = {{"l", r.pick(lay)}}; }
  else if (k == el::AREA) switch (r.below(6)) { case 0: t = {{"w", r.chance(0.5) ? "pillar" : "wall"}, {"h", num(1, 3)}}; break; case 1: t = {{"p", el::word(r)}}; break; case 2: case 3: t = {{"l", r.pick(lay)}}; break; default: building(); }
  else { if (r.chance(0.5)) building(); else t = {{"l", r.pick(lay)}}; t.push_back({"type", "multipolygon"}); }
  if (r.chance(0.1) && k != el::RELATION) t.push_back({"p", "also"});
  if (r.chance(0.1)) t.push_back({"name", el::word(r)});
  if (r.chance(0.03)) t.push_back({"skip", "1"});
  return t;
}

// OSM XML of features (relations as multipolygons over member ways)
inline std::string tagText(const Tags &t) { std::string s; for (auto &x : t) s += "<tag k=\"" + x.first + "\" v=\"" + x.second + "\"/>"; return s; }
inline std::string toXml(const std::vector<M> &v) {
  std::string nodes, ways, rels; std::uint64_t nid = 1000000, wid = 2000000;
  auto esc = [](const std::string &s) { std::string o; for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '"') o += "&quot;"; else o += c; } return o; };
  auto tg = [&](const Tags &t) { std::string s; for (auto &x : t) s += "<tag k=\"" + esc(x.first) + "\" v=\"" + esc(x.second) + "\"/>"; return s; };
  auto node = [&](std::uint64_t id, P p, const Tags &t) { nodes += "<node id=\"" + std::to_string(id) + "\" lat=\"" + el::num(p.first) + "\" lon=\"" + el::num(p.second) + "\">" + tg(t) + "</node>\n"; };
  auto way = [&](std::uint64_t id, const Coords &pts, bool closed, const Tags &t) {
    std::string s = "<way id=\"" + std::to_string(id) + "\">"; std::uint64_t first = nid;
    for (auto &p : pts) { node(nid, p, {}); s += "<nd ref=\"" + std::to_string(nid++) + "\"/>"; }
    if (closed) s += "<nd ref=\"" + std::to_string(first) + "\"/>";
    ways += s + tg(t) + "</way>\n";
  };
  for (auto &m : v) {
    if (m.kind == el::NODE) node(m.id, m.pts[0], m.tags);
    else if (m.kind != el::RELATION) way(m.id, m.pts, m.kind == el::AREA, m.tags);
    else {
      std::string s = "<relation id=\"" + std::to_string(m.id) + "\">";
      for (size_t i = 0; i < m.kids.size(); ++i) { way(wid, m.kids[i].pts, true, {}); s += "<member type=\"way\" ref=\"" + std::to_string(wid++) + "\" role=\"" + (i ? "inner" : "outer") + "\"/>"; }
      rels += s + tg(m.tags) + "</relation>\n";
    }
  }
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">\n" + nodes + ways + rels + "</osm>\n";
}

// elevation data for one tile and the SRTM cell around it
struct Grid {
  BoundingBox b; size_t n = 0; std::vector<int> h;      // rows from south to north
  double at(double lat, double lon) const {             // plain bilinear interpolation
    double x = (lon - b.minPoint.longitude) / b.width() * (n - 1), y = (lat - b.minPoint.latitude) / b.height() * (n - 1);
    x = std::max(0., std::min(x, n - 1.)); y = std::max(0., std::min(y, n - 1.));
    size_t x0 = std::min<size_t>((size_t) x, n - 2), y0 = std::min<size_t>((size_t) y, n - 2);
    double dx = x - x0, dy = y - y0;
    return h[x0 + y0 * n] * (1 - dx) * (1 - dy) + h[x0 + 1 + y0 * n] * dx * (1 - dy) + h[x0 + (y0 + 1) * n] * (1 - dx) * dy + h[x0 + 1 + (y0 + 1) * n] * dx * dy;
  }
  // what the stored precision of coordinates (1e-7 degree per cell) can make of it
  double tolerance() const {
    int lo = *std::min_element(h.begin(), h.end()), hi = *std::max_element(h.begin(), h.end());
    double cell = std::min(b.width(), b.height()) / (n - 1) * 1e7;
    return 2 * (hi - lo) * (n + 2) / cell + 1e-6;
  }
};
inline Grid gridFile(vf::Rng &r, const std::string &index, const el::QuadKey &q) {
  std::string d = index + "/data/" + std::to_string(q.levelOfDetail); vf::mkdirs(d);
  size_t n = r.range(2, 12); std::string s; double base = r.real(-50, 300);
  for (size_t i = 0; i < n * n; ++i) s += (i ? " " : "") + std::to_string((int) (base + r.real(0, 60)));
  vf::spit(d + "/" + utymap::utils::GeoUtils::quadKeyToString(q) + ".ele", s);
  Grid g; g.b = utymap::utils::GeoUtils::quadKeyToBoundingBox(q); g.n = n; std::istringstream is(s); int v; while (is >> v) g.h.push_back(v);
  return g;
}

struct World {
  bool custom = false; int lod = 16; el::QuadKey q; BoundingBox b; std::string style; std::vector<M> feats; std::string desc; std::vector<std::uint64_t> joined;   // ways whose tags are given by a relation of them
  bool hasRelations() const { for (auto &m : feats) if (m.kind == el::RELATION) return true; return false; }
};
inline World world(vf::Rng &r, const std::string &dir, size_t maxFeats, bool custom, const Opt &o = Opt()) {
  World w; w.custom = custom;
  w.lod = r.chance(0.7) ? 16 : (int) r.range(custom ? 8 : 1, custom ? 19 : 15);
  double lat = r.chance(0.3) ? 52.52 : r.real(-75, 75), lon = r.chance(0.2) ? 13.4 : r.real(-170, 170);
  w.q = utymap::utils::GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(lat, lon), w.lod);
  w.b = utymap::utils::GeoUtils::quadKeyToBoundingBox(w.q);
  if (custom) { writeStyleDir(dir + "/style", customSheet(r, 1, 19)); w.style = dir + "/style/index.mapcss"; }
  else w.style = "/repo/unity/demo/Assets/StreamingAssets/mapcss/default/index.mapcss";
  size_t n = r.below(maxFeats + 1);
  w.desc = el::qk(w.q) + (custom ? " custom\n" : " default\n");
  for (size_t i = 0; i < n; ++i) {
    M m = feature(r, w.b, 100 + i, o);
    if (custom) { m.tags = customTags(r, m.kind); }
    w.feats.push_back(m); w.desc += el::dump(m) + "\n";
  }
  return w;
}
}
#endif
