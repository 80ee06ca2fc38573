// C10: shapefile import against the records written to the file.
#include "engine.hpp"
#include "shp.hpp"
#include "formats/shape/ShapeParser.hpp"
#include "formats/shape/ShapeDataVisitor.hpp"
using namespace el;
using namespace shp;
namespace {
using utymap::formats::ShapeDataVisitor;
typedef std::pair<double, double> P;
std::string pt(const P &p) { return "(" + num(p.first) + "," + num(p.second) + ")"; }
std::string cat(const Coords &v) { std::string s; for (auto &p : v) s += pt(p); return s; }
Coords open(Coords v) { if (v.size() > 1 && v.front() == v.back()) v.pop_back(); return v; }
// ring up to the choice of its first vertex
std::string ringKey(const Coords &v) {
  std::string best; P m = *std::min_element(v.begin(), v.end());
  for (size_t i = 0; i < v.size(); ++i) if (v[i] == m) { Coords x(v.begin() + i, v.end()); x.insert(x.end(), v.begin(), v.begin() + i); std::string s = cat(x); if (best.empty() || s < best) best = s; }
  return best;
}
double area2(const Coords &v) { double a = 0; for (size_t i = 0; i < v.size(); ++i) { auto &p = v[i], &q = v[(i + 1) % v.size()]; a += (p.second - v[0].second) * (q.first - v[0].first) - (q.second - v[0].second) * (p.first - v[0].first); } return a; }
bool numeric(const Column &c) { return c.type == 'N' || c.type == 'F'; }

// counter clockwise as seen on the map
Coords circle(vf::Rng &r, P c, double rad, size_t n) { return scene::star(r, c, rad, n, 0.2); }
Coords closedRing(Coords v, bool clockwise) { if ((area2(v) < 0) != clockwise) std::reverse(v.begin(), v.end()); v.push_back(v[0]); return v; }

Record record(vf::Rng &r, int type, const BoundingBox &b, bool big) {
  Record k; k.type = type; int base = type % 10; double h = b.maxPoint.latitude - b.minPoint.latitude;
  auto at = [&] { return scene::pick(r, b, -0.05); };
  if (r.chance(0.05)) { k.type = NUL; return k; }
  if (base == POINT) { k.parts.push_back({at()}); return k; }
  if (base == MULTIPOINT) { Coords v; for (size_t i = 0, n = 1 + r.below(5); i < n; ++i) v.push_back(at()); k.parts.push_back(v); return k; }
  if (base == ARC) {
    size_t parts = r.chance(0.6) ? 1 : 2 + r.below(big ? 60 : 5);
    for (size_t i = 0; i < parts; ++i) {
      Coords v; size_t n = 2 + (r.chance(0.5) ? r.below(4) : r.below(big ? 3000 : 40)); for (size_t j = 0; j < n; ++j) v.push_back(at());
      if (r.chance(0.25)) v = closedRing(circle(r, at(), h * 0.1, 3 + r.below(9)), r.chance(0.5));
      k.parts.push_back(v);
    }
    return k;
  }
  size_t outers = r.chance(0.6) ? 1 : 1 + r.below(big ? 30 : 4);
  for (size_t i = 0; i < outers; ++i) {
    P c = at(); double rad = h * r.real(0.02, 0.3);
    size_t n = 8 + (r.chance(0.5) ? r.below(6) : r.below(big ? 2000 : 30)); std::vector<Coords> rings{closedRing(circle(r, c, rad, n), true)};
    size_t holes = r.chance(0.5) ? 0 : r.below(4); double ph = r.real(0, 6.28);
    for (size_t j = 0; j < holes; ++j) rings.push_back(closedRing(circle(r, {c.first + 0.4 * rad * std::sin(ph + j * 2.094), c.second + 0.4 * rad * std::cos(ph + j * 2.094)}, rad * 0.12, 4 + r.below(5)), false));
    if (r.chance(0.2)) r.shuffle(rings);
    for (auto &x : rings) k.parts.push_back(x);
  }
  return k;
}
File file(vf::Rng &r, const BoundingBox &b, bool supportedOnly = true) {
  static const std::vector<int> types = {1, 11, 21, 3, 13, 23, 5, 15, 25};
  File f; f.type = r.pick(types); if (!supportedOnly && r.chance(0.1)) f.type = 8 + 10 * (int) r.below(3);
  f.columns = columns(r); bool big = r.chance(0.15);
  size_t n = r.chance(0.1) ? 0 : 1 + r.below(big ? 200 : 12);
  for (size_t i = 0; i < n; ++i) { Record k = record(r, f.type, b, big && r.chance(0.1)); for (auto &c : f.columns) k.values.push_back(value(r, c)); f.records.push_back(k); }
  return f;
}
BoundingBox box(vf::Rng &r) { double la = r.real(-80, 75), lo = r.real(-179, 170), d = r.pick(std::vector<double>{0.001, 0.1, 4}); return BoundingBox(utymap::GeoCoordinate(la, lo), utymap::GeoCoordinate(la + d, lo + d)); }

struct Import { std::vector<M> got; std::string error; };
Import import(const std::string &path, ST &st) {
  Import x; utymap::CancellationToken token;
  ShapeDataVisitor v(st, [&](ent::Element &e) { x.got.push_back(toModel(e, st)); return true; }, token);
  utymap::formats::ShapeParser<ShapeDataVisitor> p;
  try { p.parse(path, v); v.complete(); } catch (const std::exception &e) { x.error = e.what(); if (x.error.empty()) x.error = "?"; }
  return x;
}
// what is wrong with the tags; empty when they carry the row
std::string tagsProblem(const Tags &got, const File &f, const Record &k) {
  std::map<std::string, std::string> m; for (auto &t : got) { if (m.count(t.first)) return "twice:" + t.first; m[t.first] = t.second; }
  for (size_t i = 0; i < f.columns.size(); ++i) {
    auto &c = f.columns[i]; auto &v = k.values[i]; auto it = m.find(c.name);
    if (v.empty()) { if (it != m.end() && !it->second.empty()) return std::string("null:") + c.type + " " + c.name + " is null but delivered as " + it->second; m.erase(c.name); continue; }
    if (it == m.end()) return std::string("missing:") + c.type + " " + c.name + "=" + v;
    bool same = it->second == v;
    if (!same && numeric(c)) { char *e = nullptr; double d = strtod(it->second.c_str(), &e); same = !it->second.empty() && !*e && d == strtod(v.c_str(), nullptr); }
    if (!same) return std::string("value:") + c.type + " " + c.name + "(" + std::to_string(c.width) + "," + std::to_string(c.decimals) + ")=" + v + " delivered as " + it->second;
    m.erase(it);
  }
  if (!m.empty()) return "extra:" + m.begin()->first;
  return "";
}
std::string partProblem(const Coords &part, bool polygon, const M &m) {
  bool ring = part.size() > 3 && part.front() == part.back();
  if (polygon || ring) {
    if (m.kind != AREA) return std::string("ring-delivered-as-") + kindName(m.kind);
    Coords w = open(part), g = m.pts; 
    if (g.size() > w.size() && g.front() == g.back()) g.pop_back();
    Coords wr(w.rbegin(), w.rend());
    std::string a = ringKey(w), bk = ringKey(wr), x = g.empty() ? "" : ringKey(g);
    if (x != a && x != bk) return "ring-coordinates " + cat(w).substr(0, 300) + " / " + cat(g).substr(0, 300);
    // written clockwise: outer, delivered counter clockwise
    if (polygon && (area2(open(part)) < 0) != (area2(g) > 0)) return "ring-side " + cat(w).substr(0, 300);
    if (m.pts.size() > g.size()) return "ring-closing-point " + cat(m.pts).substr(0, 300);
    return "";
  }
  if (m.kind != WAY) return std::string("line-delivered-as-") + kindName(m.kind);
  if (m.pts != part) return "line-coordinates " + cat(part).substr(0, 300) + " / " + cat(m.pts).substr(0, 300);
  return "";
}
std::string problem(const File &f, const Record &k, const M &m) {
  std::string t = tagsProblem(m.tags, f, k); if (!t.empty()) return "tags:" + t;
  int base = k.type % 10;
  if (base == POINT) { if (m.kind != NODE) return "point-kind"; if (m.pts[0] != k.parts[0][0]) return "point-coordinates " + pt(k.parts[0][0]) + " / " + pt(m.pts[0]); return ""; }
  if (base == ARC && k.parts.size() == 1) {
    std::string s = partProblem(k.parts[0], false, m); if (!s.empty()) return s;
    if (m.kind == AREA && area2(m.pts) < 0 && area2(m.pts) < -1e-12) return "closed-line-clockwise";
    return "";
  }
  std::vector<M> kids = m.kids; if (m.kind != RELATION) kids = {m};
  if (kids.size() != k.parts.size()) return "parts " + std::to_string(k.parts.size()) + " / " + std::to_string(kids.size());
  for (size_t i = 0; i < kids.size(); ++i) { if (m.kind == RELATION && !kids[i].tags.empty()) return "part-tags"; std::string s = partProblem(k.parts[i], base == POLYGON, kids[i]); if (!s.empty()) return "part-" + s; }
  return "";
}
std::string show(const File &f) {
  std::string s = "type " + std::to_string(f.type) + ", " + std::to_string(f.records.size()) + " records, columns"; for (auto &c : f.columns) s += " " + c.name + ":" + c.type + std::to_string(c.width) + "." + std::to_string(c.decimals);
  s += "\n"; for (size_t i = 0; i < f.records.size() && i < 12; ++i) { auto &k = f.records[i]; s += "  #" + std::to_string(i) + " type " + std::to_string(k.type) + " parts"; for (auto &p : k.parts) s += " " + std::to_string(p.size()); s += " values"; for (auto &v : k.values) s += " [" + v + "]"; s += "\n"; }
  return s.substr(0, 2500);
}
std::string word1(const std::string &s) { return s.substr(0, s.find(' ')); }

void records(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c); ST st(dir + "/"); File f = file(r, box(r)); Bytes b = write(f, r, r.chance(0.2)); save(b, dir + "/f");
  Import x = import(dir + "/f.shp", st);
  if (!x.error.empty()) { c.violation("import-fails", x.error + "\n" + show(f)); return; }
  std::vector<const Record *> want; for (auto &k : f.records) if (k.type != NUL) want.push_back(&k);
  c.count("files:" + std::to_string(f.type)); c.count("elements", x.got.size()); std::string all;
  if (!c.check(want.size() == x.got.size(), "element-count", std::to_string(want.size()) + " records with geometry, " + std::to_string(x.got.size()) + " elements delivered\n" + show(f))) return;
  for (size_t i = 0; i < want.size(); ++i) {
    std::string p = problem(f, *want[i], x.got[i]);
    if (!p.empty()) { auto q = p.find(' '); c.violation(p.substr(0, q).substr(0, 60), "record " + std::to_string(i) + ": " + p + "\ndelivered " + dump(x.got[i]).substr(0, 1500) + "\n" + show(f)); break; }
    size_t rings = 0; for (auto &t : want[i]->parts) rings += t.size() > 3 && t.front() == t.back();
    c.count("parts", want[i]->parts.size()); if (want[i]->parts.size() > 1) c.count("multipart"); if (rings) c.count("rings", rings);
    for (size_t j = 0; j < f.columns.size(); ++j) c.count(std::string("column:") + f.columns[j].type + (want[i]->values[j].empty() ? ":null" : ""));
    all += dump(x.got[i]);
  }
  if (!all.empty()) c.distinct(all);
  c.sample(show(f));
}

// the same records in another order, alone or among others, and with other neighbours in the file are delivered alike
void independence(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c); ST st(dir + "/"); File f = file(r, box(r)); while (f.records.size() < 2) f = file(r, box(r));
  if (f.records.size() > 60) f.records.resize(60);
  save(write(f, r), dir + "/a"); Import a = import(dir + "/a.shp", st);
  std::vector<size_t> ix; for (size_t i = 0; i < f.records.size(); ++i) ix.push_back(i);
  r.shuffle(ix); if (r.chance(0.5)) ix.resize(1 + r.below(ix.size()));
  File g = f; g.records.clear(); for (auto i : ix) g.records.push_back(f.records[i]);
  save(write(g, r, r.chance(0.5)), dir + "/b"); Import b = import(dir + "/b.shp", st);
  if (!a.error.empty() || !b.error.empty()) { c.violation("import-fails", a.error + b.error + show(f)); return; }
  std::vector<size_t> pos(f.records.size(), 0); size_t n = 0; for (size_t i = 0; i < f.records.size(); ++i) if (f.records[i].type != NUL) pos[i] = n++;
  std::vector<std::string> w, got = dumps(b.got); for (auto i : ix) if (f.records[i].type != NUL && pos[i] < a.got.size()) w.push_back(dump(a.got[pos[i]]));
  c.count("reordered_files"); c.count("compared", w.size()); for (auto &s : w) c.distinct(s);
  c.check(w == got, "depends-on-neighbours", diff(w, got) + show(f));
}

// files which are cut or do not belong together: an import which reports success has delivered everything
void incomplete(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c); ST st(dir + "/"); File f = file(r, box(r)); while (f.records.empty()) f = file(r, box(r));
  Bytes b = write(f, r); std::string what; bool must = true;
  switch (r.below(7)) {
    case 0: what = "cut shp"; b.shp.resize(100 + r.below(b.shp.size() - 100)); break;
    case 1: what = "cut shx"; b.shx.resize(100 + r.below(b.shx.size() - 100)); break;
    case 2: { what = "cut dbf"; int len = 0; for (auto &k : f.columns) len += k.width; ++len; size_t end = 33 + 32 * f.columns.size() + (size_t) len * f.records.size(); b.dbf.resize(r.below(end)); break; }
    case 3: { what = "dbf of other length"; File g = f; if (r.chance(0.5) && g.records.size() > 1) g.records.pop_back(); else g.records.push_back(g.records[0]); b.dbf = write(g, r).dbf; break; }
    case 4: what = "no dbf"; b.dbf = ""; break;
    case 5: what = "no shx"; b.shx = ""; break;
    default: what = "no shp"; b.shp = "";
  }
  save(b, dir + "/f");
  if (b.dbf.empty()) unlink((dir + "/f.dbf").c_str()); if (b.shx.empty()) unlink((dir + "/f.shx").c_str()); if (b.shp.empty()) unlink((dir + "/f.shp").c_str());
  Import x = import(dir + "/f.shp", st); c.count("incomplete:" + what); c.distinct(b.shp + b.shx + b.dbf);
  bool all = true; std::vector<const Record *> want; for (auto &k : f.records) if (k.type != NUL) want.push_back(&k);
  if (x.error.empty()) { all = want.size() == x.got.size(); for (size_t i = 0; all && i < want.size(); ++i) all = problem(f, *want[i], x.got[i]).empty(); c.check(all, "incomplete-accepted:" + what, what + ": the import reports success\n" + show(f)); }
  else { c.count("incomplete_reported"); c.check(x.got.empty(), "incomplete-delivered:" + what, what + ": " + x.error + " after " + std::to_string(x.got.size()) + " elements\n" + show(f)); }
}

// through the C API: what is imported is found in the tiles
void tiles(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  QuadKey q = GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(r.real(-70, 70), r.real(-170, 170)), 14); BoundingBox b = GeoUtils::quadKeyToBoundingBox(q);
  File f = file(r, b); f.columns.push_back({"mark", 'C', 12, 0}); if (f.records.size() > 40) f.records.resize(40);
  size_t n = 0; for (auto &k : f.records) { k.values.resize(f.columns.size()); k.values.back() = "m" + std::to_string(n++); }
  // the tile is drawn without clipping and lines keep their points
  vf::spit(dir + "/s.mapcss", "node|z14-16[mark],way|z14-16[mark],area|z14-16[mark],relation|z14-16[mark] { clip: false; builder: x; }\n");
  save(write(f, r), dir + "/f");
  api::Engine e(dir); e.style(dir + "/s.mapcss"); bool disk = r.chance(0.4); if (disk) e.persistent("k"); else e.memory("k");
  api::Result a; if (r.chance(0.5)) api::addFile(a, "k", dir + "/s.mapcss", dir + "/f.shp", q); else if (r.chance(0.5)) api::addFile(a, "k", dir + "/s.mapcss", dir + "/f.shp", 14, 14); else api::addFile(a, "k", dir + "/s.mapcss", dir + "/f.shp", b, 14, 14);
  if (!a.errors.empty()) { c.violation("api:import-fails", join(a.errors) + show(f)); return; }
  if (disk && r.chance(0.5)) { e.close(); e.open(); e.style(dir + "/s.mapcss"); e.persistent("k"); }
  api::Result x; api::load(x, dir + "/s.mapcss", q); if (!x.errors.empty()) { c.violation("api:load-fails", join(x.errors) + show(f)); return; }
  std::vector<std::string> want, got;
  auto text = [&](const Coords &p, const std::string &mark) { return mark + cat(p); };
  for (auto &k : f.records) { if (k.type == NUL || k.type % 10 == POLYGON || k.parts.size() > 1) continue; auto &p = k.parts[0]; if (p.size() > 3 && p.front() == p.back()) continue; want.push_back(text(p, k.values.back())); }
  for (auto &el : x.elems) { std::string mark; for (size_t i = 0; i + 1 < el.tags.size(); i += 2) if (el.tags[i] == "mark") mark = el.tags[i + 1]; if (mark.empty()) continue; size_t at = atoi(mark.c_str() + 1); if (at >= f.records.size()) { got.push_back("unknown " + mark); continue; }
    auto &k = f.records[at]; auto &p0 = k.parts[0]; if (k.type % 10 == POLYGON || k.parts.size() > 1 || (p0.size() > 3 && p0.front() == p0.back())) continue;
    Coords p; for (size_t i = 0; i + 2 < el.v.size(); i += 3) p.push_back({el.v[i + 1], el.v[i]}); got.push_back(text(p, mark)); }
  c.count("api_imports"); c.count("api_elements", want.size()); for (auto &s : want) c.distinct(s);
  std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); std::string d = want == got ? "" : diff(want, got); c.check(d.empty(), std::string("api:elements:") + (disk ? "disk" : "memory"), d.substr(0, 3000) + show(f));
}
}
int main(int argc, char **argv) { return vf::main(argc, argv, {{"records", 2500, 60000, records}, {"independence", 600, 12000, independence}, {"incomplete", 1200, 20000, incomplete}, {"tiles", 300, 5000, tiles}}); }
