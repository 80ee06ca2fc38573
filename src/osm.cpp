// C08, C09: OSM import (XML, PBF, GeoJSON-like) against the data model of the extract.
#include "osm.hpp"
#include "formats/osm/OsmDataVisitor.hpp"
#include "formats/osm/json/OsmJsonParser.hpp"
#include "formats/osm/pbf/OsmPbfParser.hpp"
#include "formats/osm/xml/OsmXmlParser.hpp"
using namespace el;
using namespace osm;
using utymap::formats::OsmDataVisitor;
using utymap::formats::OsmXmlParser;
using utymap::formats::OsmPbfParser;
using utymap::formats::OsmJsonParser;
using osm::R; using el::Tags;
namespace {

std::string pt(double lat, double lon) { return "(" + fix7(std::llround(lat * 1e7)) + "," + fix7(std::llround(lon * 1e7)) + ")"; }
typedef std::vector<std::string> Ring;
Ring ptsOf(const M &m) { Ring r; for (auto &p : m.pts) r.push_back(pt(p.first, p.second)); return r; }
Ring rotated(const Ring &r) {
  if (r.empty()) return r;
  Ring best;
  for (size_t i = 0; i < r.size(); ++i) if (r[i] == *std::min_element(r.begin(), r.end())) {
    Ring x(r.begin() + i, r.end()); x.insert(x.end(), r.begin(), r.begin() + i);
    if (best.empty() || x < best) best = x;
  }
  return best;
}
std::string cat(const Ring &r) { std::string s; for (auto &x : r) s += x; return s; }
std::string ringKey(const Ring &r) { Ring b(r.rbegin(), r.rend()); return std::min(cat(rotated(r)), cat(rotated(b))); }
double area2(const std::vector<std::pair<double, double>> &p) {
  double a = 0; size_t n = p.size();
  for (size_t i = 0; i < n; ++i) { auto &u = p[(i + n - 1) % n], &v = p[i]; a += (u.second - p[0].second) * (v.first - p[0].first) - (v.second - p[0].second) * (u.first - p[0].first); }
  return a;
}
std::string tagsKey(const Tags &t) {
  std::multiset<std::string> s; bool part = false;
  for (auto &x : t) { if (x.first == "!part") { part = true; continue; } s.insert(x.first + "=" + x.second + ";"); }
  std::string r = part ? "!part;" : "";
  for (auto &x : s) r += x;
  return r;
}
// canonical text; areas up to the choice of the first vertex, but with their orientation
std::string canon(const M &m, bool anyDir = false, bool kidIds = true) {
  std::string s = std::string(kindName(m.kind)) + "#" + std::to_string(m.id) + "{" + tagsKey(m.tags) + "}";
  if (m.kind == RELATION) { s += "["; for (auto &k : m.kids) s += canon(k, anyDir) + ","; return s + "]"; }
  Ring r = ptsOf(m);
  if (m.kind == AREA) {
    if (anyDir) return s + ringKey(r);
    return s + cat(rotated(r));
  }
  if (anyDir && m.kind == WAY) { Ring b(r.rbegin(), r.rend()); return s + std::min(cat(r), cat(b)); }
  return s + cat(r);
}
typedef std::pair<int, std::uint64_t> Key;   // 0 node 1 way/area 2 relation
Key keyOf(const M &m) { return {m.kind == NODE ? 0 : m.kind == RELATION ? 2 : 1, m.id}; }

struct Import {
  std::vector<M> got; std::string error; bool unsorted = false;
};
template<class P> Import import(const std::string &bytes, ST &st, P &parser, bool complete = true) {
  Import r;
  utymap::CancellationToken token;
  std::function<void(const ent::Element &)> sorted = [&](const ent::Element &e) {
    for (size_t i = 1; i < e.tags.size(); ++i) if (e.tags[i].key < e.tags[i - 1].key) r.unsorted = true;
  };
  OsmDataVisitor v(st, [&](ent::Element &e) { sorted(e); r.got.push_back(toModel(e, st)); return true; }, token);
  try {
    std::istringstream in(bytes, std::ios::binary);
    parser.parse(in, v);
    if (complete) v.complete();
  } catch (const std::exception &e) { r.error = std::string("error: ") + e.what(); r.error = r.error.substr(0, 400); }
  return r;
}
Import importXml(const std::string &b, ST &st) { OsmXmlParser<OsmDataVisitor> p; return import(b, st, p); }
Import importPbf(const std::string &b, ST &st) { static OsmPbfParser<OsmDataVisitor> p; return import(b, st, p); }
Import importJson(const std::string &b, ST &st) { OsmJsonParser<OsmDataVisitor> p(st); return import(b, st, p, false); }

std::string value(vf::Rng &r) {
  static const std::vector<std::string> odd = {"A & B", "<none>", "say \"hi\"", "O'Neil", " leading", "a=b", "x;y", "Straße 17. Juni", "日本", "", "&amp;", "1 > 0", "https://a.b/?x=1&y=2", "50%", "#fff"};
  if (r.chance(0.15)) return r.pick(odd);
  return r.chance(0.2) ? word(r) + " " + word(r) : word(r);
}
Tags otags(vf::Rng &r, size_t max) {
  Tags t = tags(r, max);
  for (auto &x : t) { if (r.chance(0.5)) x.second = value(r); if (x.first == "type") x.first = "type2"; if (r.chance(0.03)) x.first += "&<x>"; }
  std::set<std::string> seen; Tags u;
  for (auto &x : t) if (seen.insert(x.first).second) u.push_back(x);
  return u;
}

// expected elements of primitives without relation semantics
struct Expect {
  std::map<Key, M> el;             // every primitive present
  std::set<Key> optional;          // may be delivered or not (untagged)
};
M nodeM(const N &n) { M m; m.kind = NODE; m.id = n.id; m.tags = n.tags; m.pts = {{n.lat / 1e7, n.lon / 1e7}}; return m; }
bool wayM(const W &w, const std::map<std::uint64_t, const N *> &nodes, M &m) {
  m.id = w.id; m.tags = w.tags;
  std::vector<std::uint64_t> have;
  for (auto x : w.refs) if (nodes.count(x)) have.push_back(x);
  for (auto x : have) { auto *n = nodes.at(x); m.pts.push_back({n->lat / 1e7, n->lon / 1e7}); }
  m.kind = WAY;
  if (have.size() > 3 && have.front() == have.back()) {
    m.kind = AREA; m.pts.pop_back();
    if (area2(m.pts) < 0) std::reverse(m.pts.begin(), m.pts.end());
  }
  return !m.pts.empty();
}

struct World {
  Data d; std::set<std::pair<std::int64_t, std::int64_t>> used; std::uint64_t nid = 1, wid = 1, rid = 1;
  std::uint64_t node(vf::Rng &r, std::int64_t lat, std::int64_t lon, double tagged = 0.1) {
    while (!used.insert({lat, lon}).second) { lat += 7; }
    nid += 1 + r.below(r.chance(0.02) ? 5000000000ull : 3);
    d.nodes.push_back({nid, lat, lon, r.chance(tagged) ? otags(r, 4) : Tags()});
    return nid;
  }
  std::uint64_t way(vf::Rng &r, const std::vector<std::uint64_t> &refs, const Tags &t) { wid += 1 + r.below(3); d.ways.push_back({wid, refs, t}); return wid; }
};

void report(vf::Ctx &c, const char *fmt, const std::string &key, const std::string &detail, const std::string &bytes) {
  c.violation(std::string(fmt) + "/" + key, detail + "\n--- input (" + std::to_string(bytes.size()) + " bytes)\n" + bytes.substr(0, 3500));
}

// C08
void compareAll(vf::Ctx &c, const char *fmt, const Import &im, const Expect &ex, const std::string &bytes) {
  if (!im.error.empty()) { report(c, fmt, "import-failed", im.error, bytes); return; }
  if (im.unsorted) report(c, fmt, "tags-unsorted", "tags of a delivered element are not ordered by key id", bytes);
  std::vector<std::string> want, got;
  std::set<Key> seen;
  std::string dup;
  for (auto &m : im.got) { if (!seen.insert(keyOf(m)).second) dup += canon(m) + "\n"; }
  for (auto &e : ex.el) if (!ex.optional.count(e.first) || seen.count(e.first)) want.push_back(canon(e.second));
  for (auto &m : im.got) got.push_back(canon(m));
  c.count(std::string("elements_compared_") + fmt, got.size());
  std::string df = diff(want, got);
  if (!df.empty()) report(c, fmt, dup.empty() ? "wrong-elements" : "delivered-twice", df + (dup.empty() ? "" : "twice:\n" + dup), bytes);
}

void fidelity(vf::Ctx &c) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c); ST st(dir + "/");
  World w;
  std::int64_t la = r.range(-850000000, 850000000), lo = r.range(-1780000000, 1780000000);
  size_t nn = 1 + r.below(r.chance(0.1) ? 400 : 40);
  std::vector<std::uint64_t> nodes;
  for (size_t i = 0; i < nn; ++i) nodes.push_back(w.node(r, la + r.range(-3000000, 3000000), lo + r.range(-3000000, 3000000), 0.3));
  bool missing = r.chance(0.4);
  auto ref = [&]() -> std::uint64_t { return missing && r.chance(0.1) ? 900000000000ull + r.below(100) : r.pick(nodes); };
  size_t nw = r.below(20);
  for (size_t i = 0; i < nw; ++i) {
    std::vector<std::uint64_t> refs; size_t n = 1 + r.below(r.chance(0.05) ? 2100 : 8);
    std::set<std::uint64_t> once;
    for (size_t k = 0; k < n; ++k) { auto x = ref(); if (r.chance(0.9) && !once.insert(x).second) continue; if (refs.empty() || refs.back() != x) refs.push_back(x); }
    bool close = r.chance(0.5) && refs.size() >= 3;
    if (close) refs.push_back(refs.front());
    w.way(r, refs, r.chance(0.85) ? otags(r, 6) : Tags());
  }
  size_t nr = r.below(8);
  static const std::vector<std::string> types = {"route", "site", "associatedStreet", "boundary", "restriction"};
  for (size_t i = 0; i < nr; ++i) {
    R x; x.id = w.rid += 1 + r.below(3); x.tags = otags(r, 5);
    if (r.chance(0.7)) x.tags.push_back({"type", r.pick(types)});
    size_t n = 1 + r.below(8);
    for (size_t k = 0; k < n; ++k) {
      Mem m; m.role = r.chance(0.4) ? "" : value(r);
      int t = (int) r.below(5);
      if (t < 2 || (w.d.ways.empty() && t < 4)) { m.type = 'n'; m.ref = ref(); }
      else if (t < 4) { m.type = 'w'; m.ref = missing && r.chance(0.2) ? 77777777 : r.pick(w.d.ways).id; }
      else { m.type = 'r'; m.ref = w.d.rels.empty() || r.chance(0.2) ? 88888888 : r.pick(w.d.rels).id; }
      x.mem.push_back(m);
    }
    w.d.rels.push_back(x);
  }
  Expect ex;
  std::map<std::uint64_t, const N *> nm; for (auto &n : w.d.nodes) nm[n.id] = &n;
  for (auto &n : w.d.nodes) { ex.el[{0, n.id}] = nodeM(n); if (n.tags.empty()) ex.optional.insert({0, n.id}); }
  for (auto &x : w.d.ways) { M m; if (wayM(x, nm, m)) { ex.el[{1, x.id}] = m; if (x.tags.empty()) ex.optional.insert({1, x.id}); c.count(m.kind == AREA ? "areas" : "ways"); if (m.pts.size() + (m.kind == AREA) != x.refs.size()) c.count("ways_with_missing_nodes"); } }
  for (auto &x : w.d.rels) {      // members refer to earlier relations only
    M m; m.kind = RELATION; m.id = x.id; m.tags = x.tags; std::set<Key> once;
    for (auto &y : x.mem) {
      Key k{y.type == 'n' ? 0 : y.type == 'w' ? 1 : 2, y.ref};
      if (!ex.el.count(k)) { c.count("missing_members"); continue; }
      if (once.insert(k).second) m.kids.push_back(ex.el[k]);
    }
    ex.el[{2, x.id}] = m; if (x.tags.empty()) ex.optional.insert({2, x.id});
    c.count("relations");
  }
  // order of relations in the file must not matter
  if (r.chance(0.5)) r.shuffle(w.d.rels);
  std::string x = xml(w.d, r);
  compareAll(c, "xml", importXml(x, st), ex, x);
  for (int k = 0; k < 2; ++k) {
    PbfOptions o = pbfOptions(r);
    std::string p = pbf(w.d, r, o);
    c.count(o.dense ? "pbf_dense" : "pbf_plain"); c.count(o.compress ? "pbf_zlib" : "pbf_raw");
    compareAll(c, "pbf", importPbf(p, st), ex, "gran " + std::to_string(o.gran) + " offsets " + std::to_string(o.latOff) + " " + std::to_string(o.lonOff) + (o.dense ? " dense" : " plain") + (o.compress ? " zlib" : " raw") + " block " + std::to_string(o.block) + " group " + std::to_string(o.group) + "\n" + x);
  }
  c.distinct(x); c.sample(x);
}

// ---- GeoJSON-like ----
std::string jstr(const std::string &s, vf::Rng &r) {
  std::string o = "\"";
  for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; } else if (ch == '&' && r.chance(0.5)) o += "\\u0026"; else o += (char) ch; }
  return o + "\"";
}
void json(vf::Ctx &c) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c); ST st(dir + "/");
  std::int64_t la = r.range(-850000000, 850000000), lo = r.range(-1780000000, 1780000000);
  auto P = [&] { return std::make_pair((la + r.range(-300000, 300000)) / 1e7, (lo + r.range(-300000, 300000)) / 1e7); };
  auto C = [&](const std::pair<double, double> &p) { return "[" + fix7(std::llround(p.second * 1e7)) + (r.chance(0.5) ? "," : ", ") + fix7(std::llround(p.first * 1e7)) + "]"; };
  auto line = [&](const Coords &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + C(v[i]); return s + "]"; };
  auto poly = [&](bool ccw) { Coords v; std::set<std::pair<double, double>> u; size_t n = 3 + r.below(6); while (v.size() < n) { auto p = P(); if (u.insert(p).second) v.push_back(p); } if ((area2(v) > 0) != ccw) std::reverse(v.begin(), v.end()); return v; };
  auto closed = [&](Coords v) { v.push_back(v.front()); return line(v); };
  std::vector<M> want;
  std::string doc = "{"; size_t layers = 1 + r.below(4);
  static const std::vector<std::string> names = {"water", "buildings", "roads", "pois", "landuse", "earth"};
  for (size_t l = 0; l < layers; ++l) {
    std::string layer = names[(c.idx + l) % names.size()];
    doc += (l ? "," : "") + jstr(layer, r) + ":{\"type\":\"FeatureCollection\",\"features\":[";
    size_t n = r.below(7);
    for (size_t i = 0; i < n; ++i) {
      M m; m.id = r.below(1000000000); Tags t = otags(r, 5); std::string props = "{"; bool first = true;
      m.tags.push_back({"feature", layer});
      bool withId = r.chance(0.9); if (!withId) m.id = 0;
      auto prop = [&](const std::string &k, const std::string &v) { props += (first ? "" : ",") + jstr(k, r) + ": " + v; first = false; };
      bool idFirst = r.chance(0.5);
      std::string idText = (r.chance(0.3) ? "-" : "") + std::to_string(m.id); if (r.chance(0.2)) idText = "\"" + idText + "\"";
      if (withId && idFirst) prop("id", idText);
      for (auto &x : t) { if (x.first == "id" || x.first == "feature") continue;
        if (r.chance(0.1)) { x.second = std::to_string(r.below(100000)); prop(x.first, x.second); }
        else if (r.chance(0.1)) { x.second = "true"; prop(x.first, "true"); }
        else prop(x.first, jstr(x.second, r));
        m.tags.push_back(x); }
      if (withId && !idFirst) prop("id", idText);
      props += "}";
      std::string geo, type;
      auto kid = [&](Kind k, const Coords &v) { M x; x.kind = k; x.id = 0; x.pts = v; return x; };
      auto rings = [&](std::vector<M> &kids) {        // outer clockwise in the file, holes the other way: the format's exporters do so
        std::string s = "["; size_t nh = r.chance(0.5) ? 0 : 1 + r.below(3);
        for (size_t h = 0; h <= nh; ++h) { Coords v = poly(h > 0); s += (h ? "," : "") + closed(v); Coords b(v.rbegin(), v.rend()); kids.push_back(kid(AREA, b)); }
        return s + "]";
      };
      switch (r.below(5)) {
        case 0: type = "Point"; m.kind = NODE; m.pts = {P()}; geo = C(m.pts[0]); break;
        case 1: { type = "LineString"; m.kind = WAY; size_t k = 2 + r.below(6); while (m.pts.size() < k) m.pts.push_back(P()); geo = line(m.pts); break; }
        case 2: { type = "Polygon"; std::vector<M> k; geo = rings(k); if (k.size() == 1) { m.kind = AREA; m.pts = k[0].pts; } else { m.kind = RELATION; m.kids = k; } break; }
        case 3: { type = "MultiLineString"; size_t k = 1 + r.below(4); geo = "["; std::vector<M> ks;
          for (size_t q = 0; q < k; ++q) { Coords v; size_t z = 2 + r.below(4); while (v.size() < z) v.push_back(P()); geo += (q ? "," : "") + line(v); ks.push_back(kid(WAY, v)); }
          geo += "]"; if (k == 1) { m.kind = WAY; m.pts = ks[0].pts; } else { m.kind = RELATION; m.kids = ks; } break; }
        default: { type = "MultiPolygon"; m.kind = RELATION; size_t k = 1 + r.below(3); geo = "[";
          for (size_t q = 0; q < k; ++q) { std::vector<M> ks; geo += (q ? "," : "") + rings(ks); if (ks.size() == 1) m.kids.push_back(ks[0]); else { M x; x.kind = RELATION; x.id = 0; x.kids = ks; m.kids.push_back(x); } }
          geo += "]"; }
      }
      std::string g = "\"geometry\":{\"type\":\"" + type + "\",\"coordinates\":" + geo + "}", p = "\"properties\":" + props, ty = "\"type\":\"Feature\"";
      doc += (i ? ",\n" : "\n") + std::string("{") + (r.chance(0.5) ? g + "," + p + "," + ty : ty + "," + p + "," + g) + "}";
      c.count("json_" + type);
      want.push_back(m);
    }
    doc += "]}";
  }
  doc += "}";
  Import im = importJson(doc, st);
  if (!im.error.empty()) { report(c, "json", "import-failed", im.error, doc); return; }
  if (im.unsorted) report(c, "json", "tags-unsorted", "tags of a delivered element are not ordered by key id", doc);
  // closing vertex of a ring may be repeated; polylines are compared up to direction, rings with orientation
  std::function<void(M &)> norm = [&](M &m) {
    if (m.kind == AREA && m.pts.size() > 1 && m.pts.front() == m.pts.back()) m.pts.pop_back();
    if (m.kind == WAY) { Coords b(m.pts.rbegin(), m.pts.rend()); m.pts = std::min(m.pts, b); }
    for (auto &k : m.kids) norm(k);
  };
  std::vector<std::string> a, b;
  for (auto &m : want) { norm(m); a.push_back(canon(m)); }
  for (auto &m : im.got) { norm(m); b.push_back(canon(m)); }
  std::string df = diff(a, b);
  c.count("elements_compared_json", b.size());
  if (!df.empty()) report(c, "json", "wrong-elements", df, doc);
  if (!want.empty()) c.distinct(doc);
}

// ---- C09 ----
typedef std::vector<std::uint64_t> Ids;
struct RingM { Ids ids; bool outer; };
Ids star(vf::Rng &r, World &w, double la, double lo, double R) {
  size_t n = 6 + r.below(8); Ids ids; double ph = r.real(0, 6.28);
  for (size_t i = 0; i < n; ++i) { double a = ph + (i + r.real(-0.2, 0.2)) * 6.283185307 / n, q = R * r.real(0.85, 1);
    ids.push_back(w.node(r, std::llround((la + q * std::sin(a)) * 1e7), std::llround((lo + q * std::cos(a)) * 1e7), 0.02)); }
  return ids;
}
void nest(vf::Rng &r, World &w, double la, double lo, double R, bool outer, int depth, std::vector<RingM> &out) {
  out.push_back({star(r, w, la, lo, R), outer});
  if (depth == 0) return;
  size_t n = r.below(4); double ph = r.real(0, 6.28);
  for (size_t i = 0; i < n; ++i) nest(r, w, la + 0.27 * R * std::sin(ph + i * 2.094), lo + 0.27 * R * std::cos(ph + i * 2.094), R * 0.15, !outer, depth - 1, out);
}
struct Built { std::vector<Mem> mem; std::vector<RingM> rings; Tags closedOuter; };
Built multipolygon(vf::Ctx &c, World &w, double la, double lo, double R, int depth, size_t outers) {
  auto &r = c.rng; Built b;
  for (size_t o = 0; o < outers; ++o) nest(r, w, la + o * 2.2 * R, lo, R, true, depth, b.rings);
  double split = r.pick(std::vector<double>{0, 0.2, 0.6, 1});
  for (auto &g : b.rings) {
    Ids ids = g.ids; size_t n = ids.size(), k = r.chance(split) ? 1 + r.below(n < 6 ? n : 6) : 1;
    std::set<size_t> cutset; while (cutset.size() < k) cutset.insert(r.below(n));
    std::vector<size_t> cuts(cutset.begin(), cutset.end());
    if (k > 1) c.count("segmented_rings");
    for (size_t i = 0; i < k; ++i) {
      size_t from = cuts[i], to = i + 1 < k ? cuts[i + 1] : cuts[0] + n; Ids seg;
      for (size_t j = from; j <= to; ++j) seg.push_back(ids[j % n]);
      if (r.chance(0.5)) std::reverse(seg.begin(), seg.end());
      Tags t = r.chance(0.4) ? otags(r, 3) : Tags();
      b.mem.push_back({'w', w.way(r, seg, t), g.outer ? "outer" : "inner"});
      if (k == 1 && g.outer) b.closedOuter.insert(b.closedOuter.end(), t.begin(), t.end());
    }
  }
  r.shuffle(b.mem);
  c.count("rings", b.rings.size());
  return b;
}
std::string ringText(const Ids &ids, const std::map<std::uint64_t, const N *> &nm, int dir) {   // dir 1 ccw, -1 cw, 0 any
  Coords v; for (auto x : ids) { auto *n = nm.at(x); v.push_back({n->lat / 1e7, n->lon / 1e7}); }
  if (dir && (area2(v) > 0) != (dir > 0)) std::reverse(v.begin(), v.end());
  M m; m.pts = v; return dir ? cat(rotated(ptsOf(m))) : ringKey(ptsOf(m));
}
const M *find(const std::vector<M> &v, Kind k, std::uint64_t id) { for (auto &m : v) if (m.kind == k && m.id == id) return &m; return nullptr; }

std::vector<std::pair<std::string, Import>> both(vf::Ctx &c, World &w, ST &st, std::string &x) {
  auto &r = c.rng;
  r.shuffle(w.d.rels);
  if (r.chance(0.5)) r.shuffle(w.d.ways);
  x = xml(w.d, r);
  std::vector<std::pair<std::string, Import>> v;
  v.push_back({"xml", importXml(x, st)});
  v.push_back({"pbf", importPbf(pbf(w.d, r, pbfOptions(r)), st)});
  return v;
}

void rings(vf::Ctx &c) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c); ST st(dir + "/");
  World w; double la = r.real(-60, 60), lo = r.real(-170, 170);
  struct Item { R rel; Built b; int mode; Tags own; };
  std::vector<Item> items; size_t n = 1 + r.below(3);
  for (size_t i = 0; i < n; ++i) {
    Item it; it.b = multipolygon(c, w, la, lo + i * 0.1, r.real(0.001, 0.02), (int) r.below(3), r.chance(0.6) ? 1 : 1 + r.below(3));
    it.rel.id = w.rid += 1 + r.below(1000); it.own = r.chance(0.5) ? otags(r, 4) : Tags();
    it.own.insert(it.own.begin() + r.below(it.own.size() + 1), {"type", "multipolygon"});
    it.rel.tags = it.own; it.rel.mem = it.b.mem; it.mode = 0;
    if (r.chance(0.2)) it.rel.mem.insert(it.rel.mem.begin() + r.below(it.rel.mem.size() + 1), {'n', r.pick(w.d.nodes).id, "label"});
    if (r.chance(0.1)) it.rel.mem.insert(it.rel.mem.begin() + r.below(it.rel.mem.size() + 1), {'r', 999999, "subarea"});
    if (r.chance(0.15)) { it.mode = 1; it.rel.mem[0] = {'w', 1000000 + r.below(5), it.rel.mem[0].role}; it.rel.mem[0].type = 'w'; }   // a member is not in the extract
    else if (r.chance(0.15)) { it.mode = 2; size_t k = r.below(it.rel.mem.size()); if (it.rel.mem[k].type == 'w') it.rel.mem.erase(it.rel.mem.begin() + k); }   // incomplete ring
    if (it.mode == 1 && r.chance(0.3)) { R other; other.id = it.rel.mem[0].ref; other.tags = {{"type", "route"}, {"name", "x"}}; other.mem = {{'n', w.d.nodes[0].id, ""}}; bool have = false; for (auto &q : w.d.rels) have |= q.id == other.id; if (!have) w.d.rels.push_back(other); }
    w.d.rels.push_back(it.rel); items.push_back(it);
  }
  // relations which refer to the multipolygons
  std::vector<std::pair<std::uint64_t, std::uint64_t>> parents;
  size_t np = r.below(4);
  for (size_t i = 0; i < np; ++i) {
    R x; x.id = r.chance(0.5) ? 50000 + i : 100000000 + i; auto &t = r.pick(items);
    x.tags = {{"type", r.chance(0.5) ? "site" : "building"}, {"name", "p"}}; x.mem = {{'r', t.rel.id, "part"}};
    w.d.rels.push_back(x); parents.push_back({x.id, t.rel.id});
  }
  std::map<std::uint64_t, const N *> nm;
  std::string x;
  auto res = both(c, w, st, x);
  for (auto &q : w.d.nodes) nm[q.id] = &q;
  for (auto &im : res) {
    const char *f = im.first.c_str();
    if (!im.second.error.empty()) { report(c, f, "import-failed", im.second.error, x); continue; }
    if (im.second.unsorted) report(c, f, "tags-unsorted", "tags of a delivered element are not ordered by key id", x);
    for (auto &it : items) {
      const M *m = find(im.second.got, RELATION, it.rel.id);
      std::string who = "relation " + std::to_string(it.rel.id) + " ";
      if (!m) { report(c, f, "relation-lost", who, x); continue; }
      c.count("multipolygons_checked");
      std::vector<std::string> want, got;
      for (auto &k : m->kids) if (k.kind != AREA) report(c, f, "ring-not-area", who + canon(k), x);
      if (it.mode == 0) {
        for (auto &g : it.b.rings) want.push_back((g.outer ? "outer " : "hole ") + ringText(g.ids, nm, g.outer ? 1 : -1));
        for (auto &k : m->kids) got.push_back((area2(k.pts) > 0 ? "outer " : "hole ") + cat(rotated(ptsOf(k))));
        std::string df = diff(want, got);
        if (!df.empty()) report(c, f, "rings-differ", who + df, x);
        c.distinct(cat(want)); c.count("rings_compared", want.size());
      } else {
        std::set<std::string> real, seen; for (auto &g : it.b.rings) real.insert(ringText(g.ids, nm, 0));
        for (auto &k : m->kids) { std::string t = ringKey(ptsOf(k)); if (!real.count(t)) report(c, f, "made-up-ring", who + t, x); if (!seen.insert(t).second) report(c, f, "ring-twice", who + t, x); }
        if (it.mode == 1 && !m->kids.empty()) report(c, f, "incomplete-multipolygon-shown", who + "has " + std::to_string(m->kids.size()) + " rings although a member way is missing", x);
        c.count(it.mode == 1 ? "missing_member" : "unclosed");
      }
      // tags: own ones always; those of closed outer members only when the relation has none of its own
      std::map<std::string, std::set<std::string>> may; std::set<std::string> must, have;
      for (auto &t : it.own) { must.insert(t.first); may[t.first].insert(t.second); }
      if (it.own.size() < 2) for (auto &t : it.b.closedOuter) { may[t.first].insert(t.second); if (it.mode == 0) must.insert(t.first); }
      for (auto &t : m->tags) { if (t.first == "!part") continue; if (!may.count(t.first) || !may[t.first].count(t.second)) report(c, f, "foreign-tag", who + t.first + "=" + t.second, x); if (!have.insert(t.first).second) report(c, f, "tag-twice", who + t.first, x); }
      for (auto &k : must) if (!have.count(k)) report(c, f, "tag-lost", who + k, x);
    }
    for (auto &p : parents) {
      const M *a = find(im.second.got, RELATION, p.first), *b = find(im.second.got, RELATION, p.second);
      if (!a || !b) { report(c, f, "relation-lost", std::to_string(p.first), x); continue; }
      c.count("parents_checked");
      if (a->kids.size() != 1 || canon(a->kids[0]) != canon(*b)) report(c, f, "nested-differs", "parent holds\n" + canon(*a) + "\nbut the member alone is\n" + canon(*b), x);
    }
  }
  c.sample(x);
}

// plain and building relations referring to each other in any way
void graph(vf::Ctx &c) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c); ST st(dir + "/");
  World w; double la = r.real(-60, 60), lo = r.real(-170, 170);
  for (int i = 0; i < 6; ++i) w.node(r, std::llround((la + r.real(0, 0.1)) * 1e7), std::llround((lo + r.real(0, 0.1)) * 1e7), 0.7);
  for (int i = 0; i < 4; ++i) { Ids ids; size_t k = 2 + r.below(4); for (size_t j = 0; j < k; ++j) ids.push_back(w.d.nodes[(i + j) % 6].id); if (k > 3 && r.chance(0.5)) ids.push_back(ids[0]); w.way(r, ids, otags(r, 3)); }
  size_t n = 1 + r.below(7); bool small = r.chance(0.5);   // small ids: equal ids of nodes, ways and relations
  Ids ids; for (size_t i = 0; i < n; ++i) ids.push_back(small ? i + 1 + r.below(2) * 20 : 1000 + i);
  if (small) { for (size_t i = 0; i < w.d.nodes.size(); ++i) { std::uint64_t old = w.d.nodes[i].id, nw = 100000 + old; for (auto &y : w.d.ways) for (auto &q : y.refs) if (q == old) q = nw; w.d.nodes[i].id = nw; }
    for (size_t i = 0; i < w.d.nodes.size(); ++i) { std::uint64_t old = w.d.nodes[i].id; for (auto &y : w.d.ways) for (auto &q : y.refs) if (q == old) q = i + 1; w.d.nodes[i].id = i + 1; }
    for (size_t i = 0; i < w.d.ways.size(); ++i) w.d.ways[i].id = i + 1; }
  bool cyc = r.chance(0.6);
  std::map<std::uint64_t, R> rel; std::map<std::uint64_t, std::set<std::uint64_t>> to;
  for (size_t i = 0; i < n; ++i) {
    R x; x.id = ids[i]; if (r.chance(0.8)) x.tags = otags(r, 3);
    static const std::vector<std::string> types = {"site", "building", "building", "route"};
    if (r.chance(0.8)) x.tags.push_back({"type", r.pick(types)});
    size_t k = 1 + r.below(4);
    for (size_t j = 0; j < k; ++j) {
      Mem m; m.role = r.pick(std::vector<std::string>{"", "part", "outline", "outer"});
      switch (r.below(5)) {
        case 0: m.type = 'n'; m.ref = r.chance(0.1) ? 5555 : r.pick(w.d.nodes).id; break;
        case 1: m.type = 'w'; m.ref = r.chance(0.1) ? 5555 : r.pick(w.d.ways).id; break;
        default: m.type = 'r'; m.ref = r.chance(0.05) ? 5555 : cyc ? r.pick(ids) : i ? ids[r.below(i)] : 5555;
      }
      // one and the same member listed twice is only judged for plain relations
      bool twice = false; for (auto &y : x.mem) twice |= y.type == m.type && y.ref == m.ref;
      if (twice && r.chance(0.8)) continue;
      if (twice) { bool b = false; for (auto &t : x.tags) b |= t.second == "building" && t.first == "type"; if (b) continue; }
      x.mem.push_back(m); if (m.type == 'r') to[x.id].insert(m.ref);
    }
    if (x.mem.empty()) x.mem.push_back({'n', w.d.nodes[0].id, ""});
    w.d.rels.push_back(x); rel[x.id] = x;
  }
  auto reaches = [&](std::uint64_t a, std::uint64_t b) { std::set<std::uint64_t> seen; std::vector<std::uint64_t> q{a}; while (!q.empty()) { auto u = q.back(); q.pop_back(); if (u == b) return true; if (!seen.insert(u).second) continue; for (auto v : to[u]) q.push_back(v); } return false; };
  std::string x;
  auto res = both(c, w, st, x);
  std::set<Key> present, inBuilding; for (auto &q : w.d.nodes) present.insert({0, q.id}); for (auto &q : w.d.ways) present.insert({1, q.id}); for (auto &q : w.d.rels) present.insert({2, q.id});
  for (auto &im : res) {
    const char *f = im.first.c_str();
    if (!im.second.error.empty()) { report(c, f, "import-failed", im.second.error, x); continue; }
    std::map<Key, const M *> got;
    for (auto &m : im.second.got) if (!got.insert({keyOf(m), &m}).second) report(c, f, "delivered-twice", canon(m), x);
    for (auto &q : w.d.ways) if (!q.tags.empty() && !got.count({1, q.id})) report(c, f, "way-lost", std::to_string(q.id), x);
    for (auto &q : w.d.nodes) if (!q.tags.empty() && !got.count({0, q.id})) report(c, f, "node-lost", std::to_string(q.id), x);
    for (auto &q : w.d.rels) {
      auto it = got.find({2, q.id});
      std::string who = "relation " + std::to_string(q.id) + " ";
      if (it == got.end()) { if (!q.tags.empty()) report(c, f, "relation-lost", who, x); continue; }
      bool building = false; for (auto &t : q.tags) building |= t.first == "type" && t.second == "building";
      std::vector<Key> all; std::set<Key> once, mayDrop;
      for (auto &m : q.mem) {
        Key k{m.type == 'n' ? 0 : m.type == 'w' ? 1 : 2, m.ref};
        if (!present.count(k)) continue;
        if (building && m.role == "outline") continue;
        if (k.first == 2 && reaches(k.second, q.id)) { mayDrop.insert(k); c.count("cyclic_references"); }
        if (once.insert(k).second) all.push_back(k);
      }
      std::vector<Key> have; bool same = true; for (auto &k : it->second->kids) have.push_back(keyOf(k));
      size_t j = 0;
      for (auto &k : all) { if (j < have.size() && have[j] == k) ++j; else if (!mayDrop.count(k)) same = false; }
      if (j != have.size()) same = false;
      auto show = [](const std::vector<Key> &v) { std::string s; for (auto &k : v) s += std::string(1, "nwr"[k.first]) + std::to_string(k.second) + " "; return s; };
      if (!same) report(c, f, "members-differ", who + "expected " + show(all) + " (cyclic ones may be absent), has " + show(have), x);
      for (auto &k : it->second->kids) { auto g = got.find(keyOf(k)); if (g != got.end() && canon(*g->second) != canon(k)) report(c, f, "nested-differs", who + "holds\n" + canon(k) + "\nbut the member alone is\n" + canon(*g->second), x); }
      c.count("graph_relations_checked"); if (!mayDrop.empty()) c.count("relations_on_cycles");
      c.distinct(show(all) + who + tagsKey(q.tags));
    }
  }
}
}

int main(int argc, char **argv) {
  return vf::main(argc, argv, {
    {"fidelity", 3000, 60000, fidelity},
    {"json", 2000, 30000, json},
    {"rings", 2500, 60000, rings},
    {"graph", 3000, 60000, graph},
  });
}
