// C01: hostile bytes and arguments. The sanitizers and the fate of the process are the monitor; in addition the
// library must still work after every hostile call, and no exception may leave the C API.
#include "engine.hpp"
#include "osm.hpp"
#include "shp.hpp"
#include <limits>
#include <new>
// A request for memory nobody can serve is bad_alloc, as without sanitizers.
void *operator new(std::size_t n) { if (n > (std::size_t(1) << 31)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return n > (std::size_t(1) << 31) ? nullptr : malloc(n ? n : 1); }
void *operator new[](std::size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }

namespace {
const std::vector<std::string> &hostileNumbers() {
  static const std::vector<std::string> v = {"0", "-0", "-1", "1", "1e400", "-1e400", "1e300", "nan", "NaN", "inf", "-inf", "99999999999999999999", "4294967296", "4294967295", "2147483648", "2147483647", "-2147483648", "-2147483649",
    "18446744073709551615", "18446744073709551616", "", "0x10", "abc", "1e-400", "180.0000001", "90.5", "-999", "1,5", "1.2.3", "--1", "+", ".", "1e", "100000"};
  return v;
}
double hostileDouble(vf::Rng &r) {
  static const std::vector<double> v = {0, -0.0, 1e300, -1e300, 1e10, -1e10, NAN, INFINITY, -INFINITY, 90, -90, 90.0000001, 180, -180, 180.0000001, 360, 1e-320, 85.06, 2147483648.0, 9.3e18, 85.0511287798, -85.0511287798};
  return r.pick(v);
}
int hostileInt(vf::Rng &r) {
  static const std::vector<int> v = {0, -1, 1, 2, 20, 31, 32, 33, 64, 100, 1 << 16, 1 << 30, INT32_MAX, INT32_MIN, INT32_MIN + 1, -100, 19, 16};
  return r.pick(v);
}

// bytes cut, copied, replaced
std::string mutateBytes(vf::Rng &r, std::string s, bool text) {
  static const std::vector<std::string> frag = {"<", ">", "/>", "\"", "'", "&", "&#0;", "&#1114112;", "&#xffffffff;", "&amp", "<!--", "]]>", "<![CDATA[", "{", "}", "[", "]", ",", ":", "\\u", "\\ud800", "\\", "null", "true", "-", "\0", "\xff\xff", "\xc3", "\n", "\r", "\t", ";", "(", ")", "!", "|z", "@import", "url(\"", "eval(\"", "tag('", "gradient(", "%", "#", "->", "/*", "*/", "::", "=", "<?xml", "<osm", "</osm>", "<node", "<way", "<nd"};
  for (size_t k = 0, n = 1 + r.below(r.chance(0.7) ? 3 : 20); k < n; ++k) {
    if (s.empty()) { s += (char) r.below(256); continue; }
    size_t at = r.below(s.size()), len = 1 + r.below(std::min<size_t>(s.size() - at, r.chance(0.7) ? 8 : 400));
    switch (r.below(8)) {
      case 0: s[at] = (char) r.below(256); break;
      case 1: s[at] ^= (char) (1 << r.below(8)); break;
      case 2: s.erase(at, len); break;
      case 3: s.insert(r.below(s.size()), s.substr(at, len)); break;
      case 4: if (text) s.insert(at, r.pick(frag)); else s[at] = r.pick(std::vector<char>{0, (char) 0xff, 0x7f, (char) 0x80, 1}); break;
      case 5: if (!text) { for (size_t i = at; i < at + 4 && i < s.size(); ++i) s[i] = r.pick(std::vector<char>{0, (char) 0xff, 0x7f, (char) 0x80}); break; }   // fall through
      case 6: { size_t b = at; while (b < s.size() && !isdigit((unsigned char) s[b])) ++b; size_t e = b; while (e < s.size() && (isalnum((unsigned char) s[e]) || s[e] == '.' || s[e] == '-')) ++e; if (b < e && text) s.replace(b, e - b, r.pick(hostileNumbers())); else s.resize(at); break; }
      default: s.resize(r.chance(0.3) ? at : s.size() - r.below(std::min<size_t>(s.size(), 12)));
    }
  }
  return s;
}
std::string show(const std::string &s, size_t max = 1500) { std::string o; for (unsigned char ch : s.substr(0, max)) { if (ch == '\n' || (ch >= 32 && ch < 127)) o += (char) ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; } } return o + (s.size() > max ? "..." : ""); }

struct World {
  vf::Ctx &c; vf::Rng &r; std::string dir; QuadKey q; BoundingBox b; std::string style, plain; std::unique_ptr<api::Engine> e; std::string trace; std::uint64_t id = 1; int n = 0; bool disk;
  explicit World(vf::Ctx &c) : c(c), r(c.rng) {
    dir = vf::freshDir(c, "h"); q = GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(r.real(-60, 60), r.real(-170, 170)), 16); b = GeoUtils::quadKeyToBoundingBox(q);
    scene::writeStyleDir(dir + "/style", scene::customSheet(r, 1, 19)); vf::spit(dir + "/style/tree.lsys", OneTree); style = dir + "/style/index.mapcss";
    vf::spit(dir + "/plain.mapcss", "node|z1-19[good],way|z1-19[good],area|z1-19[good] { clip: false; builder: x; }\n"); plain = dir + "/plain.mapcss";
    e.reset(new api::Engine(dir)); e->style(style); e->style(plain); e->memory("mem"); disk = r.chance(0.3); if (disk) e->persistent("disk"); enableMeshCache(0);
  }
  std::string key() { return disk && r.chance(0.6) ? "disk" : "mem"; }
  std::string file(const std::string &ext, const std::string &bytes) { std::string f = dir + "/f" + std::to_string(n++) + "." + ext; vf::spit(f, bytes); return f; }
  // runs a hostile call; the exception must not get out of the C API
  bool call(const std::string &what, const std::function<void(api::Result &)> &fn) {
    api::Result x; trace += what; if (c.replay) std::cerr << what << std::endl;
    try { fn(x); } catch (const std::exception &ex) { c.violation("exception-escapes", trace + ": " + ex.what()); } catch (...) { c.violation("exception-escapes", trace); }
    trace += x.errors.empty() ? ": ok\n" : ": ERROR " + show(x.errors[0], 150) + "\n"; c.count(x.errors.empty() ? "hostile_accepted" : "hostile_reported");
    return x.errors.empty();
  }
  void import(const std::string &what, const std::string &path) {
    std::string k = key(); int way = (int) r.below(4); QuadKey t = q; if (r.chance(0.2)) { int up = (int) r.below(8); t = QuadKey(16 - up, q.tileX >> up, q.tileY >> up); }
    int lo = (int) r.range(1, 4), hi = (int) r.range(lo, 4); BoundingBox bb = GeoUtils::quadKeyToBoundingBox(t);
    call(what + " import" + std::to_string(way), [&](api::Result &x) { if (way < 2) api::addFile(x, k, style, path, t); else if (way == 2) api::addFile(x, k, style, path, lo, hi); else api::addFile(x, k, style, path, bb, lo, hi); });
    load(style, t); if (way >= 2) load(style, GeoUtils::GeoCoordinateToQuadKey(b.center(), lo));
  }
  void load(const std::string &s, const QuadKey &t, int ele = api::FLAT) { call("load " + qk(t), [&](api::Result &x) { x.keep = false; api::load(x, s, t, ele); }); }
  // the library still works
  void alive() {
    auto p = scene::pick(r, b, -0.2); std::uint64_t i = 100000 + id++; std::string k = key(); api::Result a; api::addElement(a, k, plain, i, {p}, {{"good", "g"}}, 16, 16);
    api::Result x; api::load(x, plain, q); bool found = false; for (auto &el : x.elems) found |= el.id == i;
    c.count("alive_checked"); if (!a.errors.empty() || !x.errors.empty() || !found) c.violation("not-usable-afterwards", trace + (a.errors.empty() ? "" : "add: " + a.errors[0]) + (x.errors.empty() ? "" : " load: " + x.errors[0]) + (found ? "" : " element not delivered"));
  }
  std::vector<M> feats(size_t max, bool outside = true) { std::vector<M> v; scene::Opt o; o.degenerate = 0.1; for (size_t i = 0, k = 1 + r.below(max); i < k; ++i) { M m = scene::feature(r, b, id++, o); m.tags = scene::customTags(r, m.kind); v.push_back(m); } return v; }
};

// ---- OSM PBF ----
struct Blob { std::string type; bool compress; std::string payload; };
std::vector<Blob> blobs(const std::string &s) {
  std::vector<Blob> v; size_t at = 0;
  while (at + 4 <= s.size()) {
    size_t n = ((unsigned char) s[at] << 24) | ((unsigned char) s[at + 1] << 16) | ((unsigned char) s[at + 2] << 8) | (unsigned char) s[at + 3]; at += 4;
    OSMPBF::BlobHeader h; h.ParseFromString(s.substr(at, n)); at += n; OSMPBF::Blob b; b.ParseFromString(s.substr(at, h.datasize())); at += h.datasize(); Blob o; o.type = h.type(); o.compress = b.has_zlib_data();
    if (b.has_raw()) o.payload = b.raw(); else { o.payload.resize(b.raw_size()); uLongf k = o.payload.size(); uncompress((Bytef *) &o.payload[0], &k, (const Bytef *) b.zlib_data().data(), b.zlib_data().size()); }
    v.push_back(o);
  }
  return v;
}
std::int64_t hostile64(vf::Rng &r) { static const std::vector<std::int64_t> v = {0, -1, 1, 2, 7, 1000, -1000, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, INT64_MAX / 2, 1LL << 40, 4294967295LL, 4294967296LL, 1800000000, 1800000001}; return r.pick(v); }
template<class F> void mutateField(vf::Rng &r, F &f) {
  int n = f.size(); 
  switch (r.below(5)) {
    case 0: if (n) f.Set((int) r.below(n), (typename std::decay<decltype(f.Get(0))>::type) hostile64(r)); break;
    case 1: if (n) f.Truncate((int) r.below(n)); break;
    case 2: f.Add((typename std::decay<decltype(f.Get(0))>::type) hostile64(r)); break;
    case 3: if (n) f.Set((int) r.below(n), (typename std::decay<decltype(f.Get(0))>::type) r.range(-3, 40)); break;
    default: f.Clear();
  }
}
void mutateBlock(vf::Rng &r, OSMPBF::PrimitiveBlock &b) {
  for (size_t k = 0, n = 1 + r.below(4); k < n; ++k) {
    switch (r.below(12)) {
      case 0: b.set_granularity((int) hostile64(r)); continue;
      case 1: b.set_lat_offset(hostile64(r)); continue;
      case 2: b.set_lon_offset(hostile64(r)); continue;
      case 3: { auto *s = b.mutable_stringtable(); if (s->s_size()) { if (r.chance(0.5)) s->mutable_s()->RemoveLast(); else s->clear_s(); } continue; }
      case 4: { auto *s = b.mutable_stringtable(); if (s->s_size()) s->set_s((int) r.below(s->s_size()), r.chance(0.5) ? std::string(1 + r.below(70000), 'x') : std::string("\0a\xff\xfe", 4)); continue; }
      default:;
    }
    if (!b.primitivegroup_size()) { b.add_primitivegroup(); }
    auto *g = b.mutable_primitivegroup((int) r.below(b.primitivegroup_size()));
    if (g->has_dense()) { auto *d = g->mutable_dense(); switch (r.below(4)) { case 0: mutateField(r, *d->mutable_id()); break; case 1: mutateField(r, *d->mutable_lat()); break; case 2: mutateField(r, *d->mutable_lon()); break; default: mutateField(r, *d->mutable_keys_vals()); } }
    if (g->nodes_size()) { auto *x = g->mutable_nodes((int) r.below(g->nodes_size())); switch (r.below(5)) { case 0: x->set_id(hostile64(r)); break; case 1: x->set_lat(hostile64(r)); break; case 2: x->set_lon(hostile64(r)); break; case 3: mutateField(r, *x->mutable_keys()); break; default: mutateField(r, *x->mutable_vals()); } }
    if (g->ways_size()) { auto *x = g->mutable_ways((int) r.below(g->ways_size())); switch (r.below(4)) { case 0: x->set_id(hostile64(r)); break; case 1: mutateField(r, *x->mutable_refs()); break; case 2: mutateField(r, *x->mutable_keys()); break; default: mutateField(r, *x->mutable_vals()); } }
    if (g->relations_size()) { auto *x = g->mutable_relations((int) r.below(g->relations_size())); switch (r.below(6)) { case 0: x->set_id(hostile64(r)); break; case 1: mutateField(r, *x->mutable_roles_sid()); break; case 2: mutateField(r, *x->mutable_memids()); break; case 3: { if (x->types_size() && r.chance(0.5)) x->mutable_types()->RemoveLast(); else x->add_types(OSMPBF::Relation::NODE); break; } case 4: mutateField(r, *x->mutable_keys()); break; default: mutateField(r, *x->mutable_vals()); } }
  }
}
std::string hostilePbf(vf::Rng &r, const std::string &good) {
  std::string out;
  for (auto &b : blobs(good)) {
    std::string p = b.payload;
    if (b.type == "OSMData" && r.chance(0.7)) { OSMPBF::PrimitiveBlock pb; pb.ParseFromString(p); mutateBlock(r, pb); p.clear(); pb.SerializeToString(&p); }
    if (r.chance(0.1)) p = mutateBytes(r, p, false);
    if (r.chance(0.1)) {   // a blob which lies about itself
      OSMPBF::Blob x; uLongf n = compressBound(p.size()); std::string z(n, 0); compress2((Bytef *) &z[0], &n, (const Bytef *) p.data(), p.size(), 6); z.resize(n); if (r.chance(0.3)) z = mutateBytes(r, z, false);
      if (r.chance(0.8)) { x.set_zlib_data(z); if (r.chance(0.8)) x.set_raw_size(r.chance(0.5) ? (int) hostile64(r) : (int) p.size() + (int) r.range(-5, 5)); } else if (r.chance(0.5)) x.set_lzma_data(z); else x.set_raw(std::string(1 + r.below(100000), 'r'));
      std::string body; x.SerializeToString(&body); OSMPBF::BlobHeader h; h.set_type(r.chance(0.8) ? b.type : "Other"); h.set_datasize(r.chance(0.7) ? (int) body.size() : (int) hostile64(r)); std::string hs; h.SerializeToString(&hs);
      unsigned hn = (unsigned) hs.size(); if (r.chance(0.2)) hn = (unsigned) hostile64(r); char be[4] = {(char) (hn >> 24), (char) (hn >> 16), (char) (hn >> 8), (char) hn}; out.append(be, 4); out += hs + body;
    } else osm::putBlob(out, b.type.c_str(), p, b.compress);
  }
  return r.chance(0.15) ? mutateBytes(r, out, false) : out;
}
osm::Data extract(World &w, size_t max) {
  auto &r = w.r; osm::Data d; std::uint64_t id = 1;
  for (auto &m : w.feats(max)) {
    auto way = [&](const Coords &pts, bool closed, const Tags &t) { osm::W x; for (auto &p : pts) { d.nodes.push_back({id, (std::int64_t) (p.first * 1e7), (std::int64_t) (p.second * 1e7), {}}); x.refs.push_back(id++); } if (closed) x.refs.push_back(x.refs[0]); x.id = id++; x.tags = t; d.ways.push_back(x); return x.id; };
    if (m.kind == NODE) d.nodes.push_back({id++, (std::int64_t) (m.pts[0].first * 1e7), (std::int64_t) (m.pts[0].second * 1e7), m.tags});
    else if (m.kind == WAY || m.kind == AREA) way(m.pts, m.kind == AREA, m.tags);
    else { osm::R x; for (size_t i = 0; i < m.kids.size(); ++i) x.mem.push_back({'w', way(m.kids[i].pts, true, {}), i ? "inner" : "outer"}); x.id = id++; x.tags = m.tags; if (r.chance(0.3)) x.mem.push_back({'r', id + (std::uint64_t) r.range(-3, 3), ""}); d.rels.push_back(x); }
  }
  return d;
}
void pbf(vf::Ctx &c) {
  World w(c); auto &r = c.rng;
  for (int i = 0; i < 4; ++i) {
    osm::Data d = extract(w, 6); std::string s = hostilePbf(r, osm::pbf(d, r, osm::pbfOptions(r))); c.distinct(s); c.count("pbf_files");
    w.import("pbf", w.file("pbf", s));
  }
  w.alive(); c.sample(w.trace);
}

// ---- OSM XML ----
std::string deepRelations(size_t n, bool cycle) {
  std::ostringstream o; o << "<?xml version=\"1.0\"?><osm><node id=\"1\" lat=\"0.5\" lon=\"0.5\"/>";
  for (size_t i = 1; i <= n; ++i) { o << "<relation id=\"" << i << "\"><member type=\"" << (i == n && !cycle ? "node" : "relation") << "\" ref=\"" << (i == n ? 1 : i + 1) << "\" role=\"\"/><tag k=\"p\" v=\"x\"/></relation>"; }
  o << "</osm>"; return o.str();
}
std::string swapNumbers(vf::Rng &r, std::string s, size_t max = 4) {
  for (size_t k = 0, n = 1 + r.below(max); k < n && !s.empty(); ++k) {
    size_t b = r.below(s.size()); while (b < s.size() && !(isdigit((unsigned char) s[b]) && (b == 0 || !isalnum((unsigned char) s[b - 1])))) ++b; size_t e = b; while (e < s.size() && (isdigit((unsigned char) s[e]) || s[e] == '.')) ++e;
    if (b < e) s.replace(b, e - b, r.pick(hostileNumbers()));
  }
  return s;
}
void xml(vf::Ctx &c) {
  World w(c); auto &r = c.rng;
  for (int i = 0; i < 4; ++i) {
    std::string s = r.chance(0.5) ? scene::toXml(w.feats(5)) : osm::xml(extract(w, 5), r);
    if (c.idx % 50 == 7 && i == 0) s = deepRelations(r.pick(std::vector<size_t>{300, 5000, 60000}), r.chance(0.3));
    else s = r.chance(0.4) ? swapNumbers(r, s) : mutateBytes(r, s, true);
    c.distinct(s); c.count("xml_files"); w.import("xml", w.file("xml", s));
  }
  w.alive(); c.sample(w.trace);
}

// ---- JSON ----
std::string jsonText(World &w) {
  auto &r = w.r; std::string s = "{"; bool firstLayer = true;
  auto ring = [&](const Coords &v, bool closed) { std::string t = "["; Coords k = v; if (closed) k.push_back(v[0]); for (size_t i = 0; i < k.size(); ++i) t += (i ? "," : "") + std::string("[") + num(k[i].second) + "," + num(k[i].first) + "]"; return t + "]"; };
  for (auto *layer : {"pois", "roads", "landuse"}) {
    s += (firstLayer ? "" : ",") + std::string("\"") + layer + "\":{\"type\":\"FeatureCollection\",\"features\":["; firstLayer = false; bool first = true;
    for (auto &m : w.feats(3)) {
      s += first ? "" : ","; first = false; std::string geo;
      if (m.kind == NODE) geo = "\"Point\",\"coordinates\":[" + num(m.pts[0].second) + "," + num(m.pts[0].first) + "]";
      else if (m.kind == WAY) geo = r.chance(0.5) ? "\"LineString\",\"coordinates\":" + ring(m.pts, false) : "\"MultiLineString\",\"coordinates\":[" + ring(m.pts, false) + "," + ring(m.pts, false) + "]";
      else if (m.kind == AREA) geo = "\"Polygon\",\"coordinates\":[" + ring(m.pts, true) + "]";
      else { geo = "\"MultiPolygon\",\"coordinates\":[["; for (size_t i = 0; i < m.kids.size(); ++i) geo += (i ? "," : "") + ring(m.kids[i].pts, true); geo += "]]"; }
      s += "{\"type\":\"Feature\",\"geometry\":{\"type\":" + geo + "},\"properties\":{\"id\":" + std::to_string(m.id); for (auto &t : m.tags) if (t.first != "type") s += ",\"" + t.first + "\":\"" + vf::jesc(t.second) + "\""; s += "}}";
    }
    s += "]}";
  }
  return s + "}";
}
void json(vf::Ctx &c) {
  World w(c); auto &r = c.rng;
  for (int i = 0; i < 4; ++i) {
    std::string s = jsonText(w);
    if (c.idx % 20 == 7 && i == 0) { size_t n = r.pick(std::vector<size_t>{50, 1000, 20000, 300000}); std::string o, e; for (size_t k = 0; k < n; ++k) { bool a = r.chance(0.5); o += a ? "[" : "{\"a\":"; e = (a ? "]" : "}") + e.substr(0, 0) + e; if (n > 2000 && k > 2000) { e.clear(); } } s = "{\"pois\":{\"features\":[" + o + (r.chance(0.5) ? "1" + e : "") + "]}}"; }
    else if (r.chance(0.25)) { static const std::vector<std::string> g = {"[]", "[[]]", "[[[]]]", "[[[[]]]]", "null", "{}", "\"x\"", "[1]", "[[1]]", "[[1,2]]", "[[[1,2]]]", "[[[1,2],[1,2]]]", "[null,null]", "[\"a\",\"b\"]", "[1,2,3,4]", "[[[[1,2],[1,3],[2,2],[1,2]]]]"}; size_t at = s.find("\"coordinates\":", r.below(s.size())); if (at != std::string::npos) { size_t b = at + 14, e = b; int d = 0; do { if (s[e] == '[') ++d; if (s[e] == ']') --d; ++e; } while (d && e < s.size()); s.replace(b, e - b, r.pick(g)); } }
    else s = r.chance(0.4) ? swapNumbers(r, s) : mutateBytes(r, s, true);
    c.distinct(s); c.count("json_files"); w.import("json", w.file("json", s));
  }
  w.alive(); c.sample(w.trace);
}

// ---- shapefiles ----
void shape(vf::Ctx &c) {
  World w(c); auto &r = c.rng;
  for (int i = 0; i < 3; ++i) {
    shp::File f; f.type = r.pick(std::vector<int>{1, 11, 21, 3, 13, 23, 5, 15, 25, 8, 18, 28, 31, 0}); f.columns = shp::columns(r); f.columns.push_back({"l", 'C', 8, 0});
    for (size_t k = 0, n = r.below(6); k < n; ++k) { shp::Record x; x.type = f.type == 31 ? 5 : f.type; for (size_t p = 0, np = x.type % 10 == 1 || x.type % 10 == 8 ? 1 : 1 + r.below(3); p < np; ++p) { Coords v = scene::ring(r, w.b, scene::Opt(), 0.3); v.push_back(v[0]); x.parts.push_back(v); } for (auto &col : f.columns) x.values.push_back(shp::value(r, col)); x.values.back() = r.pick(std::vector<std::string>{"water", "park", "road"}); f.records.push_back(x); }
    shp::Bytes y = shp::write(f, r, r.chance(0.2)); if (f.type == 31) for (auto *s : {&y.shp, &y.shx}) (*s)[32] = 31;
    static const std::vector<std::uint32_t> h = {0, 1, 2, 3, 5, 31, 0xffffffff, 0x7fffffff, 0x80000000, 0x10000, 100, 0xfffffffe, 0x3fffffff};
    auto field = [&](std::string &s, bool big) { if (s.size() < 8) return; size_t at = r.chance(0.3) ? r.below(s.size() - 4) : (r.chance(0.5) && s.size() > 112 ? 100 + 4 * r.below((s.size() - 104) / 4) : 4 * r.below((s.size() - 4) / 4)); std::string v; (big ? shp::be32 : shp::le32)(v, r.chance(0.7) ? r.pick(h) : (std::uint32_t) r.below(300)); s.replace(at, 4, v); };
    for (size_t k = 0, n = 1 + r.below(3); k < n; ++k) switch (r.below(7)) {
      case 0: field(y.shp, false); break; case 1: field(y.shp, true); break; case 2: field(y.shx, true); break;
      case 3: if (!y.dbf.empty()) { size_t at = r.below(std::min<size_t>(y.dbf.size(), 32 + 32 * f.columns.size() + 40)); y.dbf[at] = (char) r.pick(std::vector<int>{0, 1, 255, 127, 128, 13, 32, 200}); } break;
      case 4: y.shp = mutateBytes(r, y.shp, false); break; case 5: y.dbf = mutateBytes(r, y.dbf, false); break; default: y.shx = mutateBytes(r, y.shx, false); }
    std::string base = w.dir + "/s" + std::to_string(i); shp::save(y, base); c.distinct(y.shp + y.shx + y.dbf); c.count("shape_files"); w.import("shape", base + ".shp");
  }
  w.alive(); c.sample(w.trace);
}

// ---- stylesheets, L-systems, texture descriptions ----
// values by which a declaration may be replaced: hostile, but none which merely asks for a lot of work
std::string hostileValue(vf::Rng &r, const std::string &key) {
  static const std::vector<std::string> any = {"", "0", "-1", "-0.0001", "0%", "-5%", "0m", "-3m", "nan", "inf", "-inf", "1e300", "1e300m", "1e300%", "99999999999999999999", "4294967296", "2147483648", "abc", "true", "red", "#12", "#gggggg", "#", "gradient()", "gradient(#f00)", "gradient(#ff0000 50%)", "gradient(#ff0000 90%, #00ff00 10%)", "gradient(#ff0000, #00ff00 nan%, #0000ff)",
    "gradient(#ff0000 , , #00ff00)", "eval(\"\")", "eval(\"tag('')\")", "eval(\"tag('nosuch')\")", "eval(\"1/0\")", "eval(\"tag('h') / tag('z')\")", "eval(\"1 +\")", "eval(\"((((1\")", "eval(\"tag('h\")", "tree", "nosuch", "1,2,3", ",", "brown", "100", "3.7"};
  std::string v = r.pick(any);
  // counts and sizes of meshes may be absurd, not merely large
  return v;
}
std::string mutateSheet(vf::Rng &r, std::string s) {
  for (size_t k = 0, n = 1 + r.below(3); k < n; ++k) {
    std::vector<std::pair<size_t, size_t>> decl; size_t at = 0;
    while ((at = s.find(": ", at)) != std::string::npos) { size_t e = s.find(';', at); if (e == std::string::npos) break; decl.push_back({at + 2, e}); at = e; }
    if (decl.empty()) return s;
    auto d = r.pick(decl);
    switch (r.below(10)) {
      case 0: { size_t b = s.rfind(';', d.first); size_t o = s.rfind('{', d.first); b = std::max(b == std::string::npos ? 0 : b, o == std::string::npos ? 0 : o); s.erase(b + 1, d.second - b); break; }   // declaration gone
      case 1: { auto f = r.pick(decl); std::string v = s.substr(f.first, f.second - f.first); s.replace(d.first, d.second - d.first, v.find("lsys") == 0 ? "tree" : v); break; }   // value of another one
      case 2: s.insert(r.below(s.size()), r.pick(std::vector<std::string>{"{", "}", ";", ":", "[", "]", "(", ")", "\"", "'", "|z", "@", "!", ",", "::", "/*", "*/", "//", "\xff", "eval(", "url("})); break;
      case 3: { size_t a = r.below(s.size()); if (!isdigit((unsigned char) s[a]) && s[a] != '.') s.erase(a, 1); break; }
      default: s.replace(d.first, d.second - d.first, hostileValue(r, ""));
    }
  }
  return s;
}
bool cheap(const std::string &sheet) {   // no cell, step or triangle size which makes meshes of millions of triangles
  auto least = [&](const std::string &key, double lo) { size_t at = 0; while ((at = sheet.find(key + ":", at)) != std::string::npos) { at += key.size() + 1; double d = strtod(sheet.c_str() + at, nullptr); if (d > 0 && d < lo) return false; } return true; };
  return least("grid-cell-size", 2) && least("max-area", 0.2) && least("step", 0.5) && least("length", 0.5) && least("tree-frequency", 0);
}
void styles(vf::Ctx &c) {
  World w(c); auto &r = c.rng;
  for (int i = 0; i < 3; ++i) {
    std::string d = w.dir + "/st" + std::to_string(i), good = scene::customSheet(r, 1, 19), sheet = good; scene::writeStyleDir(d, good); vf::spit(d + "/tree.lsys", OneTree);
    std::string shown;
    switch (r.below(6)) {
      case 0: { std::string l = r.chance(0.5) ? OneTree : vf::slurp(d + "/lamp.lsys"); std::string orig = l;
        for (size_t k = 0, n = 1 + r.below(3); k < n; ++k) switch (r.below(6)) {
          case 0: { static const std::vector<std::string> t = {"generations: 0", "generations: -1", "generations: abc", "generations:", "angle: nan", "angle: -1e300", "scale: 0", "scale: -3", "scale: nan", "scale: inf", "axiom:", "axiom: ]", "axiom: [", "axiom: ] ] ] [", "root ->", "-> root", "root -> ]", "root -> [ [ [ [ F", "root (0.5) -> cylinder", "root (-1) -> cylinder", "root (0) -> F", "root (nan) -> F", "root (1e300) -> F", "[ -> F", "] -> ]", "+ -> - F", "F -> sphere ] ]", "foliage -> nosuch"}; std::string t1 = r.pick(t); size_t b = l.find(t1.substr(0, t1.find_first_of(":("))); if (b != std::string::npos && t1.find(':') != std::string::npos) { size_t e = l.find('\n', b); l.replace(b, e - b, t1); } else l += t1 + "\n"; break; }
          case 1: { size_t a = r.below(l.size()); if (!isdigit((unsigned char) l[a])) l.erase(a, 1); break; }
          case 2: l.insert(r.below(l.size()), r.pick(std::vector<std::string>{"[", "]", "->", "\n", " ", ":", "(", ")", "\xff", "! ", "G ", "$ ", "+ "})); break;
          case 3: l = l.substr(0, r.below(l.size())); break;
          case 4: { auto b = l.find('\n', r.below(l.size())); if (b != std::string::npos) { auto e = l.find('\n', b + 1); if (e != std::string::npos) l.erase(b, e - b); } break; }
          default: { size_t b = l.find("generations:"); if (b == std::string::npos) break; size_t e = l.find('\n', b); l.replace(b, e - b, "generations: " + r.pick(std::vector<std::string>{"1", "2", "3", "4", "0", "-5", "99999999999"})); } }
        auto gen = l.find("generations:"); if (gen != std::string::npos && atol(l.c_str() + gen + 12) > 6 && atof(l.c_str() + gen + 12) < 1e9) l = orig;   // a lot of generations is a lot of work
        vf::spit(d + "/tree.lsys", l); shown = l; c.count("lsystems"); break; }
      case 1: { std::string t = vf::slurp(d + "/atlas.txt"); t = r.chance(0.5) ? swapNumbers(r, t) : mutateBytes(r, t, true); vf::spit(d + "/" + (r.chance(0.7) ? "atlas.txt" : "single.txt"), t); shown = t; c.count("atlases"); break; }
      default: do sheet = mutateSheet(r, good); while (!cheap(sheet)); c.count("sheets"); shown = sheet;
    }
    vf::spit(d + "/index.mapcss", sheet); c.distinct(shown); w.trace += shown.substr(0, 1000) + "\n"; if (c.replay) std::cerr << shown << std::endl;
    for (auto &m : w.feats(8)) { if (m.kind == RELATION) continue; Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]); Tags t = m.tags; if (r.chance(0.2) && !t.empty()) t[r.below(t.size())].second = r.pick(hostileNumbers()); std::string st = r.chance(0.7) ? w.style : d + "/index.mapcss"; w.call("add", [&](api::Result &x) { api::addElement(x, "mem", st, m.id, p, t, 16, 16); }); }
    w.load(d + "/index.mapcss", w.q);
  }
  w.alive(); c.sample(w.trace);
}
// values of tags which the style reads as numbers, directions and kinds
void values(vf::Ctx &c) {
  World w(c); auto &r = c.rng; static const std::vector<std::string> dflt = {"height", "min_height", "building:levels", "roof:height", "roof:direction", "building:colour", "roof:colour", "width", "lanes", "roof:shape", "building:shape", "ele"};
  bool custom = r.chance(0.6); std::string st = custom ? w.style : api::DefaultStyle; size_t n = 0;
  if (!custom) { copyTree("/repo/unity/demo/Assets/StreamingAssets/mapcss/default", w.dir + "/def"); st = w.dir + "/def/index.mapcss"; }
  for (auto &m : w.feats(12)) {
    if (m.kind == RELATION) continue; Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]); Tags t = custom ? m.tags : scene::some(r, m.kind == AREA ? scene::areaTags() : m.kind == WAY ? scene::lineTags() : scene::nodeTags());
    if (custom) { for (auto &x : t) if (r.chance(0.4)) x.second = r.pick(hostileNumbers()); } else for (size_t i = 0, k = 1 + r.below(3); i < k; ++i) t.push_back({r.pick(dflt), r.chance(0.8) ? r.pick(hostileNumbers()) : r.pick(std::vector<std::string>{"north", "NNE", "#ffffffffff", "mansard", "10 m", "10'", "5;6"})});
    std::string s; for (auto &x : t) s += x.first + "=" + x.second + ";"; c.distinct(s); c.count("valued_elements"); ++n;
    w.call("add " + s, [&](api::Result &x) { api::addElement(x, "mem", st, m.id, p, t, 16, 16); });
  }
  w.load(st, w.q); w.alive(); c.sample(w.trace);
}

// ---- elevation data ----
void elevation(vf::Ctx &c) {
  World w(c); auto &r = c.rng; std::string idx = w.dir + "/index/data/"; QuadKey q = w.q; if (r.chance(0.5)) { int up = (int) r.below(6); q = QuadKey(16 - up, q.tileX >> up, q.tileY >> up); }
  int ele = r.chance(0.5) ? api::GRID : api::SRTM; BoundingBox b = GeoUtils::quadKeyToBoundingBox(q);
  if (ele == api::GRID) {
    std::string code = GeoUtils::quadKeyToString(q), path = idx + std::to_string(q.levelOfDetail); vf::mkdirs(path);
    int res = (int) r.below(12); std::ostringstream t; t << res; for (int i = 0; i < res * res; ++i) t << (r.chance(0.5) ? " " : "\n") << r.range(-10, 500);
    std::string s = t.str();
    switch (r.below(6)) { case 0: s = mutateBytes(r, s, true); break; case 1: s = swapNumbers(r, s, 2); break; case 2: s = r.pick(hostileNumbers()) + s.substr(s.find_first_of(" \n") == std::string::npos ? s.size() : s.find_first_of(" \n")); break; case 3: s = s.substr(0, r.below(s.size() + 1)); break; case 4: s = ""; break; default:; }
    vf::spit(path + "/" + code + ".ele", s); w.trace += "grid " + show(s, 200) + "\n"; c.distinct(s);
  } else {
    vf::mkdirs(idx);
    for (double la : {b.minPoint.latitude, b.maxPoint.latitude}) for (double lo : {b.minPoint.longitude, b.maxPoint.longitude}) {
      int y = (int) std::floor(la), x = (int) std::floor(lo); char nm[40]; snprintf(nm, sizeof nm, "%c%02d%c%03d.hgt", y < 0 ? 'S' : 'N', std::abs(y), x < 0 ? 'W' : 'E', std::abs(x));
      size_t n = r.pick(std::vector<size_t>{0, 1, 2, 3, 7, 8, 100, 18, 32, 20402, 1201 * 2402, 1201 * 2402 - 1, 1201 * 2402 + 1, 1000000}); std::string s(n, 0); for (size_t i = 0; i < n; i += 1 + n / 500) s[i] = (char) r.below(256); vf::spit(idx + nm, s); w.trace += std::string(nm) + " " + std::to_string(n) + " bytes\n"; c.distinct(nm + std::to_string(n));
    }
  }
  for (auto &m : w.feats(4)) { if (m.kind == RELATION) continue; Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]); w.call("add", [&](api::Result &x) { api::addElement(x, "mem", w.style, m.id, p, m.tags, q.levelOfDetail, q.levelOfDetail); }); }
  for (int i = 0; i < 8; ++i) { auto p = scene::pick(r, b, r.chance(0.7) ? 0 : 2); if (r.chance(0.2)) (r.chance(0.5) ? p.first : p.second) = hostileDouble(r); if (r.chance(0.2)) p = {r.chance(0.5) ? b.minPoint.latitude : b.maxPoint.latitude, r.chance(0.5) ? b.minPoint.longitude : b.maxPoint.longitude};
    w.call("elevation " + num(p.first) + "," + num(p.second), [&](api::Result &) { getElevationByQuadKey(q.tileX, q.tileY, q.levelOfDetail, ele, p.first, p.second); }); c.count("elevations"); }
  w.load(w.style, q, ele); c.count(ele == api::GRID ? "grid_files" : "srtm_files"); w.alive(); c.sample(w.trace);
}

// ---- arguments ----
void arguments(vf::Ctx &c) {
  World w(c); auto &r = c.rng; std::string st = w.style, bad = w.dir + "/nosuch.mapcss";
  auto d = [&](double good) { return r.chance(0.4) ? hostileDouble(r) : good; };
  auto in = [&](int good) { return r.chance(0.4) ? hostileInt(r) : good; };
  static const std::vector<std::string> words = {"", " ", "a", "water", "  a  b ", "\xff\xfe", "'\"", "%", "*", "!", "a,b;c", std::string(100000, 'a')};
  for (int i = 0; i < 12; ++i) {
    std::ostringstream o; o.precision(17); int which = (int) r.below(8);
    switch (which) {
      case 0: case 1: { std::vector<double> v; std::vector<std::string> ts; M m = scene::feature(r, w.b, 1); if (m.kind == RELATION) m = m.kids[0]; for (auto &p : m.pts) { v.push_back(r.chance(0.1) ? hostileDouble(r) : p.first); v.push_back(r.chance(0.1) ? hostileDouble(r) : p.second); } if (m.kind == AREA && r.chance(0.9)) { v.push_back(v[0]); v.push_back(v[1]); } if (r.chance(0.1)) v.clear(); if (r.chance(0.1) && !v.empty()) v.pop_back();
        for (auto &t : scene::customTags(r, m.kind)) { ts.push_back(t.first); ts.push_back(r.chance(0.2) ? r.pick(words) : t.second); } if (r.chance(0.1)) ts.push_back("odd"); if (r.chance(0.1)) ts = {"", ""}; std::vector<const char *> tp; for (auto &s : ts) tp.push_back(s.c_str());
        // an element over a large part of the world on a detailed level is a lot of work, not an error
        double mn[2] = {1e9, 1e9}, mx[2] = {-1e9, -1e9}; for (size_t k = 0; k + 1 < v.size(); ++k) { double x = v[k]; if (x == x) { mn[k % 2] = std::min(mn[k % 2], x); mx[k % 2] = std::max(mx[k % 2], x); } } bool all = mx[0] - mn[0] < 0.1 && mx[1] - mn[1] < 0.1;
        int lo = all && r.chance(0.7) ? 16 : in((int) r.range(1, 5)), hi = lo == 16 ? 16 : in(lo); if (!all && lo > 5 && lo < 20) lo = 5; if (!all && hi > 5 && hi < 20) hi = 5;
        o << "addElement"; for (double x : v) o << " " << x; o << " tags " << ts.size() << " lod " << lo << "-" << hi; std::string k = w.key(); std::uint64_t id = r.chance(0.2) ? (std::uint64_t) hostile64(r) : w.id++;
        w.call(o.str(), [&](api::Result &x) { api::Call cc(x); addDataInElement(k.c_str(), st.c_str(), id, v.data(), (int) v.size(), tp.data(), (int) tp.size(), lo, hi, api::onError, &x.token); }); break; }
      case 2: { int lod = in(16), x0 = in(w.q.tileX), y0 = in(w.q.tileY), el = in((int) r.below(3)); o << "load " << lod << "/" << x0 << "/" << y0 << " ele " << el; w.call(o.str(), [&](api::Result &x) { api::Call cc(x); x.keep = false; getDataByQuadKey(0, (r.chance(0.95) ? st : bad).c_str(), x0, y0, lod, el, api::onMesh, api::onElement, api::onError, &x.token); }); break; }
      case 3: { int lod = in(16), x0 = in(w.q.tileX), y0 = in(w.q.tileY); o << "hasData " << lod << "/" << x0 << "/" << y0; w.call(o.str(), [&](api::Result &) { hasData(x0, y0, lod); }); break; }
      case 4: { int lod = in(16), x0 = in(w.q.tileX), y0 = in(w.q.tileY), el = in((int) r.below(3)); double la = d(w.b.minPoint.latitude), lo = d(w.b.minPoint.longitude); o << "elevation " << lod << "/" << x0 << "/" << y0 << " ele " << el << " " << la << "," << lo; w.call(o.str(), [&](api::Result &) { getElevationByQuadKey(x0, y0, lod, el, la, lo); }); break; }
      case 5: { double a = d(w.b.minPoint.latitude), b = d(w.b.minPoint.longitude), e = d(w.b.maxPoint.latitude), f = d(w.b.maxPoint.longitude); int lo = in(16), hi = in(16); if (lo < 16 && hi > lo && hi <= 19) lo = hi; if (std::abs(e - a) > 0.2 || std::abs(f - b) > 0.2) { if (lo > 7 && lo < 20) lo = 7; if (hi > 7 && hi < 20) hi = 7; } std::string n = r.pick(words), an = r.pick(words), orr = r.pick(words); o << "text " << a << "," << b << "," << e << "," << f << " lod " << lo << "-" << hi; w.call(o.str(), [&](api::Result &x) { x.keep = false; api::text(x, n, an, orr, a, b, e, f, lo, hi); }); break; }
      case 6: { std::string f = w.file("xml", scene::toXml(w.feats(3))), k = w.key(); int lod = in(16), x0 = in(w.q.tileX), y0 = in(w.q.tileY); o << "importQuadKey " << lod << "/" << x0 << "/" << y0; w.call(o.str(), [&](api::Result &x) { api::Call cc(x); addDataInQuadKey(k.c_str(), st.c_str(), f.c_str(), x0, y0, lod, api::onError, &x.token); }); break; }
      default: { std::string f = w.file("xml", scene::toXml(w.feats(3))), k = w.key(); double a = d(w.b.minPoint.latitude), b = d(w.b.minPoint.longitude), e = d(w.b.maxPoint.latitude), g = d(w.b.maxPoint.longitude); int lo = in(4), hi = in(4); bool box = r.chance(0.5); o << (box ? "importBox " : "importRange ") << a << "," << b << "," << e << "," << g << " lod " << lo << "-" << hi; w.call(o.str(), [&](api::Result &x) { api::Call cc(x); if (box) addDataInBoundingBox(k.c_str(), st.c_str(), f.c_str(), a, b, e, g, lo, hi, api::onError, &x.token); else addDataInRange(k.c_str(), st.c_str(), f.c_str(), lo, hi, api::onError, &x.token); }); }
    }
    c.count("call:" + std::to_string(which)); c.distinct(o.str());
  }
  w.load(st, w.q); w.alive(); c.sample(w.trace);
}

// ---- damaged files of a persistent store ----
void stores(vf::Ctx &c) {
  World w(c); auto &r = c.rng; if (!w.disk) { w.e->persistent("disk"); w.disk = true; }
  for (auto &m : w.feats(6)) { if (m.kind == RELATION) continue; Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]); w.call("add", [&](api::Result &x) { api::addElement(x, "disk", w.style, m.id, p, m.tags, 16, 16); }); }
  // damaged bytes can be read as a valid element of any size: it is delivered, but a mesh of its terrain is a lot of work, not an error
  std::string raw = w.dir + "/raw.mapcss", sel; for (auto k : {"node", "way", "area", "relation"}) for (auto t : {"b", "w", "t", "lamp", "p", "l", "good"}) sel += (sel.empty() ? "" : ",") + std::string(k) + "|z1-19[" + t + "]";
  vf::spit(raw, sel + " { clip: false; builder: x; }\n");
  w.e->close(); std::string base = w.dir + "/data/16/" + GeoUtils::quadKeyToString(w.q);
  std::vector<std::string> files = {base + ".dat", base + ".idf", base + ".bmp", w.dir + "/index/string.idx", w.dir + "/index/string.dat"};
  for (size_t k = 0, n = 1 + r.below(2); k < n; ++k) { auto f = r.pick(files); std::string s = vf::slurp(f); if (s.empty()) continue; /* other bytes of elements turn a place into another one far away: that is a valid huge element */ switch (f == files[2] ? 0 : f == files[0] ? r.below(2) : r.below(4)) { case 0: s.resize(r.below(s.size())); break; case 1: { size_t at = r.below(s.size()); for (size_t i = at; i < at + 4 && i < s.size(); ++i) s[i] = (char) 0xff; break; } default: s = mutateBytes(r, s, false); } vf::spit(f, s); w.trace += "damaged " + f.substr(w.dir.size()) + "\n"; c.distinct(s); c.count("damaged_store_files"); }
  try { w.e.reset(new api::Engine(w.dir)); } catch (...) {}
  w.e->style(w.style); w.e->style(w.plain); w.e->style(raw); w.e->memory("mem"); w.e->persistent("disk"); enableMeshCache(0);
  w.load(raw, w.q); w.call("text", [&](api::Result &x) { x.keep = false; api::text(x, "", "water", "", w.b.minPoint.latitude, w.b.minPoint.longitude, w.b.maxPoint.latitude, w.b.maxPoint.longitude, 16, 16); });
  for (auto &m : w.feats(2)) { if (m.kind == RELATION) continue; Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]); w.call("add", [&](api::Result &x) { api::addElement(x, "disk", w.style, m.id, p, m.tags, 16, 16); }); }
  w.load(raw, w.q); c.sample(w.trace);
}
}
int main(int argc, char **argv) {
  return vf::main(argc, argv, {{"pbf", 500, 20000, pbf, 120}, {"xml", 500, 20000, xml, 120}, {"json", 400, 20000, json, 120}, {"shape", 700, 20000, shape, 120}, {"styles", 400, 12000, styles, 240}, {"values", 300, 8000, values, 120},
    {"elevation", 400, 8000, elevation, 120}, {"arguments", 500, 15000, arguments, 120}, {"stores", 300, 8000, stores, 120}});
}
