// C20: errors stay inside the call that caused them.
#include "engine.hpp"
#include "fault.hpp"
#include "osm.hpp"

namespace {
enum { OK, FAIL, EITHER };
struct Call { std::string what; int expect; bool query; std::function<void(api::Result &)> run; };

struct Gen {
  vf::Ctx &c; vf::Rng &r; std::string files; QuadKey q; BoundingBox b; std::string good, boom; std::uint64_t id = 1; int n = 0; bool disk = true, grid = false;
  std::vector<QuadKey> tiles;
  explicit Gen(vf::Ctx &c) : c(c), r(c.rng) {
    files = vf::freshDir(c, "files");
    q = GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(r.real(-60, 60), r.real(-170, 170)), 15); b = GeoUtils::quadKeyToBoundingBox(q);
    std::string sheet = scene::customSheet(r, 14, 16) + "area|z14-16[boom],node|z14-16[boom] { builder: place; clip: false; }\n";
    scene::writeStyleDir(files + "/good", sheet); vf::spit(files + "/good/tree.lsys", OneTree); good = files + "/good/index.mapcss";
    scene::writeStyleDir(files + "/boom", sheet + (r.chance(0.5) ? "area|z14-16[boom] { building: true; builder: building; height: 3m; facade-type: nosuch; roof-type: none; facade-color: red; roof-color: red; }\n" : "area|z14-16[boom] { builder: building; building: true; }\n"));
    vf::spit(files + "/boom/tree.lsys", OneTree); boom = files + "/boom/index.mapcss";
    for (int dx = 0; dx < 2; ++dx) for (int dy = 0; dy < 2; ++dy) tiles.push_back(QuadKey(16, q.tileX * 2 + dx, q.tileY * 2 + dy));
    tiles.push_back(q); tiles.push_back(QuadKey(14, q.tileX / 2, q.tileY / 2));
  }
  std::string file(const std::string &ext, const std::string &text) { std::string f = files + "/f" + std::to_string(n++) + "." + ext; vf::spit(f, text); return f; }
  M feature() { scene::Opt o; o.degenerate = 0; M m; do { m = scene::feature(r, b, id++, o); } while (m.kind == RELATION); m.tags = r.chance(0.3) ? Tags{{"p", "w" + std::to_string(r.below(20))}} : scene::customTags(r, m.kind); return m; }
  std::string xml() { std::vector<M> v; for (size_t i = 0, k = 1 + r.below(4); i < k; ++i) v.push_back(feature()); return scene::toXml(v); }
  std::string json() {
    std::string s = "{\"pois\":{\"type\":\"FeatureCollection\",\"features\":[";
    for (size_t i = 0, k = 1 + r.below(4); i < k; ++i) { auto p = scene::pick(r, b, -0.1); s += (i ? ",\n" : "") + std::string("{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[") + num(p.second) + "," + num(p.first) + "]},\"properties\":{\"id\":" + std::to_string(id++) + ",\"p\":\"j" + std::to_string(r.below(20)) + "\"}}"; }
    return s + "]}}";
  }
  std::string pbf() {
    osm::Data d; for (size_t i = 0, k = 1 + r.below(6); i < k; ++i) { auto p = scene::pick(r, b, -0.1); d.nodes.push_back({id++, (std::int64_t) (p.first * 1e7), (std::int64_t) (p.second * 1e7), {{"p", "b" + std::to_string(r.below(20))}}}); }
    return osm::pbf(d, r, osm::pbfOptions(r));
  }
  std::string content(const std::string &ext) { return ext == "xml" ? xml() : ext == "json" ? json() : pbf(); }
  std::string ext() { return r.pick(std::vector<std::string>{"xml", "json", "pbf"}); }
  std::string key() { return disk && r.chance(0.5) ? "disk" : "mem"; }
  // imports the file in one of the three ways
  Call import(const std::string &what, int expect, const std::string &path, const std::string &style, std::string key = "") {
    if (key.empty()) key = this->key();
    int way = (int) r.below(3), lo = (int) r.range(14, 16), hi = (int) r.range(lo, 16); QuadKey t = r.pick(tiles); BoundingBox bb = b;
    return {what + " (import " + std::to_string(way) + " " + path + " into " + key + ")", expect, false, [=](api::Result &x) { if (way == 0) api::addFile(x, key, style, path, lo, hi); else if (way == 1) api::addFile(x, key, style, path, t); else api::addFile(x, key, style, path, bb, lo, hi); }};
  }
  Call addElement(const std::string &what, int expect, const std::string &style, const std::string &key, int lo = 14, int hi = 16) {
    M m = feature(); Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]);
    return {what + " (add " + dump(m).substr(0, 90) + " into " + key + ")", expect, false, [=](api::Result &x) { api::addElement(x, key, style, m.id, p, m.tags, lo, hi); }};
  }
  Call load(const std::string &what, int expect, const std::string &style, int ele = api::FLAT) {
    QuadKey t = r.pick(tiles); return {what + " (load " + qk(t) + ")", expect, true, [=](api::Result &x) { api::load(x, style, t, ele); }};
  }
  Call text(int expect = OK) {
    std::string w = std::string(1, "wjb"[r.below(3)]) + std::to_string(r.below(20)), o = r.chance(0.3) ? "j1 j2 j3 b1 b2 w3" : "", nt = r.chance(0.3) ? "w5 j5" : ""; BoundingBox bb = b; if (r.chance(0.5)) w = "p";
    return {"text search " + w, expect, true, [=](api::Result &x) { api::text(x, nt, w, o, bb.minPoint.latitude, bb.minPoint.longitude, bb.maxPoint.latitude, bb.maxPoint.longitude, 14, 16); }};
  }
  std::string sheetDir(const std::string &sheet) { std::string d = files + "/s" + std::to_string(n++); scene::writeStyleDir(d, sheet); vf::spit(d + "/tree.lsys", OneTree); return d; }
  // a stylesheet which cannot be used
  std::string badStyle(std::string &what) {
    std::string s = vf::slurp(good);
    switch (r.below(8)) {
      case 0: what = "missing stylesheet"; return files + "/nosuch" + std::to_string(n++) + ".mapcss";
      case 1: { what = "syntax error"; static const std::vector<std::string> e = {"node|z1-19[ { x: y; }", "node|z1-19[p] { x: y; ", "{ a: b; }", "node[p] { x: y; }", "node|z1-19[p] { : y; }"}; return sheetDir(s + r.pick(e)) + "/index.mapcss"; }
      case 2: what = "missing import"; return sheetDir("@import url(\"nosuch.mapcss\");\n" + s) + "/index.mapcss";
      case 3: what = "missing L-system"; return sheetDir("@lsystem url(\"nosuch.lsys\");\n" + s) + "/index.mapcss";
      case 4: what = "missing texture"; return sheetDir("@texture url(\"nosuch.txt\");\n" + s) + "/index.mapcss";
      case 5: { what = "bad import"; std::string d = sheetDir("@import url(\"more.mapcss\");\n" + s); vf::spit(d + "/more.mapcss", "node|z1-19[p { }"); return d + "/index.mapcss"; }
      case 6: { what = "bad L-system"; std::string d = sheetDir(s); vf::spit(d + "/tree.lsys", r.chance(0.5) ? "axiom" : "generations: x\nangle: 1\nscale: 1\naxiom: A\nA -> F\n"); return d + "/index.mapcss"; }
      default: { what = "bad texture"; std::string d = sheetDir(s); vf::spit(d + "/single.txt", "a,b\n"); return d + "/index.mapcss"; }
    }
  }
  Call bad() {
    std::string e = ext(), t;
    switch (r.below(15)) {
      case 0: return r.chance(0.5) ? addElement("unknown store", FAIL, good, "nosuch") : import("unknown store", FAIL, file(e, content(e)), good, "nosuch");
      case 1: { e = r.pick(std::vector<std::string>{"xml", "json", "pbf", "shp"}); return import("missing " + e, FAIL, files + "/missing" + std::to_string(n++) + "." + e, good); }
      case 2: { t = content(e); size_t cut = e == "pbf" ? 1 + r.below(20) : 3 + r.below(t.size() - 10); return import("truncated " + e, FAIL, file(e, t.substr(0, t.size() - cut)), good); }
      case 3: { for (size_t i = 0, k = 5 + r.below(200); i < k; ++i) t += (char) r.below(256); return import("garbage " + e, FAIL, file(e, (e == "pbf" ? "\x7f\xff\xff\xff" : "!") + t), good); }
      case 4: return import("unknown format", FAIL, file(r.pick(std::vector<std::string>{"txt", "osm", "x", "xmlx"}), content(e)), good);
      case 5: { t = content(e); for (size_t i = 0, k = 1 + r.below(4); i < k; ++i) t[r.below(t.size())] = (char) (e == "pbf" ? r.below(256) : " <>\"{}[]/\\a0"[r.below(12)]); return import("damaged " + e, EITHER, file(e, t), good); }
      case 6: { std::string w; std::string s = badStyle(w); return addElement(w, FAIL, s, key()); }
      case 7: { std::string w; std::string s = badStyle(w); return import(w, FAIL, file(e, content(e)), s); }
      case 8: { std::string w; std::string s = badStyle(w); return load(w, FAIL, s); }
      case 9: { auto k = key(); auto st = good; bool verts = r.chance(0.5); int vn = verts ? r.pick(std::vector<int>{0, 1, 3, 5}) : 4, tn = verts ? 2 : r.pick(std::vector<int>{1, 3}); auto p = scene::pick(r, b, -0.2); std::uint64_t i = id++;
        return {"odd arrays " + std::to_string(vn) + "/" + std::to_string(tn), FAIL, false, [=](api::Result &x) { api::Call cc(x); double v[6] = {p.first, p.second, p.first + 1e-4, p.second, p.first, p.second + 1e-4}; const char *tg[4] = {"p", "w1", "k", "v"}; addDataInElement(k.c_str(), st.c_str(), i, v, vn, tg, tn, 14, 16, api::onError, &x.token); }}; }
      case 10: return addElement("unsupported level", FAIL, good, key(), r.pick(std::vector<int>{-1, 20, 100, 14}), r.pick(std::vector<int>{20, 30, -1}));
      case 11: return load("builder fails", EITHER, boom);
      case 12: return load("no elevation data", EITHER, good, api::GRID);
      case 13: { e = "shp"; for (size_t i = 0, k = r.below(200); i < k; ++i) t += (char) r.below(256); std::string f = file("shp", t); if (r.chance(0.5)) vf::spit(f.substr(0, f.size() - 3) + "shx", t); if (r.chance(0.5)) vf::spit(f.substr(0, f.size() - 3) + "dbf", t); return import("garbage shp", FAIL, f, good); }
      default: { t = e == "pbf" ? "" : r.pick(std::vector<std::string>{"", " ", "\n"}); return import("empty " + e, EITHER, file(e, t), good); }
    }
  }
  Call goodCall() {
    std::string e = ext();
    switch (r.below(8)) {
      case 0: case 1: return addElement("add", OK, r.chance(0.9) ? good : boom, key());
      case 2: case 3: return import("good " + e, OK, file(e, content(e)), good);
      case 4: case 5: return load("load", OK, good);
      case 6: return text();
      default: { QuadKey t = r.pick(tiles); double la = r.real(b.minPoint.latitude, b.maxPoint.latitude), lo = r.real(b.minPoint.longitude, b.maxPoint.longitude); bool has = r.chance(0.7); auto *cc = &c;
        return {"state", OK, true, [=](api::Result &x) { (void) cc; if (has) x.order.push_back(10 + hasData(t.tileX, t.tileY, t.levelOfDetail)); else if (getElevationByQuadKey(t.tileX, t.tileY, t.levelOfDetail, api::FLAT, la, lo) != 0) x.order.push_back(20); }}; }
    }
  }
  // an element on which the other stylesheet fails
  Call mine() { auto p = scene::pick(r, b, -0.3); double d = b.height() * 0.05; Coords pts{{p.first, p.second}, {p.first, p.second + d}, {p.first + d, p.second + d}, {p.first + d, p.second}, {p.first, p.second}}; std::uint64_t i = id++; auto k = key(), s = good; return {"add mine", OK, false, [=](api::Result &x) { api::addElement(x, k, s, i, pts, {{"boom", "1"}}, 14, 16); }}; }
};
Lines outcome(const api::Result &x, bool rounded) {
  Lines v = delivered(x);
  if (rounded) { api::Result y = x; for (auto &m : y.meshes) for (auto *a : {&m.v, &m.uv}) for (auto &d : *a) d = (float) d; v = delivered(y); }
  for (int o : x.order) if (o >= 10) v.push_back("state " + std::to_string(o));
  return v;
}

void calls(vf::Ctx &c) {
  Gen g(c); auto &r = c.rng;
  std::vector<Call> plan; g.disk = r.chance(0.7); bool cache = r.chance(0.3);
  plan.push_back(g.mine());
  for (size_t i = 0, n = 6 + r.below(25); i < n; ++i) plan.push_back(r.chance(0.45) ? g.bad() : g.goodCall());
  for (auto &t : g.tiles) { auto s = g.good; plan.push_back({"final load " + qk(t), OK, true, [=](api::Result &x) { api::load(x, s, t); }}); }
  for (int i = 0; i < 3; ++i) plan.push_back(g.text());
  std::string trace; std::vector<bool> failed; std::vector<Lines> first;
  { std::string dir = vf::freshDir(c, "a"); api::Engine e(dir); e.style(g.good); e.style(g.boom); e.memory("mem"); if (g.disk) e.persistent("disk"); enableMeshCache(cache);
    for (auto &p : plan) {
      api::Result x; std::string escaped;
      try { p.run(x); } catch (const std::exception &ex) { escaped = ex.what(); } catch (...) { escaped = "unknown"; }
      trace += (x.errors.empty() ? "ok    " : "ERROR ") + p.what + (x.errors.empty() ? "" : ": " + x.errors[0].substr(0, 200)) + "\n";
      std::string kind = p.what.substr(0, p.what.find(" ("));
      if (!escaped.empty()) c.violation("exception-escapes:" + kind, p.what + ": " + escaped + "\n" + trace);
      if (x.errors.size() > 1) c.violation("several-errors:" + kind, p.what + ": " + join(x.errors) + trace);
      if (p.expect == FAIL && x.errors.empty()) c.violation("not-reported:" + kind, p.what + " reported no error\n" + trace);
      if (p.expect == FAIL && x.deliveries) c.violation("delivered:" + kind, p.what + " delivered although it cannot succeed\n" + trace);
      if (p.expect == OK && !x.errors.empty()) c.violation("false-error:" + kind, p.what + ": " + x.errors[0] + "\n" + trace);
      if (!x.errors.empty() && x.errors[0].empty()) c.violation("empty-message:" + kind, p.what + "\n" + trace);
      if (p.expect != OK) { c.count("bad:" + kind.substr(0, kind.find(' ') == std::string::npos ? kind.size() : kind.size())); c.count(x.errors.empty() ? "hostile_accepted" : "errors_reported"); } else c.count("good_calls");
      failed.push_back(!x.errors.empty()); first.push_back(outcome(x, cache));
    } }
  { std::string dir = vf::freshDir(c, "b"); api::Engine e(dir); e.style(g.good); e.style(g.boom); e.memory("mem"); if (g.disk) e.persistent("disk"); enableMeshCache(cache);
    std::string content;
    for (size_t i = 0; i < plan.size(); ++i) {
      if (failed[i]) continue;
      api::Result x; try { plan[i].run(x); } catch (...) {}
      if (!x.errors.empty()) { c.violation("depends-on-failed-call:error", plan[i].what + ": " + x.errors[0] + " without the failed calls\n" + trace); break; }
      if (!plan[i].query) continue;
      c.count("compared"); Lines w = outcome(x, cache); for (auto &l : w) content += l;
      if (w != first[i]) { c.violation("depends-on-failed-call:" + what(w, first[i]), plan[i].what + ": " + diff(w, first[i]) + trace); break; }
    }
    if (!content.empty()) c.distinct(content); }
  c.sample(trace.substr(0, 1400));
}

// calls without a connection
void unconnected(vf::Ctx &c) {
  Gen g(c); auto &r = c.rng; std::string dir = vf::freshDir(c, "a"), trace;
  auto all = [&](const char *when) {
    for (size_t i = 0, n = 2 + r.below(8); i < n; ++i) {
      Call p = r.chance(0.5) ? g.bad() : g.goodCall(); api::Result x; std::string escaped;
      try { p.run(x); } catch (const std::exception &ex) { escaped = ex.what(); }
      trace += std::string(when) + ": " + p.what + (x.errors.empty() ? "" : ": " + x.errors[0]) + "\n"; c.count("unconnected_calls");
      c.check(escaped.empty(), "unconnected:exception-escapes", trace + escaped);
      if (p.what != "state") c.check(x.errors.size() == 1, "unconnected:errors", std::to_string(x.errors.size()) + " errors\n" + trace);
      c.check(x.deliveries == 0, "unconnected:delivered", trace);
    }
    api::Result x; api::Call cc(x); if (r.chance(0.5)) registerInMemoryStore("mem"); if (r.chance(0.5)) registerStylesheet(g.good.c_str(), api::onDir); if (r.chance(0.5)) enableMeshCache(1); if (r.chance(0.3)) registerPersistentStore("disk", (dir + "/data").c_str(), api::onDir);
  };
  for (size_t k = 0, rounds = 1 + r.below(3); k < rounds; ++k) {
    if (r.chance(0.7)) all("not connected");
    if (r.chance(0.5)) { // cannot be connected
      api::Result x; { api::Call cc(x); connect((dir + "/nosuch/index/").c_str(), api::onError); }
      c.count("failed_connects"); c.check(x.errors.size() == 1, "connect:not-reported", std::to_string(x.errors.size()) + " errors for a directory which does not exist");
      all("failed connect"); if (r.chance(0.5)) disconnect();
    }
    { api::Engine e(dir); c.check(e.last.errors.empty(), "connect:false-error", e.last.errors.empty() ? "" : e.last.errors[0]); e.style(g.good); e.memory("mem");
      api::Result a; api::addElement(a, "mem", g.good, 7, {{g.b.center().latitude + g.b.height() * 0.1, g.b.center().longitude + g.b.width() * 0.1}}, {{"p", "w1"}}, 15, 15);
      api::Result x; api::load(x, g.good, g.q); c.check(a.errors.empty() && x.errors.empty() && x.elems.size() == 1, "connect:unusable", "connected after failures, but the tile delivers " + std::to_string(x.elems.size()) + " elements\n" + trace);
      c.count("connected_after"); c.distinct(trace); }
  }
}

// writes fail for a while
void disk(vf::Ctx &c) {
  auto &r = c.rng; Gen g(c); std::string dir = vf::freshDir(c, "a"); bool cache = r.chance(0.5);
  struct Given { M m; bool sure; std::string word; }; std::vector<Given> given; std::string trace;
  auto canon = [](const M &m) { std::vector<std::string> t; for (auto &x : m.tags) t.push_back(x.first + "=" + x.second); std::sort(t.begin(), t.end()); std::ostringstream s; s.precision(17); s << m.id; for (auto &x : t) s << ' ' << x; for (auto &p : m.pts) s << ' ' << p.first << ' ' << p.second; if (m.kind == AREA) s << ' ' << m.pts[0].first << ' ' << m.pts[0].second; return s.str(); };
  auto canonE = [](const api::Elem &e) { std::vector<std::string> t; for (size_t i = 0; i + 1 < e.tags.size(); i += 2) t.push_back(e.tags[i] + "=" + e.tags[i + 1]); std::sort(t.begin(), t.end()); std::ostringstream s; s.precision(17); s << e.id; for (auto &x : t) s << ' ' << x; for (size_t i = 0; i + 2 < e.v.size(); i += 3) s << ' ' << e.v[i + 1] << ' ' << e.v[i]; return s.str(); };
  std::string style = g.files + "/p.mapcss"; vf::spit(style, "node|z14-16[u],way|z14-16[u],area|z14-16[u] { builder: place; clip: false; }\n");
  auto e = std::unique_ptr<api::Engine>(new api::Engine(dir));
  auto set = [&] { e->style(style); e->style(g.good); e->persistent("disk"); e->memory("mem"); enableMeshCache(cache); };
  set();
  auto look = [&](const char *when) {
    for (int lod = 14; lod <= 16; ++lod) {
      std::multiset<std::string> got; QuadKey q0 = GeoUtils::GeoCoordinateToQuadKey(g.b.minPoint, lod), q1 = GeoUtils::GeoCoordinateToQuadKey(g.b.maxPoint, lod); std::string err;
      for (int x = q0.tileX - 1; x <= q1.tileX + 1; ++x) for (int y = q1.tileY - 1; y <= q0.tileY + 1; ++y) { api::Result res; api::load(res, style, QuadKey(lod, x, y)); for (auto &m : res.errors) err += m; for (auto &el : res.elems) got.insert(canonE(el)); }
      if (!err.empty()) { c.violation(std::string("disk:load-fails:") + when, "level " + std::to_string(lod) + ": " + err + "\n" + trace); return; }
      std::set<std::string> may; for (auto &x : given) may.insert(canon(x.m));
      for (auto &x : given) if (x.sure) { c.count("disk_sure"); if (!got.count(canon(x.m))) { c.violation(std::string("disk:lost:") + when, "level " + std::to_string(lod) + ": added without error, not returned: " + canon(x.m).substr(0, 200) + "\n" + trace); break; } }
      for (auto &x : got) if (!may.count(x)) { c.violation(std::string("disk:unknown:") + when, "level " + std::to_string(lod) + ": " + x.substr(0, 200) + "\n" + trace); break; }
      for (int i = 0; i < 4 && !given.empty(); ++i) { auto &x = r.pick(given); if (!x.sure) continue; api::Result t; double m = 1e-3; api::text(t, "", x.word, "", g.b.minPoint.latitude - m, g.b.minPoint.longitude - m, g.b.maxPoint.latitude + m, g.b.maxPoint.longitude + m, lod, lod); bool f = t.errors.empty(); std::set<std::string> s; for (auto &el : t.elems) s.insert(canonE(el)); c.count("disk_words"); if (!f || s.size() != 1 || !s.count(canon(x.m))) { c.violation(std::string("disk:word-lost:") + when, "level " + std::to_string(lod) + ": " + x.word + " finds " + std::to_string(s.size()) + " elements" + (f ? "" : t.errors[0]) + "\n" + trace); break; } }
    }
  };
  std::vector<QuadKey> tiles = g.tiles; std::map<std::string, Lines> ref;
  std::vector<M> scenery; for (int i = 0; i < 3; ++i) scenery.push_back(g.feature());
  if (cache) { for (auto &m : scenery) { Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]); api::Result x; api::addElement(x, "mem", g.good, m.id, p, m.tags, 14, 16); }
    std::string d2 = vf::freshDir(c, "b"); e.reset();
    { api::Engine o(d2); o.style(g.good); o.memory("mem"); enableMeshCache(0); for (auto &m : scenery) { Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]); api::Result x; api::addElement(x, "mem", g.good, m.id, p, m.tags, 14, 16); }
      for (auto &t : tiles) { api::Result x; api::load(x, g.good, t); ref[qk(t)] = outcome(x, true); } }
    e.reset(new api::Engine(dir)); set(); for (auto &m : scenery) { Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]); api::Result x; api::addElement(x, "mem", g.good, m.id, p, m.tags, 14, 16); } }
  auto loadCached = [&](bool faulty) {
    QuadKey t = r.pick(tiles); api::Result x; api::load(x, g.good, t); fault::off(); trace += std::string("load ") + qk(t) + (faulty ? " while disk fails" : "") + (x.errors.empty() ? "" : ": " + x.errors[0]) + "\n"; c.count(faulty ? "loads_on_failing_disk" : "loads_after");
    if (x.errors.size() > 1 || (!faulty && !x.errors.empty())) c.violation("disk:load-errors", trace + join(x.errors));
    if (x.errors.empty()) { Lines l; for (auto &s : outcome(x, true)) { bool mine = false; for (auto &gx : given) if (s.find("element " + std::to_string(gx.m.id) + " ") == 0) mine = true; if (!mine) l.push_back(s); } if (l != ref[qk(t)]) c.violation(std::string("disk:load-content:") + (faulty ? "failing" : "after"), qk(t) + ": " + diff(ref[qk(t)], l) + trace); }
  };
  for (size_t step = 0, n = 5 + r.below(20); step < n && c.violations.size() < 3; ++step) {
    double x = r.real(); bool faulty = r.chance(0.4);
    if (cache && x < 0.25) { if (faulty) { long k = 1 + (long) r.below(12); fault::arm(fault::FAIL, k, k + (long) r.below(30), r.chance(0.5) ? ENOSPC : EIO); } loadCached(faulty); continue; }
    if (x < 0.85) {
      M m = g.feature(); for (auto &p : m.pts) { p.first = std::min(std::max(p.first, g.b.minPoint.latitude), g.b.maxPoint.latitude); p.second = std::min(std::max(p.second, g.b.minPoint.longitude), g.b.maxPoint.longitude); }
      if (r.chance(0.1) && m.kind == WAY) for (int i = 0; i < 900; ++i) m.pts.push_back(scene::pick(r, g.b, -0.1));
      std::string word = "u" + std::to_string(m.id) + "x" + std::to_string(r.below(1000)); m.tags = {{"u", word}}; if (r.chance(0.5)) m.tags.push_back({"k" + std::to_string(r.below(1000)), "v" + std::to_string(r.below(1000))});
      if (m.kind == WAY && m.pts.front() == m.pts.back()) continue;
      if (m.kind != NODE) { bool same = true; for (auto &p : m.pts) same &= p == m.pts[0]; if (same) continue; }
      Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]);
      long fired = 0;
      if (faulty) { long k = 1 + (long) r.below(40); fault::arm(fault::FAIL, k, k + (long) r.below(r.chance(0.5) ? 1 : 60), r.chance(0.5) ? ENOSPC : EIO); }
      api::Result res; api::addElement(res, "disk", style, m.id, p, m.tags, 14, 16);
      if (faulty) { fired = fault::st().fired; fault::off(); }
      trace += "add " + canon(m).substr(0, 60) + (fired ? " [" + std::to_string(fired) + " faults]" : "") + (res.errors.empty() ? "" : ": " + res.errors[0]) + "\n";
      c.count("disk_additions"); if (fired) { c.count("additions_with_faults"); c.distinct(trace); if (!res.errors.empty()) c.count("disk_errors_reported"); }
      if (res.errors.size() > 1) c.violation("disk:several-errors", join(res.errors) + trace);
      if (!fired && !res.errors.empty()) { c.violation("disk:error-afterwards", trace); }
      given.push_back({m, res.errors.empty(), word});
    } else if (x < 0.93) { look("same session"); trace += "look\n"; }
    else { e.reset(); e.reset(new api::Engine(dir)); set(); if (cache) for (auto &m : scenery) { Coords p = m.pts; if (m.kind == AREA) p.push_back(p[0]); api::Result q; api::addElement(q, "mem", g.good, m.id, p, m.tags, 14, 16); } trace += "reopen\n"; c.count("disk_reopened"); }
  }
  if (cache) loadCached(false);
  look("same session");
  e.reset(); e.reset(new api::Engine(dir)); set(); look("after reopening");
  c.sample(trace.substr(0, 1200));
}
}
int main(int argc, char **argv) { return vf::main(argc, argv, {{"calls", 500, 12000, calls, 120}, {"unconnected", 60, 1000, unconnected, 120}, {"disk", 300, 8000, disk, 120}}); }
