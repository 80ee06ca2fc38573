// C02: several threads on one instance; races are reported by ThreadSanitizer, what every operation delivers is
// compared with the same operation done alone in another instance.
#include "engine.hpp"
#include <atomic>
namespace {
struct Op { int kind; size_t style = 0, tile = 0; int ele = 0; std::string a, b; double lat = 0, lon = 0; M m; std::string file; };
struct Done { api::Result res; double value = 0; bool flag = false; };
enum { LOAD, TEXT, HEIGHT, HAS, ADD, FILE_, GROWN, KINDS };

void writeHgt(vf::Rng &r, const std::string &dir, int lat, int lon) {
  std::string s(1201 * 1201 * 2, '\0'); double f = r.real(0.001, 0.02), g = r.real(0.001, 0.02);
  for (int y = 0; y < 1201; ++y) for (int x = 0; x < 1201; ++x) { int h = (int) (200 + 90 * std::sin(x * f) + 80 * std::cos(y * g)); s[(y * 1201 + x) * 2] = (char) (h >> 8); s[(y * 1201 + x) * 2 + 1] = (char) h; }
  char n[32]; snprintf(n, sizeof n, "/N%02dE%03d.hgt", lat, lon); vf::mkdirs(dir); vf::spit(dir + n, s);
}

void mixed(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c); bool srtm = r.chance(0.2);
  scene::World w; w.custom = true; w.lod = (int) r.range(14, 16);
  double lat = srtm ? 52.3 : r.real(-70, 70), lon = srtm ? 13.4 : r.real(-160, 160);
  w.q = GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(lat, lon), w.lod); w.b = GeoUtils::quadKeyToBoundingBox(w.q);
  scene::writeStyleDir(dir + "/style", scene::customSheet(r, 1, 19)); vf::spit(dir + "/style/tree.lsys", OneTree); vf::spit(dir + "/style/lamp.lsys", OneTree);
  std::vector<std::string> styles{dir + "/style/index.mapcss"};
  if (r.chance(0.4)) { scene::writeStyleDir(dir + "/style2", scene::customSheet(r, 1, 19)); vf::spit(dir + "/style2/tree.lsys", OneTree); styles.push_back(dir + "/style2/index.mapcss"); }
  // tiles which are read only, and one which grows
  std::vector<QuadKey> tiles{w.q}; for (size_t i = 0, n = r.below(3); i < n; ++i) { QuadKey q = w.q; (i ? q.tileY : q.tileX) ^= 1; tiles.push_back(q); }
  QuadKey grow = w.q; grow.tileX += 8; BoundingBox gb = GeoUtils::quadKeyToBoundingBox(grow);
  std::vector<int> eles{api::FLAT}; if (r.chance(0.6)) eles.push_back(api::GRID); if (srtm) eles.push_back(api::SRTM);
  scene::Opt o; o.degenerate = 0; std::uint64_t id = 10; std::vector<M> feats;
  for (auto &q : tiles) for (size_t i = 0, n = r.range(1, 4); i < n; ++i) { M m = scene::feature(r, GeoUtils::quadKeyToBoundingBox(q), id++, o); m.tags = scene::customTags(r, m.kind); m.tags.push_back({"name", r.pick(std::vector<std::string>{"red house", "blue house", "green field"})}); feats.push_back(m); }
  auto point = [&](const BoundingBox &b, const std::string &text) { M m; m.kind = NODE; m.id = id++; m.pts = {scene::pick(r, b, -0.1)}; m.tags = {{"p", text}}; return m; };
  for (size_t i = 0, n = r.below(4); i < n; ++i) feats.push_back(point(gb, "first"));
  bool disk = r.chance(0.6), both = r.chance(0.4), cache = r.chance(0.4), registered = r.chance(0.7);
  std::string ctx = qk(w.q) + (disk ? " disk" : " memory") + (both ? "+other" : "") + (cache ? " cache" : "") + (registered ? "" : " style not registered") + "\n" + list(feats);
  // operations
  size_t threads = r.range(2, 5); std::vector<std::vector<Op>> ops(threads); std::vector<QuadKey> fresh; std::vector<Op> adds; int xml = 0;
  for (size_t t = 0; t < threads; ++t) for (size_t i = 0, n = r.range(2, 7); i < n; ++i) {
    Op p; static const int weight[] = {LOAD, LOAD, LOAD, LOAD, TEXT, TEXT, HEIGHT, HAS, ADD, ADD, FILE_, GROWN, GROWN}; p.kind = weight[r.below(13)];
    p.style = r.below(styles.size()); p.tile = r.below(tiles.size()); p.ele = r.pick(eles);
    if (p.kind == TEXT) { p.a = r.pick(std::vector<std::string>{"", "house", "red"}); p.b = p.a.empty() ? "red green blue" : ""; }
    if (p.kind == HEIGHT) { auto b = GeoUtils::quadKeyToBoundingBox(tiles[p.tile]); auto x = scene::pick(r, b, -0.1); p.lat = x.first; p.lon = x.second; }
    if (p.kind == ADD) { p.m = point(gb, "later " + std::to_string(id)); adds.push_back(p); }
    if (p.kind == FILE_) {
      QuadKey q = w.q; q.tileY += 8 + 4 * (int) (xml / 4); q.tileX += 4 * (xml % 4); ++xml; fresh.push_back(q); std::vector<M> v; auto b = GeoUtils::quadKeyToBoundingBox(q);
      for (size_t k = 0, m = r.range(1, 4); k < m; ++k) { M x = scene::feature(r, b, 5000 + id++, o); x.tags = scene::customTags(r, x.kind); v.push_back(x); }
      p.file = dir + "/new" + std::to_string(xml) + ".xml"; vf::spit(p.file, scene::toXml(v)); p.tile = fresh.size() - 1; adds.push_back(p);
    }
    ops[t].push_back(p);
  }
  auto open = [&](api::Engine &e) {
    auto data = [&](const std::string &key, bool d) { if (d) e.persistent(key, "data" + key); else e.memory(key); };
    data("a", disk); if (both) data("b", !disk);
    for (auto &q : tiles) if (eles.size() > 1) { vf::Rng r2(q.tileX * 31 + q.tileY); scene::gridFile(r2, e.dir + "/index", q); }
    { vf::Rng r2(7); scene::gridFile(r2, e.dir + "/index", grow); }
    if (srtm) { vf::Rng r2(9); writeHgt(r2, e.dir + "/index/data", 52, 13); if (w.lod < 15) for (int y = 51; y < 54; ++y) for (int x = 12; x < 15; ++x) if (y != 52 || x != 13) writeHgt(r2, e.dir + "/index/data", y, x); }
  };
  auto prepare = [&](api::Engine &e) { std::vector<M> x, y; for (size_t i = 0; i < feats.size(); ++i) (both && i % 3 == 0 ? y : x).push_back(feats[i]); fill(c, e.dir, styles[0], x, "a", w.lod, w.lod); if (both) fill(c, e.dir, styles[0], y, "b", w.lod, w.lod); };
  BoundingBox all = w.b; for (auto &q : tiles) { auto b = GeoUtils::quadKeyToBoundingBox(q); all.expand(b.minPoint); all.expand(b.maxPoint); }
  auto perform = [&](const Op &p, Done &d) {
    switch (p.kind) {
      case LOAD: api::load(d.res, styles[p.style], tiles[p.tile], p.ele); break;
      case GROWN: api::load(d.res, styles[p.style], grow, api::FLAT); break;
      case TEXT: api::text(d.res, "", p.a, p.b, all.minPoint.latitude, all.minPoint.longitude, all.maxPoint.latitude, all.maxPoint.longitude, w.lod, w.lod); break;
      case HEIGHT: d.value = getElevationByQuadKey(tiles[p.tile].tileX, tiles[p.tile].tileY, w.lod, p.ele, p.lat, p.lon); break;
      case HAS: d.flag = hasData(tiles[p.tile].tileX, tiles[p.tile].tileY, w.lod); break;
      case ADD: api::addElement(d.res, "a", styles[p.style], p.m.id, p.m.pts, p.m.tags, w.lod, w.lod); break;
      case FILE_: api::addFile(d.res, "a", styles[p.style], p.file, w.lod, w.lod); break;
    }
  };
  // alone, in another instance
  std::map<std::pair<size_t, size_t>, Done> want; Lines growBefore, growAfter; std::vector<Lines> freshWant;
  { api::Engine e(dir + "/alone"); open(e); for (auto &s : styles) e.style(s); enableMeshCache(0); prepare(e);
    { Done d; Op p; p.kind = GROWN; perform(p, d); growBefore = rounded(d.res); }
    for (size_t t = 0; t < threads; ++t) for (size_t i = 0; i < ops[t].size(); ++i) if (ops[t][i].kind <= HAS) { Done &d = want[{t, i}]; perform(ops[t][i], d); for (auto &m : d.res.errors) c.violation("alone/error", m + "\n" + ctx); }
    for (auto &p : adds) { Done d; perform(p, d); for (auto &m : d.res.errors) c.violation("alone/add-error", m + "\n" + ctx); }
    { Done d; Op p; p.kind = GROWN; perform(p, d); growAfter = rounded(d.res); }
    for (auto &q : fresh) { api::Result x; api::load(x, styles[0], q); freshWant.push_back(rounded(x)); } }
  // together
  std::vector<std::vector<Done>> got(threads); for (size_t t = 0; t < threads; ++t) got[t] = std::vector<Done>(ops[t].size());
  std::vector<std::string> thrown(threads);
  std::string orderSeen; std::atomic<int> seq{0}; std::vector<std::vector<std::pair<int, int>>> spans(threads);
  {
    api::Engine e(dir + "/together"); open(e); if (registered) for (auto &s : styles) e.style(s); else { std::vector<std::string> st; for (auto &s : styles) st.push_back(s); cache = false; }
    enableMeshCache(cache ? 1 : 0);
    if (registered) prepare(e); else { scene::writeStyleDir(dir + "/style0", vf::slurp(styles[0])); vf::spit(dir + "/style0/tree.lsys", OneTree); vf::spit(dir + "/style0/lamp.lsys", OneTree); std::swap(styles[0], orderSeen); styles[0] = dir + "/style0/index.mapcss"; prepare(e); styles[0] = orderSeen; orderSeen.clear(); }
    if (disk && r.chance(0.4)) { e.close(); e.open(); auto again = [&](const std::string &key, bool d) { if (d) e.persistent(key, "data" + key); else e.memory(key); }; again("a", disk); if (both) { again("b", !disk); std::vector<M> y; for (size_t i = 0; i < feats.size(); ++i) if (i % 3 == 0) y.push_back(feats[i]); } if (registered) for (auto &s : styles) e.style(s); enableMeshCache(cache ? 1 : 0); if (both) { std::vector<M> y; for (size_t i = 0; i < feats.size(); i += 3) y.push_back(feats[i]); fill(c, e.dir, styles[0], y, "b", w.lod, w.lod); } c.count("reopened"); }
    std::atomic<size_t> ready{0}; std::vector<std::thread> th;
    for (size_t t = 0; t < threads; ++t) th.emplace_back([&, t] {
      ready++; while (ready < threads) std::this_thread::yield();
      for (size_t i = 0; i < ops[t].size(); ++i) { int s = seq++; try { perform(ops[t][i], got[t][i]); } catch (const std::exception &x) { thrown[t] = x.what(); } spans[t].push_back({s, seq++}); }
    });
    for (auto &x : th) x.join();
    Done d; Op p; p.kind = GROWN; perform(p, d); c.check(rounded(d.res) == growAfter, "grown/final", diff(growAfter, rounded(d.res)) + ctx); for (auto &m : d.res.errors) c.violation("grown/error", m + "\n" + ctx);
    for (size_t i = 0; i < fresh.size(); ++i) { api::Result x; api::load(x, styles[0], fresh[i]); for (auto &m : x.errors) c.violation("fresh/error", m + "\n" + ctx); c.check(rounded(x) == freshWant[i], "added-file/" + what(freshWant[i], rounded(x)), diff(freshWant[i], rounded(x)) + ctx); }
  }
  size_t overlaps = 0; for (size_t a = 0; a < threads; ++a) for (size_t b = a + 1; b < threads; ++b) for (auto &x : spans[a]) for (auto &y : spans[b]) if (x.first < y.second && y.first < x.second) ++overlaps;
  c.count("overlapping_pairs", overlaps);
  for (size_t t = 0; t < threads; ++t) {
    if (!thrown[t].empty()) c.violation("together/exception", thrown[t] + "\n" + ctx);
    for (size_t i = 0; i < ops[t].size(); ++i) {
      auto &p = ops[t][i]; auto &g = got[t][i]; static const char *const names[] = {"load", "text", "height", "has", "add", "file", "grown"}; c.count(std::string("op:") + names[p.kind]);
      for (auto &m : g.res.errors) c.violation(std::string("together/error-") + names[p.kind], m + "\n" + ctx);
      c.check(g.res.wrongTag == 0, "together/tag", ctx);
      if (p.kind == GROWN) {
        Lines l = rounded(g.res), x, y; std::set_difference(l.begin(), l.end(), growAfter.begin(), growAfter.end(), std::back_inserter(x)); std::set_difference(growBefore.begin(), growBefore.end(), l.begin(), l.end(), std::back_inserter(y));
        c.check(x.empty() && y.empty(), "together/grown", std::to_string(x.size()) + " unknown, " + std::to_string(y.size()) + " missing" + (x.empty() ? "" : "\n" + x[0]) + "\n" + ctx);
        if (l.size() > growBefore.size() && l.size() < growAfter.size()) c.count("seen_while_growing");
        continue;
      }
      if (p.kind > HAS) continue;
      Done &wnt = want[{t, i}];
      if (p.kind == LOAD || p.kind == TEXT) { Lines a = rounded(wnt.res), b = rounded(g.res); if (!a.empty()) c.count("compared"); c.check(a == b, std::string("together/") + names[p.kind] + "/" + what(a, b), diff(a, b) + ctx); }
      if (p.kind == HEIGHT) c.check(g.value == wnt.value, "together/height", std::to_string(g.value) + " expected " + std::to_string(wnt.value) + "\n" + ctx);
      if (p.kind == HAS) c.check(g.flag == wnt.flag, "together/has", ctx);
    }
  }
  std::string il; for (size_t t = 0; t < threads; ++t) for (auto &x : spans[t]) il += std::to_string(t) + ":" + std::to_string(x.first) + "-" + std::to_string(x.second) + " ";
  c.distinct(il);
}
}
int main(int argc, char **argv) { return vf::main(argc, argv, {{"mixed", 220, 3000, mixed, 120}}); }
