// C06 / C07: tile addressing, which tiles an element lands in, and what clipping makes of it.
#include "el.hpp"
#include "scene.hpp"
#include "geo.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
using namespace el;
using utymap::utils::GeoUtils;
using utymap::LodRange;
namespace {
typedef geo::P P;
const double U = 1e-7;

// ---- addressing: web mercator in extended precision ----
long double lonOf(long x, int lod) { return x * (360.0L / (1L << lod)) - 180.0L; }
long double latOf(long y, int lod) { const long double pi = acosl(-1.0L); return atanl(sinhl(pi * (1.0L - 2.0L * y / (long double) (1L << lod)))) * 180.0L / pi; }
void address(vf::Ctx &c) {
  auto &r = c.rng;
  for (int k = 0; k < 200; ++k) {
    int lod = (int) r.range(1, 19); long n = 1L << lod;
    double lat, lon;
    switch (r.below(6)) {
      case 0: lat = (double) latOf(r.range(0, n), lod); lon = (double) lonOf(r.range(0, n), lod); break;                 // a corner of tiles
      case 1: lat = r.real(-85.0511287, 85.0511287); lon = (r.chance(0.5) ? -1 : 1) * (180 - r.real(0, 1e-5)); break;
      case 2: lat = (r.chance(0.5) ? -1 : 1) * (85.0511287 - r.real(0, 1e-5)); lon = r.real(-180, 180); break;
      case 3: lat = r.chance(0.5) ? 0 : r.real(-1e-9, 1e-9); lon = r.chance(0.5) ? 0 : r.real(-1e-9, 1e-9); break;
      default: lat = r.real(-85.0511287, 85.0511287); lon = r.real(-180, 180);
    }
    QuadKey q = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat, lon), lod);
    std::string at = num(lat) + " " + num(lon) + " at level " + std::to_string(lod) + " -> " + qk(q);
    c.count("coordinates");
    if (!c.check(q.levelOfDetail == lod && q.tileX >= 0 && q.tileX < n && q.tileY >= 0 && q.tileY < n, "address/range", at)) continue;
    BoundingBox b = GeoUtils::quadKeyToBoundingBox(q);
    const double e = 1e-9;
    c.check(geo::inBox(b, {lat, lon}, e), "address/outside-own-tile", at + " box " + num(b.minPoint.latitude) + " " + num(b.minPoint.longitude) + " " + num(b.maxPoint.latitude) + " " + num(b.maxPoint.longitude));
    c.check(std::abs(b.minPoint.longitude - (double) lonOf(q.tileX, lod)) < e && std::abs(b.maxPoint.longitude - (double) lonOf(q.tileX + 1, lod)) < e &&
            std::abs(b.maxPoint.latitude - (double) latOf(q.tileY, lod)) < e && std::abs(b.minPoint.latitude - (double) latOf(q.tileY + 1, lod)) < e, "address/box", at);
    // neighbours share their borders
    if (q.tileX + 1 < n) c.check(GeoUtils::quadKeyToBoundingBox(QuadKey(lod, q.tileX + 1, q.tileY)).minPoint.longitude == b.maxPoint.longitude, "address/gap", at);
    if (q.tileY + 1 < n) c.check(GeoUtils::quadKeyToBoundingBox(QuadKey(lod, q.tileX, q.tileY + 1)).maxPoint.latitude == b.minPoint.latitude, "address/gap", at);
    // the code: one digit per level, two bits of x and y each
    std::string s = GeoUtils::quadKeyToString(q); long x = 0, y = 0; bool ok = (int) s.size() == lod;
    for (char d : s) { ok &= d >= '0' && d <= '3'; x = 2 * x + ((d - '0') & 1); y = 2 * y + ((d - '0') >> 1); }
    c.check(ok && x == q.tileX && y == q.tileY, "address/code", at + " code " + s);
    c.distinct(s);
    // children partition their parent
    if (lod < 19) {
      QuadKey ch = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat, lon), lod + 1); BoundingBox cb = GeoUtils::quadKeyToBoundingBox(ch);
      double m = 1e-9; bool nearEdge = geo::boxDist(b, {lat, lon}) < m || geo::boxDist(cb, {lat, lon}) < m;
      c.check(nearEdge || (ch.tileX / 2 == q.tileX && ch.tileY / 2 == q.tileY), "address/child", at + " child " + qk(ch));
    }
    // enumeration of a box around
    double h = b.height(), w = b.width(), g = r.chance(0.2) ? 0 : std::exp(r.real(std::log(0.01), std::log(6)));
    BoundingBox box(GeoCoordinate(std::max(-89., lat - r.real() * g * h), std::max(-180., lon - r.real() * g * w)), GeoCoordinate(std::min(89., lat + r.real() * g * h), std::min(180., lon + r.real() * g * w)));
    if (box.minPoint.latitude > 85.05 || box.maxPoint.latitude < -85.05) continue;
    std::set<std::pair<int, int>> got; bool twice = false, wrongBox = false;
    GeoUtils::visitTileRange(box, lod, [&](const QuadKey &t, const BoundingBox &tb) {
      twice |= !got.insert({t.tileX, t.tileY}).second; BoundingBox o = GeoUtils::quadKeyToBoundingBox(t);
      wrongBox |= !(o.minPoint == tb.minPoint && o.maxPoint == tb.maxPoint) || t.levelOfDetail != lod;
    });
    std::string bs = qk(q) + " box " + num(box.minPoint.latitude) + " " + num(box.minPoint.longitude) + " " + num(box.maxPoint.latitude) + " " + num(box.maxPoint.longitude);
    c.check(!twice, "enumerate/twice", bs); c.check(!wrongBox, "enumerate/box", bs);
    int R = 9; c.count("boxes"); c.count("tiles_of_boxes", got.size());
    for (int y = std::max(0, q.tileY - R); y <= std::min<int>(n - 1, q.tileY + R); ++y) for (int x = std::max(0, q.tileX - R); x <= std::min<int>(n - 1, q.tileX + R); ++x) {
      double dx = std::min<double>(lonOf(x + 1, lod), box.maxPoint.longitude) - std::max<double>(lonOf(x, lod), box.minPoint.longitude);
      double dy = std::min<double>(latOf(y, lod), box.maxPoint.latitude) - std::max<double>(latOf(y + 1, lod), box.minPoint.latitude);
      bool in = dx > 1e-9 && dy > 1e-9, out = dx < -1e-9 || dy < -1e-9;
      if (g == 0) { in = dx > -1e-9 && dy > -1e-9 && (double) lonOf(x, lod) < lon - 1e-9 && (double) lonOf(x + 1, lod) > lon + 1e-9 && (double) latOf(y, lod) > lat + 1e-9 && (double) latOf(y + 1, lod) < lat - 1e-9; }
      bool has = got.erase({x, y}) != 0;
      if (in) c.check(has, "enumerate/missing", "tile " + std::to_string(x) + "/" + std::to_string(y) + " " + bs);
      if (out) c.check(!has, "enumerate/extra", "tile " + std::to_string(x) + "/" + std::to_string(y) + " " + bs);
    }
    for (auto &t : got) { double dx = std::min<double>(lonOf(t.first + 1, lod), box.maxPoint.longitude) - std::max<double>(lonOf(t.first, lod), box.minPoint.longitude), dy = std::min<double>(latOf(t.second, lod), box.maxPoint.latitude) - std::max<double>(latOf(t.second + 1, lod), box.minPoint.latitude); c.check(dx > -1e-9 && dy > -1e-9, "enumerate/far", bs); }
  }
}

// ---- elements ----
M shape(vf::Rng &r, const BoundingBox &b, std::uint64_t id, int depth) {
  scene::Opt o; double h = b.height(), w = b.width();
  M m; m.id = id;
  double rad = h * std::exp(r.real(std::log(0.02), std::log(r.chance(0.2) ? 6 : 1.5)));
  P ctr{r.real(b.minPoint.latitude - 0.3 * h, b.maxPoint.latitude + 0.3 * h), r.real(b.minPoint.longitude - 0.3 * w, b.maxPoint.longitude + 0.3 * w)};
  double x = r.real();
  auto ring = [&](P ctr, double rad) { Coords v = r.chance(0.3) ? scene::rect(r, ctr, rad) : scene::star(r, ctr, rad, 3 + r.below(r.chance(0.1) ? 200 : 12), r.chance(0.5) ? 0.2 : 0.8); return v; };
  if (x < 0.15) { m.kind = NODE; m.pts.push_back(ctr); }
  else if (x < 0.45) {
    m.kind = WAY; m.pts.push_back(ctr); double dir = r.real(0, 6.28); size_t n = 1 + r.below(r.chance(0.1) ? 60 : 7);
    for (size_t i = 0; i < n; ++i) { dir += r.real(-1.5, 1.5); double q = rad * r.real(0.1, 1); ctr = {ctr.first + q * std::sin(dir), ctr.second + q * std::cos(dir)}; m.pts.push_back(ctr); }
  } else if (x < 0.75 || depth == 0) {
    m.kind = AREA; for (int k = 0; k < 20; ++k) { m.pts = ring(ctr, rad); if (geo::simple(m.pts)) break; }
    if (!geo::simple(m.pts)) m.pts = scene::rect(r, ctr, rad);
    if (r.chance(0.4)) std::reverse(m.pts.begin(), m.pts.end());
  } else {
    m.kind = RELATION;
    if (r.chance(0.6)) {  // multipolygon: outer ring and holes around points inside
      M o; o.kind = AREA; o.id = id * 10; o.pts = scene::star(r, ctr, rad, 4 + r.below(12), 0.3); m.kids.push_back(o);
      size_t holes = r.below(4);
      for (size_t i = 0; i < holes; ++i) {
        double a = i * 6.283 / holes; M k; k.kind = AREA; k.id = id * 10 + 1 + i; k.pts = scene::star(r, {ctr.first + 0.35 * rad * std::sin(a), ctr.second + 0.35 * rad * std::cos(a)}, 0.2 * rad, 3 + r.below(6), 0.3);
        std::reverse(k.pts.begin(), k.pts.end()); m.kids.push_back(k);
      }
      if (r.chance(0.3)) r.shuffle(m.kids);
    } else { size_t n = 1 + r.below(4); for (size_t i = 0; i < n; ++i) m.kids.push_back(shape(r, b, id * 10 + i, depth - 1)); }
  }
  return m;
}
struct World {
  std::string dir; std::unique_ptr<ST> st; std::unique_ptr<utymap::index::ElementStore> store; std::unique_ptr<utymap::mapcss::StyleProvider> sp;
  int lod = 1; QuadKey q; BoundingBox b; std::vector<M> els; std::string sheet;
  struct Where { int l0, l1; int mode; BoundingBox box; QuadKey tile; bool stored = false; }; std::vector<Where> where;
};
// t: skipped at every third level; o: a rule at odd levels only; a: clip everywhere; n: never; p: accepted between z0 and z1 only; s: skipped; m: clipped at even levels only
int z0, z1;
std::string sheet() {
  std::string s;
  auto kinds = [&](const std::string &z, const std::string &sel, const std::string &body) { std::string o; for (auto k : {"node", "way", "area", "relation"}) o += (o.empty() ? "" : ",") + std::string(k) + "|" + z + "[" + sel + "]"; s += o + " { " + body + " }\n"; };
  kinds("z1-19", "k=a", "clip: true;"); kinds("z1-19", "k=n", "clip: false;");
  kinds("z" + std::to_string(z0) + "-" + std::to_string(z1), "k=p", "clip: true;"); kinds("z" + std::to_string(z0) + "-" + std::to_string(z1), "k=f", "builder: x;");
  kinds("z1-19", "k=s", "skip: true; clip: true;");
  kinds("z1-19", "k=m", "clip: false;"); for (int z = 2; z <= 19; z += 2) kinds("z" + std::to_string(z), "k=m", "clip: true;");
  for (int z = 1; z <= 19; ++z) { kinds("z" + std::to_string(z), "k=t", "clip: true;"); if (z % 3 == 0) kinds("z" + std::to_string(z), "k=t", "skip: true;"); if (z % 2) kinds("z" + std::to_string(z), "k=o", "clip: true;"); }
  return s;
}
bool accepts(const std::string &k, int lod) { return k == "a" || k == "n" || k == "m" || (k == "t" && lod % 3) || (k == "o" && lod % 2) || ((k == "p" || k == "f") && lod >= z0 && lod <= z1); }
bool clips(const std::string &k, int lod) { return k == "a" || k == "p" || k == "t" || k == "o" || (k == "m" && lod % 2 == 0); }

void build(vf::Ctx &c, World &w, bool onlyClip) {
  auto &r = c.rng;
  w.dir = vf::freshDir(c); w.st.reset(new ST(w.dir + "/"));
  bool disk = r.chance(0.3); if (disk) { makeDataDirs(w.dir); w.store.reset(new utymap::index::PersistentElementStore(w.dir, *w.st)); c.count("disk"); } else w.store.reset(new utymap::index::InMemoryElementStore(*w.st));
  w.lod = (int) r.range(2, 17);
  double lat = r.chance(0.1) ? (r.chance(0.5) ? 1 : -1) * r.real(80, 84.5) : r.real(-75, 75), lon = r.chance(0.1) ? (r.chance(0.5) ? 1 : -1) * r.real(175, 179.9) : r.real(-170, 170);
  if (r.chance(0.1)) lat = r.real(-0.01, 0.01); if (r.chance(0.1)) lon = r.real(-0.01, 0.01);
  w.q = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat, lon), w.lod); w.b = GeoUtils::quadKeyToBoundingBox(w.q);
  z0 = (int) r.range(1, 19); z1 = (int) r.range(z0, 19); if (r.chance(0.7)) { z0 = std::max(1, w.lod - (int) r.below(3)); z1 = std::min(19, w.lod + (int) r.below(3)); }
  w.sheet = sheet();
  w.sp.reset(new utymap::mapcss::StyleProvider(utymap::mapcss::MapCssParser().parse(w.sheet), *w.st));
  size_t n = 1 + r.below(onlyClip ? 6 : 10);
  for (size_t i = 0; i < n; ++i) {
    M m;
    for (int k = 0; k < 100; ++k) { m = shape(r, w.b, 1000 + i, 2); BoundingBox e; bounds(m, e); if (e.minPoint.latitude > -85.04 && e.maxPoint.latitude < 85.04 && e.minPoint.longitude > -179.99 && e.maxPoint.longitude < 179.99 && e.isValid()) break; m.pts.clear(); m.kids.clear(); }
    if (m.pts.empty() && m.kids.empty()) continue;
    m.tags = {{"k", onlyClip ? "a" : r.pick(std::vector<std::string>{"a", "n", "p", "f", "s", "m", "none", "a", "n", "t", "o"})}, {"n", word(r)}};
    std::function<void(M &)> kidTags = [&](M &x) { for (auto &k : x.kids) { if (r.chance(0.5)) k.tags = {{"role", word(r)}}; kidTags(k); } }; kidTags(m);
    sortTags(m, *w.st);
    World::Where h; h.l0 = std::max(1, w.lod - (int) r.below(3)); h.l1 = std::min(19, w.lod + (int) r.below(3)); h.mode = onlyClip ? 0 : (int) r.below(3); h.tile = w.q; h.box = w.b;
    auto e = make(m, *w.st);
    if (h.mode == 0) h.stored = w.store->store(*e, LodRange(h.l0, h.l1), *w.sp);
    else if (h.mode == 1) {
      double g = r.real(0.1, 3) * w.b.height(); P p = scene::pick(r, w.b, 1.5);
      h.box = BoundingBox(GeoCoordinate(p.first - g * r.real(), p.second - g * r.real()), GeoCoordinate(p.first + g * r.real(), p.second + g * r.real()));
      h.stored = w.store->store(*e, h.box, LodRange(h.l0, h.l1), *w.sp);
    } else { h.tile.tileX += (int) r.range(-1, 1); h.tile.tileY += (int) r.range(-1, 1); h.l0 = h.l1 = w.lod; h.stored = w.store->store(*e, h.tile, *w.sp); }
    w.els.push_back(m); w.where.push_back(h);
  }
  if (disk && r.chance(0.5)) static_cast<utymap::index::PersistentElementStore &>(*w.store).flush();
}
// does the geometry reach into the box? +1 yes, 0 no, -1 too close to tell
int reaches(const M &m, const BoundingBox &b) {
  double g = 5 * U; BoundingBox big(GeoCoordinate(b.minPoint.latitude - g, b.minPoint.longitude - g), GeoCoordinate(b.maxPoint.latitude + g, b.maxPoint.longitude + g)), small(GeoCoordinate(b.minPoint.latitude + g, b.minPoint.longitude + g), GeoCoordinate(b.maxPoint.latitude - g, b.maxPoint.longitude - g));
  switch (m.kind) {
    case NODE: return geo::inBox(small, m.pts[0]) ? 1 : geo::inBox(big, m.pts[0]) ? -1 : 0;
    case WAY: return geo::lengthInside(small, m.pts) > g ? 1 : geo::lengthInside(big, m.pts) > 0 ? -1 : 0;
    case AREA: return geo::areaInside(small, m.pts) > g * (geo::lengthInside(big, m.pts, true) + g) ? 1 : geo::lengthInside(big, m.pts, true) > 0 || geo::areaInside(big, m.pts) > g * b.height() * 1e-3 ? -1 : 0;
    default: { int best = 0; for (auto &k : m.kids) { int x = reaches(k, b); if (x == 1) return 1; if (x == -1) best = -1; } return best; }
  }
}
int overlaps(const BoundingBox &a, const BoundingBox &b) {
  double dx = std::min(a.maxPoint.longitude, b.maxPoint.longitude) - std::max(a.minPoint.longitude, b.minPoint.longitude), dy = std::min(a.maxPoint.latitude, b.maxPoint.latitude) - std::max(a.minPoint.latitude, b.minPoint.latitude);
  return dx > 1e-9 && dy > 1e-9 ? 1 : dx < -1e-9 || dy < -1e-9 ? 0 : a.width() * a.height() == 0 && dx >= 0 && dy >= 0 && std::max(a.minPoint.longitude, b.minPoint.longitude) > b.minPoint.longitude + 1e-9 && std::min(a.maxPoint.longitude, b.maxPoint.longitude) < b.maxPoint.longitude - 1e-9 && a.minPoint.latitude > b.minPoint.latitude + 1e-9 && a.maxPoint.latitude < b.maxPoint.latitude - 1e-9 ? 1 : -1;
}
std::string one(const M &m, const QuadKey &q, const World::Where &h) { return "tile " + qk(q) + ", mode " + std::to_string(h.mode) + " levels " + std::to_string(h.l0) + "-" + std::to_string(h.l1) + "\n" + dump(m); }
std::vector<M> readTile(World &w, const QuadKey &q) { Collector v(*w.st); utymap::CancellationToken t; w.store->search(q, v, t); return v.got; }
// all tiles around the elements at the levels used and one beyond
template<class F> void eachTile(World &w, const F &f) {
  BoundingBox all; for (auto &m : w.els) bounds(m, all);
  for (int lod = std::max(1, w.lod - 2); lod <= std::min(19, w.lod + 2); ++lod) {
    long n = 1L << lod; auto ty = [&](double lat) { return (long) ((1 - std::asinh(std::tan(lat * M_PI / 180)) / M_PI) / 2 * n); };
    long x0 = (long) ((all.minPoint.longitude + 180) / 360 * n) - 1, x1 = (long) ((all.maxPoint.longitude + 180) / 360 * n) + 1, y0 = ty(all.maxPoint.latitude) - 1, y1 = ty(all.minPoint.latitude) + 1;
    for (long y = std::max(0L, y0); y <= std::min(n - 1, y1); ++y) for (long x = std::max(0L, x0); x <= std::min(n - 1, x1); ++x) { QuadKey q(lod, (int) x, (int) y); f(q, GeoUtils::quadKeyToBoundingBox(q)); }
  }
}
void membership(vf::Ctx &c) {
  World w; build(c, w, false);
  if (w.els.empty()) return;
  std::vector<bool> anywhere(w.els.size(), false); std::vector<bool> doubt(w.els.size(), false);
  eachTile(w, [&](const QuadKey &q, const BoundingBox &b) {
    auto got = readTile(w, q); std::map<std::uint64_t, std::vector<const M *>> by; for (auto &g : got) by[g.id].push_back(&g);
    c.count("tiles"); bool any = !got.empty(); c.check(w.store->hasData(q) == any || any, "tiles/hasData", "tile " + qk(q));
    for (size_t i = 0; i < w.els.size(); ++i) {
      const M &m = w.els[i]; auto &h = w.where[i]; const std::string k = [&] { for (auto &t : m.tags) if (t.first == "k") return t.second; return std::string(); }();
      BoundingBox e; bounds(m, e);
      int want = 1;
      if (q.levelOfDetail < h.l0 || q.levelOfDetail > h.l1 || !accepts(k, q.levelOfDetail)) want = 0;
      else {
        want = overlaps(e, b); bool clip = clips(k, q.levelOfDetail);
        if (want == 1 && clip) want = reaches(m, b);
        if (h.mode == 2 && !(h.tile == q)) want = 0;
        if (h.mode == 1) { int o = overlaps(e, h.box); if (o == 0) want = 0; else if (o < 0 && want == 1) want = -1; }
      }
      auto it = by.find(m.id); size_t n = it == by.end() ? 0 : it->second.size();
      c.count(want == 1 ? "expected" : want == 0 ? "not_expected" : "at_border");
      if (want == 1) anywhere[i] = true; if (want < 0) doubt[i] = true;
      if (n > 1) c.violation("tiles/twice", one(m, q, h));
      if (want == 1 && !n) c.violation("tiles/missing", one(m, q, h));
      if (want == 0 && n) c.violation("tiles/extra", one(m, q, h));
      if (n == 1 && want == 1) {
        c.distinct(dump(m) + qk(q));
        if (!clips(k, q.levelOfDetail) || overlaps(e, b) == 1) {
          bool whole = !clips(k, q.levelOfDetail) || (e.minPoint.latitude > b.minPoint.latitude + U && e.maxPoint.latitude < b.maxPoint.latitude - U && e.minPoint.longitude > b.minPoint.longitude + U && e.maxPoint.longitude < b.maxPoint.longitude - U);
          bool wrap = m.kind == RELATION && m.kids.size() == 1 && clips(k, q.levelOfDetail);   // a relation of one member is stored as that member
          if (whole && !wrap && std::none_of(m.kids.begin(), m.kids.end(), [](const M &x) { return x.kind == RELATION; })) { c.count("whole"); if (dump(m) != dump(*it->second[0])) c.violation("tiles/changed", one(m, q, h) + "\nstored as\n" + dump(*it->second[0])); }
        }
      }
    }
  });
  for (size_t i = 0; i < w.els.size(); ++i) if (anywhere[i] && !w.where[i].stored) c.violation("tiles/reported-as-not-stored", dump(w.els[i]));
}
// ---- clipping ----
struct Sums { double len = 0, area = 0, per = 0; size_t nodes = 0; std::vector<const M *> areas, ways; };
void collect(const M &m, Sums &s, const BoundingBox *clip) {
  switch (m.kind) {
    case NODE: s.nodes += !clip || geo::inBox(*clip, m.pts[0]); break;
    case WAY: s.len += clip ? geo::lengthInside(*clip, m.pts) : geo::length(m.pts); s.ways.push_back(&m); break;
    case AREA: s.area += geo::area(clip ? geo::clipRing(*clip, m.pts) : m.pts); s.per += geo::length(m.pts, true); s.areas.push_back(&m); break;
    default: for (auto &k : m.kids) collect(k, s, clip);
  }
}
void eachPoint(const M &m, const std::function<void(P)> &f) { for (auto &p : m.pts) f(p); for (auto &k : m.kids) eachPoint(k, f); }
int winding(const std::vector<const M *> &areas, P p, double margin, bool &unsure) {
  int n = 0;
  for (auto *a : areas) { if (a->pts.empty()) continue; if (geo::lineDist(a->pts, p, true) < margin) unsure = true; if (geo::inside(a->pts, p)) n += geo::area(a->pts) > 0 ? 1 : -1; }
  return n;
}
void clipping(vf::Ctx &c) {
  auto &r = c.rng; World w; build(c, w, true);
  if (w.els.empty()) return;
  eachTile(w, [&](const QuadKey &q, const BoundingBox &b) {
    auto got = readTile(w, q);
    for (size_t i = 0; i < w.els.size(); ++i) {
      const M &m = w.els[i]; auto &h = w.where[i];
      if (q.levelOfDetail < h.l0 || q.levelOfDetail > h.l1) continue;
      const M *p = nullptr; for (auto &g : got) if (g.id == m.id) p = &g;
      M none; none.kind = RELATION; if (!p) p = &none;
      std::string ctx = one(m, q, h) + "\npiece " + dump(*p);
      if (p != &none) {
        c.count(std::string("pieces_") + kindName(m.kind)); c.distinct(dump(*p));
        double far = 0; eachPoint(*p, [&](P x) { if (!geo::inBox(b, x)) far = std::max(far, geo::boxDist(b, x)); });
        if (far > 2 * U) c.violation("pieces/outside-tile", "by " + num(far / U) + " units, " + ctx);
        // the tags are on the piece or, when it was cut into several, on each of them
        bool split = m.kind != RELATION && p->kind == RELATION; if (split) c.count("split");
        if (!split) { if (p->tags != m.tags) c.violation("pieces/tags", ctx); }
        else for (auto &k : p->kids) if (k.tags != m.tags) { c.violation("pieces/tags", ctx); break; }
        if (m.kind != RELATION) { bool k = p->kind == m.kind; if (split) { k = p->kids.size() > 1; for (auto &x : p->kids) k &= x.kind == m.kind; } if (!k) c.violation("pieces/kind", ctx); }
      }
      Sums want, have; collect(m, want, &b); collect(*p, have, nullptr);
      double tol = 4 * U * (want.per + have.per + b.width() + b.height()) + 10 * U * U;
      if (std::abs(want.area - have.area) > tol) c.violation(m.kind == RELATION ? "pieces/area-of-relation" : "pieces/area", "tile has " + num(want.area) + " of it, pieces have " + num(have.area) + " tolerance " + num(tol) + ", " + ctx);
      // a way along the border may or may not be kept, and each cut is rounded
      double along = 0; size_t verts = 4; for (auto *x : want.ways) { verts += 2 * x->pts.size(); BoundingBox in(GeoCoordinate(b.minPoint.latitude + 3 * U, b.minPoint.longitude + 3 * U), GeoCoordinate(b.maxPoint.latitude - 3 * U, b.maxPoint.longitude - 3 * U)), out(GeoCoordinate(b.minPoint.latitude - 3 * U, b.minPoint.longitude - 3 * U), GeoCoordinate(b.maxPoint.latitude + 3 * U, b.maxPoint.longitude + 3 * U)); along += geo::lengthInside(out, x->pts) - geo::lengthInside(in, x->pts); }
      if (std::abs(want.len - have.len) > along + 3 * U * verts) c.violation("pieces/length", "tile has " + num(want.len) + " of it, pieces have " + num(have.len) + ", " + ctx);
      // pieces of ways lie on the way
      for (auto *x : have.ways) for (auto &v : x->pts) { double d = 1e9; for (auto *o : want.ways) d = std::min(d, geo::lineDist(o->pts, v, false)); if (d > 3 * U) { c.violation("pieces/off-the-way", num(d / U) + " units, " + ctx); break; } }
      size_t nodesOut = 0, nodesIn = 0; { Sums s; BoundingBox big(GeoCoordinate(b.minPoint.latitude - U, b.minPoint.longitude - U), GeoCoordinate(b.maxPoint.latitude + U, b.maxPoint.longitude + U)), small(GeoCoordinate(b.minPoint.latitude + U, b.minPoint.longitude + U), GeoCoordinate(b.maxPoint.latitude - U, b.maxPoint.longitude - U)); collect(m, s, &big); nodesOut = s.nodes; Sums t; collect(m, t, &small); nodesIn = t.nodes; }
      if (have.nodes < nodesIn || have.nodes > nodesOut) c.violation("pieces/nodes", std::to_string(have.nodes) + " instead of " + std::to_string(want.nodes) + ", " + ctx);
      // point by point
      if (!want.areas.empty()) for (int k = 0; k < 12; ++k) {
        P x; { const M *a = r.pick(want.areas); if (r.chance(0.5)) x = scene::pick(r, b, 0); else { P v = r.pick(a->pts); double d = b.height() * 0.1; x = {v.first + r.real(-d, d), v.second + r.real(-d, d)}; } }
        if (!geo::inBox(b, x) || geo::boxDist(b, x) < 5 * U) continue;
        bool unsure = false; int a = winding(want.areas, x, 5 * U, unsure), g = winding(have.areas, x, 5 * U, unsure);
        if (unsure) { c.count("samples_unsure"); continue; }
        c.count(a ? "samples_inside" : "samples_outside");
        if (a != g) { c.violation("pieces/coverage", "at " + num(x.first) + " " + num(x.second) + ": " + std::to_string(g) + " instead of " + std::to_string(a) + ", " + ctx); break; }
      }
    }
  });
}
}
int main(int argc, char **argv) { return vf::main(argc, argv, {{"address", 300, 20000, address}, {"store", 1500, 60000, membership}, {"clip", 1500, 60000, clipping}}); }
