// C04: text search of both store kinds against a boolean model.
#include "el.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"
using namespace el;
using utymap::index::InMemoryElementStore;
using utymap::index::PersistentElementStore;
using utymap::utils::GeoUtils;
namespace {
std::set<std::string> words(const std::string &s) {
  static const std::string sep = " _:;!@#$%^&*(){}[],.?`\\/\"'";
  std::set<std::string> r; std::string w;
  for (char ch : s) { if (sep.find(ch) != std::string::npos) { if (!w.empty()) r.insert(w); w.clear(); } else w += ch; }
  if (!w.empty()) r.insert(w);
  return r;
}
std::set<std::string> words(const M &m) {
  std::set<std::string> r;
  for (auto &t : m.tags) { auto a = words(t.first), b = words(t.second); r.insert(a.begin(), a.end()); r.insert(b.begin(), b.end()); }
  return r;
}
struct Saved { QuadKey q; M m; };

void search(vf::Ctx &c, bool persistent) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c); makeDataDirs(dir);
  std::unique_ptr<ST> st; std::unique_ptr<utymap::index::ElementStore> store;
  auto open = [&] {
    store.reset(); st.reset(); st.reset(new ST(dir + "/"));
    if (persistent) store.reset(new PersistentElementStore(dir, *st)); else store.reset(new InMemoryElementStore(*st));
  };
  open();
  // tiles around a point at several levels, so that one box meets many of them
  double lat = r.real(-70, 70), lon = r.real(-170, 170);
  int lodA = (int) r.range(1, 16), lodB = (int) std::min<long>(19, lodA + r.below(3));
  std::vector<QuadKey> tiles;
  for (int l = lodA; l <= lodB; ++l) {
    QuadKey q = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(lat, lon), l);
    int n = 1 << l;
    for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) {
      int x = q.tileX + dx, y = q.tileY + dy;
      if (x >= 0 && y >= 0 && x < n && y < n && (dx == 0 && dy == 0 ? true : r.chance(0.5))) tiles.push_back(QuadKey(l, x, y));
    }
  }
  std::vector<Saved> saved; std::set<QuadKey, QuadKey::Comparator> haveTile;
  bool crowd = r.chance(0.15);   // many elements in few tiles: sparse words, long runs in the bitmaps
  if (crowd) { tiles.resize(std::min<size_t>(tiles.size(), 2)); c.count("crowded"); }
  std::vector<std::string> vocab = {"addr", "street", "city", "Berlin", "Haus", "yes", "x", "name", "12", "über", "St", "no-break", "a|b", "residential"};
  static const std::vector<std::string> seps = {" ", "_", ":", ";", ",", ".", "  ", " (", "/", "\"", "'", "#"};
  auto phrase = [&](size_t max) { std::string s; size_t n = r.below(max + 1); if (r.chance(0.1)) s += r.pick(seps); for (size_t i = 0; i < n; ++i) { if (i) s += r.pick(seps); s += r.pick(vocab); } if (r.chance(0.1)) s += r.pick(seps); return s; };
  std::vector<std::string> log;
  auto trace = [&] { std::string s; for (size_t i = log.size() > 40 ? log.size() - 40 : 0; i < log.size(); ++i) s += log[i] + "\n"; return s; };
  std::uint64_t id = 1;
  size_t rounds = 2 + r.below(5);
  for (size_t round = 0; round < rounds && c.violations.size() < 3; ++round) {
    size_t n = r.below(15); if (crowd) n = r.below(150);
    for (size_t i = 0; i < n; ++i) {
      QuadKey q = r.pick(tiles);
      M m = element(r, GeoUtils::quadKeyToBoundingBox(q), id++, 1);
      m.tags.clear();
      std::set<std::string> seen; size_t nt = crowd && r.chance(0.6) ? 0 : r.below(4);
      for (size_t k = 0; k < nt; ++k) { std::string key = phrase(2); if (key.empty() || !seen.insert(key).second) continue; m.tags.push_back({key, phrase(3)}); }
      sortTags(m, *st);
      store->save(*make(m, *st), q);
      saved.push_back({q, m}); haveTile.insert(q);
      log.push_back("save " + qk(q) + " " + dump(m).substr(0, 100));
      c.count("save");
    }
    if (r.chance(0.15) && !saved.empty()) {
      QuadKey q = r.pick(tiles);
      store->erase(q); haveTile.erase(q);
      saved.erase(std::remove_if(saved.begin(), saved.end(), [&](const Saved &s) { return s.q == q; }), saved.end());
      log.push_back("erase " + qk(q)); c.count("erase");
    }
    if (persistent && r.chance(0.3)) { static_cast<PersistentElementStore &>(*store).flush(); log.push_back("flush"); c.count("flush"); }
    if (persistent && r.chance(0.3)) { open(); log.push_back("reopen"); c.count("reopen"); }
    size_t nq = 1 + r.below(8);
    for (size_t k = 0; k < nq && c.violations.size() < 3; ++k) {
      std::string nt = r.chance(0.5) ? "" : phrase(2), at = r.chance(0.4) ? "" : phrase(3), ot = r.chance(0.5) ? "" : phrase(3);
      if (r.chance(0.1)) ot += " unknownword"; if (r.chance(0.05)) at += " unknownword2"; if (r.chance(0.1)) nt += " unknownword3";
      int la = (int) r.range(std::max(1, lodA - 1), lodB), lb = (int) r.range(la, std::min(19, lodB + 1));
      BoundingBox box;
      if (r.chance(0.3)) box = BoundingBox(GeoCoordinate(lat - 40 + r.real(), lon - 60 - r.real()), GeoCoordinate(lat + 30 + r.real(), lon + 60 + r.real()));
      else { BoundingBox t = GeoUtils::quadKeyToBoundingBox(r.pick(tiles)); double w = t.width(), h = t.height();
        double a = t.minPoint.latitude + h * r.real(-0.7, 1), b = t.minPoint.longitude + w * r.real(-0.7, 1);
        box = BoundingBox(GeoCoordinate(a, b), GeoCoordinate(a + h * r.real(0, 1.5), b + w * r.real(0, 1.5))); }
      if (box.minPoint.longitude < -179.99) box.minPoint.longitude = -179.99;
      if (box.maxPoint.longitude > 179.99) box.maxPoint.longitude = 179.99;
      if (box.minPoint.latitude < -85) box.minPoint.latitude = -85;
      if (box.maxPoint.latitude > 85) box.maxPoint.latitude = 85;
      if (!box.isValid()) continue;
      // the whole world at a deep level is a legitimate but endless enumeration of tiles
      double tilesInBox = (box.width() / 360 * std::pow(2.0, lb)) * (box.height() / 180 * std::pow(2.0, lb));
      if (tilesInBox > 3000) continue;
      Collector v(*st); utymap::CancellationToken tok;
      store->search(nt, at, ot, box, utymap::LodRange(la, lb), v, tok);
      auto N = words(nt), A = words(at), O = words(ot);
      std::vector<std::string> want;
      for (auto &s : saved) {
        if (s.q.levelOfDetail < la || s.q.levelOfDetail > lb) continue;
        if (!GeoUtils::quadKeyToBoundingBox(s.q).intersects(box)) continue;
        if (A.empty() && O.empty()) continue;
        BoundingBox b; bounds(s.m, b);
        if (!b.isValid() || !b.intersects(box)) continue;
        auto w = words(s.m);
        bool ok = true;
        for (auto &t : A) ok = ok && w.count(t);
        if (!O.empty()) { bool any = false; for (auto &t : O) any = any || w.count(t); ok = ok && any; }
        for (auto &t : N) ok = ok && !w.count(t);
        if (ok) want.push_back(dump(s.m));
      }
      c.count("query"); c.count("matches", want.size());
      std::string qs = "not='" + nt + "' and='" + at + "' or='" + ot + "' lod " + std::to_string(la) + ".." + std::to_string(lb) + " box " + num(box.minPoint.latitude) + "," + num(box.minPoint.longitude) + " " + num(box.maxPoint.latitude) + "," + num(box.maxPoint.longitude);
      log.push_back("query " + qs + " -> " + std::to_string(v.got.size()));
      if (!want.empty()) { c.count("query_with_matches"); c.distinct(qs + join(want)); if (k == 0) c.sample(qs + " -> " + std::to_string(want.size()) + " elements, first " + want[0]); }
      if (!O.empty() && !A.empty()) c.count("query_and_or");
      if (!N.empty() && !want.empty()) c.count("query_not");
      std::string d = diff(want, dumps(v.got));
      if (!d.empty()) {
        std::string key = "search:"; key += A.empty() ? "" : "and"; key += O.empty() ? "" : "or"; key += N.empty() ? "" : "not";
        c.violation(key, qs + "\n" + d + "history:\n" + trace());
      }
    }
  }
  store.reset();
}
}
int main(int argc, char **argv) {
  return vf::main(argc, argv, {
    {"persistent", 2500, 40000, [](vf::Ctx &c) { search(c, true); }},
    {"memory", 2500, 40000, [](vf::Ctx &c) { search(c, false); }},
  });
}
