// C03: element stores against a model over random histories.
#include "el.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"
using namespace el;
using utymap::index::InMemoryElementStore;
using utymap::index::PersistentElementStore;
using utymap::utils::GeoUtils;

namespace {
struct Hist {
  vf::Ctx &c;
  bool persistent;
  std::string dir;
  std::unique_ptr<ST> st;
  std::unique_ptr<utymap::index::ElementStore> store;
  std::map<QuadKey, std::vector<std::string>, QuadKey::Comparator> model;
  std::vector<std::string> log;

  Hist(vf::Ctx &c, bool p) : c(c), persistent(p) { dir = vf::freshDir(c); makeDataDirs(dir); open(); }
  void open() {
    if (!st) st.reset(new ST(dir + "/"));
    if (persistent) store.reset(new PersistentElementStore(dir, *st));
    else store.reset(new InMemoryElementStore(*st));
  }
  void note(const std::string &s) { log.push_back(s); }
  std::string trace() { size_t b = log.size() > 60 ? log.size() - 60 : 0; std::string s; for (size_t i = b; i < log.size(); ++i) s += log[i] + "\n"; return s; }

  void query(const QuadKey &q) {
    Collector v(*st);
    utymap::CancellationToken t;
    store->search(q, v, t);
    note("query " + qk(q) + " -> " + std::to_string(v.got.size()));
    auto it = model.find(q);
    std::vector<std::string> want = it == model.end() ? std::vector<std::string>() : it->second;
    auto got = dumps(v.got);
    c.count("query");
    c.count("elements_read", got.size());
    std::string state;
    for (auto &w : want) state += w;
    if (!want.empty()) c.distinct(state);
    std::string d = diff(want, got);
    if (!d.empty()) {
      // classify: history matters more than content
      c.violation("tile-content", "tile " + qk(q) + ":\n" + d + "history:\n" + trace());
    }
  }
  void hasData(const QuadKey &q) {
    bool want = model.count(q) != 0, got = store->hasData(q);
    note("hasData " + qk(q) + " -> " + (got ? "1" : "0"));
    c.count("hasData");
    if (want != got) c.violation("has-data", "hasData(" + qk(q) + ") = " + (got ? "true" : "false") + ", model says " + (want ? "true" : "false") + "\nhistory:\n" + trace());
  }
};

void history(vf::Ctx &c, bool persistent) {
  auto &r = c.rng;
  Hist h(c, persistent);
  // more tiles than the cache of open files holds, or few tiles with deep histories
  size_t nTiles = r.chance(0.5) ? 1 + r.below(3) : 10 + r.below(20);
  std::vector<QuadKey> tiles;
  for (size_t i = 0; i < nTiles; ++i) {
    int lod = (int) r.range(1, 19);
    // neighbours and tiles with the same x/y at another level are likely
    if (i && r.chance(0.5)) {
      QuadKey q = r.pick(tiles);
      if (r.chance(0.3)) {
        // far away, but close for any way to join both numbers
        int n = 1 << q.levelOfDetail, k = (int) r.below(q.levelOfDetail + 1), d = r.chance(0.5) ? 1 : -1, t = r.chance(0.5) ? 1 : -1;
        q.tileX = ((q.tileX + d) % n + n) % n; q.tileY = ((q.tileY + t * (1 << k)) % n + n) % n;
        if (r.chance(0.3)) std::swap(q.tileX, q.tileY);
      } else if (r.chance(0.5)) { q.tileX ^= 1; } else if (r.chance(0.5)) q.tileY ^= 1; else if (q.levelOfDetail < 19) q.levelOfDetail++;
      tiles.push_back(q);
    } else tiles.push_back(QuadKey(lod, (int) r.below(1ull << lod), (int) r.below(1ull << lod)));
  }
  std::uint64_t id = 1;
  size_t ops = 10 + r.below(r.chance(0.1) ? 400 : 80);
  for (size_t i = 0; i < ops; ++i) {
    QuadKey q = r.pick(tiles);
    BoundingBox box = GeoUtils::quadKeyToBoundingBox(q);
    double x = r.real();
    if (x < 0.45) {
      M m = element(r, box, r.chance(0.1) && id > 1 ? 1 + r.below(id) : id++, 2);
      if (r.chance(0.02)) m.id = 0xFFFFFFFFFFFFFFFFull - r.below(3);
      sortTags(m, *h.st);
      auto e = make(m, *h.st);
      h.store->save(*e, q);
      h.model[q].push_back(dump(m));
      h.note("save " + qk(q) + " " + dump(m).substr(0, 60));
      c.count("save");
    } else if (x < 0.65) h.query(q);
    else if (x < 0.72) h.hasData(q);
    else if (x < 0.77) {
      h.store->erase(q);
      h.model.erase(q);
      h.note("erase " + qk(q));
      c.count("erase");
    } else if (x < 0.84) {
      // partial read: cancelled after k elements
      Collector v(*h.st);
      utymap::CancellationToken t;
      size_t k = 1 + r.below(3);
      v.after = [&] { if (v.got.size() >= k) t.cancel(); };
      h.store->search(q, v, t);
      h.note("partial " + qk(q) + " -> " + std::to_string(v.got.size()));
      c.count("partial_read");
      auto it = h.model.find(q);
      size_t want = it == h.model.end() ? 0 : std::min(k, it->second.size());
      if (v.got.size() != want) c.violation("partial-count", "read cancelled after " + std::to_string(k) + " elements delivered " + std::to_string(v.got.size()) + "\nhistory:\n" + h.trace());
      for (auto &d : dumps(v.got))
        if (it == h.model.end() || std::find(it->second.begin(), it->second.end(), d) == it->second.end())
          c.violation("partial-content", "not stored in " + qk(q) + ": " + d + "\nhistory:\n" + h.trace());
    } else if (x < 0.92) {
      // text search in between moves file positions
      Collector v(*h.st);
      utymap::CancellationToken t;
      h.store->search("", word(r), r.chance(0.5) ? word(r) : "", box, utymap::LodRange(q.levelOfDetail, q.levelOfDetail), v, t);
      h.note("text " + qk(q) + " -> " + std::to_string(v.got.size()));
      c.count("text_search");
    } else if (x < 0.96) {
      if (persistent) static_cast<PersistentElementStore &>(*h.store).flush();
      h.note("flush");
      c.count("flush");
    } else if (persistent) {
      h.store.reset();
      if (r.chance(0.7)) h.st.reset();
      h.open();
      h.note("reopen");
      c.count("reopen");
    }
    if (!c.violations.empty() && c.violations.size() > 3) break;
  }
  for (auto &q : tiles) { h.hasData(q); h.query(q); }
  if (persistent) {
    h.store.reset(); h.st.reset(); h.open(); h.note("final reopen");
    for (auto &q : tiles) { h.hasData(q); h.query(q); }
  }
  c.sample(std::string(persistent ? "persistent" : "memory") + " history: " + h.trace().substr(0, 700));
  h.store.reset();
}

// elements at the limits of what can be stored
void big(vf::Ctx &c) {
  auto &r = c.rng;
  bool persistent = r.chance(0.7);
  Hist h(c, persistent);
  QuadKey q(16, 35205, 21489);
  BoundingBox box = GeoUtils::quadKeyToBoundingBox(q);
  static const size_t sizes[] = {0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
  for (int i = 0; i < 6; ++i) {
    M m;
    m.id = (std::uint64_t) (i + 1);
    m.kind = (Kind) (1 + r.below(3));
    size_t n = sizes[r.below(sizeof sizes / sizeof *sizes)];
    if (m.kind == RELATION) {
      for (size_t k = 0; k < n; ++k) { M x; x.id = k + 1; x.pts.push_back({box.minPoint.latitude + 1e-7 * k, box.minPoint.longitude}); m.kids.push_back(x); }
    } else if (r.chance(0.3) && n <= 40000) { for (size_t k = 0; k < n; ++k) m.tags.push_back({"k" + std::to_string(k), "v" + std::to_string(k % 7)}); m.pts.resize(3, {box.minPoint.latitude, box.minPoint.longitude}); }
    else for (size_t k = 0; k < n; ++k) m.pts.push_back({box.minPoint.latitude + 1e-7 * k, box.minPoint.longitude + 1e-8 * k});
    sortTags(m, *h.st);
    try {
      h.store->save(*make(m, *h.st), q);
    } catch (const std::exception &e) {
      // refusing is fine, losing data silently is not
      c.count("big_refused");
      continue;
    }
    h.model[q].push_back(dump(m));
    c.count("big_saved");
    c.distinct("big " + std::to_string(m.kind) + ":" + std::to_string(n) + ":" + std::to_string(m.tags.size()));
    h.note("save big kind=" + std::to_string(m.kind) + " n=" + std::to_string(n));
  }
  Collector v(*h.st);
  utymap::CancellationToken t;
  if (persistent) { h.store.reset(); h.st.reset(); h.open(); }
  Collector v2(*h.st);
  std::vector<std::string> got;
  try { h.store->search(q, v2, t); } catch (const std::exception &e) { got.push_back(std::string("exception ") + e.what()); }
  for (auto &d : dumps(v2.got)) got.push_back(d);
  auto want = h.model[q];
  std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
  auto brief = [](const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x.substr(0, 60) + " length " + std::to_string(x.size()) + "\n"; return s; };
  if (want != got) c.violation("big-element", "want:\n" + brief(want) + "got:\n" + brief(got) + h.trace());
}
}

int main(int argc, char **argv) {
  return vf::main(argc, argv, {
    {"persistent", 1500, 30000, [](vf::Ctx &c) { history(c, true); }},
    {"memory", 600, 10000, [](vf::Ctx &c) { history(c, false); }},
    {"big", 24, 200, big, 120},
  });
}
