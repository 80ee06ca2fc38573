// C22: what was flushed to disk survives the death of the process at any disk operation (or at any moment).
#include "api.hpp"
#include "fault.hpp"
#include "index/PersistentElementStore.hpp"
using namespace el;
using utymap::index::PersistentElementStore;
using utymap::utils::GeoUtils;

namespace {
std::string canon(M m) {
  std::function<void(M &)> f = [&](M &x) { std::sort(x.tags.begin(), x.tags.end()); for (auto &k : x.kids) f(k); };
  f(m); return dump(m);
}
std::set<std::string> canons(const std::vector<M> &v) { std::set<std::string> s; for (auto &m : v) s.insert(canon(m)); return s; }
std::string brief(const std::string &s) { return s.substr(0, 160) + (s.size() > 160 ? "..." : ""); }

struct Op { int kind = 0; QuadKey q; M m; std::string str() const { static const char *n[] = {"store", "flush", "erase", "reopen", "query"}; return std::string(n[kind]) + (kind == 1 || kind == 3 ? "" : " " + qk(q)) + (kind ? "" : " " + brief(dump(m))); } };
enum { STORE, FLUSH, ERASE, REOPEN, QUERY };

// what may and what must be found in a tile
struct Tile { std::map<std::string, M> must, may; std::set<std::string> torn; };   // torn: was being stored at a death, its words might be lost
typedef std::map<QuadKey, Tile, QuadKey::Comparator> Model;

bool placed(const M &m) { for (auto &k : m.kids) if (placed(k)) return true; return !m.pts.empty(); }
std::string uniq(const M &m) { for (auto &t : m.tags) if (t.first == "uniq") return t.second; return ""; }

// waits for the child; kills it after us microseconds if us > 0
bool finish(vf::Ctx &c, pid_t p, long us) {
  if (us > 0) { usleep((useconds_t) us); kill(p, SIGKILL); }
  int status = 0; waitpid(p, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { c.count("died_at_disk_operation"); c.count("deaths"); return true; }
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && us > 0) { c.count("killed_at_random_time"); c.count("deaths"); return true; }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { c.count("died_after_last_operation"); return true; }
  c.violation("child-failed", "the workload ended with status " + std::to_string(status) + " before it was killed\n" + (WIFEXITED(status) ? vf::slurp(c.dir + "/child.txt") : ""));
  return false;
}

void history(vf::Ctx &c) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c); makeDataDirs(dir);
  std::vector<QuadKey> tiles;
  size_t nTiles = r.chance(0.5) ? 1 + r.below(2) : 3 + r.below(14);
  for (size_t i = 0; i < nTiles; ++i) { int lod = (int) r.range(1, 19); tiles.push_back(QuadKey(lod, (int) r.below(1ull << lod), (int) r.below(1ull << lod))); }
  std::uint64_t id = 1; Model model; std::string trace;
  size_t rounds = 1 + r.below(3);
  auto element = [&](const QuadKey &q) {
    M m = el::element(r, GeoUtils::quadKeyToBoundingBox(q), id++, 2);
    if (r.chance(0.1)) { m.kind = WAY; m.kids.clear(); m.pts.clear(); size_t n = 600 + r.below(3000); BoundingBox b = GeoUtils::quadKeyToBoundingBox(q); for (size_t i = 0; i < n; ++i) m.pts.push_back({r.real(b.minPoint.latitude, b.maxPoint.latitude), r.real(b.minPoint.longitude, b.maxPoint.longitude)}); c.count("big_elements"); }
    m.tags.push_back({"uniq", "w" + std::to_string(m.id) + "x" + std::to_string(r.below(100000))});
    if (r.chance(0.3)) m.tags.push_back({"extra" + std::to_string(m.id), "v" + std::to_string(r.below(1000))});
    return m;
  };
  for (size_t round = 0; round < rounds; ++round) {
    std::vector<Op> ops; size_t n = 3 + r.below(40);
    for (size_t i = 0; i < n; ++i) {
      Op o; o.q = r.pick(tiles); double x = r.real();
      if (x < 0.62) { o.kind = STORE; o.m = element(o.q); }
      else if (x < 0.78) o.kind = FLUSH; else if (x < 0.86) o.kind = ERASE; else if (x < 0.92) o.kind = REOPEN; else o.kind = QUERY;
      ops.push_back(o);
    }
    bool byTime = r.chance(0.2); long at = 1 + (long) r.below(r.chance(0.5) ? 60 : 400); bool torn = r.chance(0.5);
    long us = byTime ? 200 + (long) r.below(6000) : 0;
    auto &sh = fault::st(); sh.progress = 0; fault::off();
    std::string log = c.dir + "/child.txt"; ::unlink(log.c_str());
    pid_t p = fork();
    if (p == 0) {
      try {
        std::unique_ptr<ST> st; std::unique_ptr<PersistentElementStore> store;
        if (!byTime) fault::arm(fault::DIE, at, at, 0, torn);
        auto open = [&] { st.reset(new ST(dir + "/")); store.reset(new PersistentElementStore(dir, *st)); };
        open();
        utymap::CancellationToken t;
        for (auto &o : ops) {
          switch (o.kind) {
            case STORE: store->save(*make(o.m, *st), o.q); break;
            case FLUSH: store->flush(); break;
            case ERASE: store->erase(o.q); break;
            case REOPEN: store.reset(); st.reset(); open(); break;
            default: { Collector v(*st); store->search(o.q, v, t); }
          }
          sh.progress = sh.progress + 1;
        }
        fault::off(); _exit(0);
      } catch (const std::exception &e) { fault::off(); vf::spit(log, std::string("exception: ") + e.what()); _exit(3); }
    }
    if (!finish(c, p, us)) { c.samples.clear(); trace += "(failed)"; return; }
    fault::off();
    long done = sh.progress; c.count("operations_before_death", (std::uint64_t) done); c.count(torn ? "torn" : "whole_operations");
    trace += "round " + std::to_string(round) + ": " + (byTime ? "killed" : "died at disk operation " + std::to_string(at)) + " in operation " + std::to_string(done) + " of\n";
    long flushed = -1; for (long i = 0; i < done && i < (long) ops.size(); ++i) if (ops[i].kind == FLUSH || ops[i].kind == REOPEN) flushed = i;
    for (size_t i = 0; i < ops.size(); ++i) trace += "  " + std::to_string(i) + " " + ops[i].str() + "\n";
    if (done < (long) ops.size()) { static const char *n[] = {"in_store", "in_flush", "in_erase", "in_reopen", "in_query"}; c.count(n[ops[done].kind]); }
    for (long i = 0; i <= done && i < (long) ops.size(); ++i) {
      auto &o = ops[i]; auto &t = model[o.q];
      if (o.kind == STORE) { std::string s = canon(o.m); t.may[s] = o.m; if (i < flushed) t.must[s] = o.m; }
      else if (o.kind == ERASE) { t.must.clear(); if (i < flushed) t.may.clear(); }
    }
    // the first stores after the death use new strings
    std::unique_ptr<ST> st; std::unique_ptr<PersistentElementStore> store;
    auto open = [&] { store.reset(); st.reset(); st.reset(new ST(dir + "/")); store.reset(new PersistentElementStore(dir, *st)); };
    auto look = [&](const char *when) {
      for (auto &q : tiles) {
        utymap::CancellationToken tok; Collector v(*st);
        std::string at2 = std::string(when) + " " + qk(q) + ": ";
        try { store->search(q, v, tok); }
        catch (const std::exception &e) { c.violation(std::string("unreadable:") + when, at2 + e.what() + "\n" + trace); continue; }
        auto got = canons(v.got); auto &t = model[q];
        c.count("tiles_read"); if (!t.must.empty()) { c.count("must_elements", t.must.size()); std::string k; for (auto &m : t.must) k += m.first; c.distinct(k + std::to_string(got.size())); }
        for (auto &m : t.must) if (!got.count(m.first)) { c.violation(std::string("lost:") + when, at2 + "flushed element is not returned: " + brief(m.first) + "\n" + trace); break; }
        for (auto &g : got) if (!t.may.count(g)) { c.violation(std::string("unknown:") + when, at2 + "returned element was not stored: " + brief(g) + "\n" + trace); break; }
        if (v.got.size() > got.size()) c.violation(std::string("twice:") + when, at2 + "an element is returned twice\n" + trace);
        // text search agrees
        BoundingBox b = GeoUtils::quadKeyToBoundingBox(q); int n = 0;
        double dy = (b.maxPoint.latitude - b.minPoint.latitude), dx = (b.maxPoint.longitude - b.minPoint.longitude);
        BoundingBox all(GeoCoordinate(b.minPoint.latitude - dy / 1000, b.minPoint.longitude - dx / 1000), GeoCoordinate(b.maxPoint.latitude + dy / 1000, b.maxPoint.longitude + dx / 1000));
        auto find = [&](const std::string &word) { Collector f(*st); store->search("", word, "", all, utymap::LodRange(q.levelOfDetail, q.levelOfDetail), f, tok); return f.got; };
        try {
          for (auto &m : t.must) {
            if (!placed(m.second) || t.torn.count(m.first)) continue;      // has no place
            if (++n > 4) break;
            auto f = find(uniq(m.second)); c.count("words_searched");
            if (f.size() != 1 || canon(f[0]) != m.first) { c.violation(std::string("text-lost:") + when, at2 + "word " + uniq(m.second) + " finds " + std::to_string(f.size()) + " elements, not exactly the flushed " + brief(m.first) + "\n" + trace); break; }
          }
          if (r.chance(0.5) && !t.may.empty()) for (auto &g : find("uniq")) if (!t.may.count(canon(g)) ) {
            bool other = false; for (auto &z : model) if (z.first.levelOfDetail == q.levelOfDetail && z.second.may.count(canon(g))) other = true;
            if (!other) c.violation(std::string("text-unknown:") + when, at2 + "text search returns " + brief(canon(g)) + "\n" + trace);
          }
        } catch (const std::exception &e) { c.violation(std::string("search-fails:") + when, at2 + e.what() + "\n" + trace); }
      }
    };
    try { open(); } catch (const std::exception &e) { c.violation("cannot-reopen", std::string(e.what()) + "\n" + trace); return; }
    bool lookFirst = r.chance(0.6);
    if (lookFirst) look("after death");
    // goes on with new data; from here on everything in the store is known
    for (size_t i = 0, k = 1 + r.below(6); i < k; ++i) {
      QuadKey q = r.pick(tiles); M m = element(q);
      try { store->save(*make(m, *st), q); }
      catch (const std::exception &e) { c.violation("refuses-new-data", std::string(e.what()) + "\n" + trace); continue; }
      std::string s = canon(m); model[q].may[s] = m; model[q].must[s] = m; trace += "new " + qk(q) + " " + brief(s) + "\n"; c.count("new_elements");
    }
    if (r.chance(0.5)) { store->flush(); }
    look("after new data");
    open(); look("after reopening");
    // what survived is settled
    for (auto &q : tiles) { Collector v(*st); utymap::CancellationToken tok; try { store->search(q, v, tok); } catch (...) { continue; } auto &t = model[q]; auto old = t.must; t.must.clear(); auto got = canons(v.got); for (auto &m : t.may) if (got.count(m.first)) { t.must.insert(m); if (!old.count(m.first)) t.torn.insert(m.first); } t.may = t.must; }
    store.reset(); st.reset();
    if (c.violations.size() > 3) break;
  }
  c.sample(trace.substr(0, 1200));
}

// the same through the C API: what was added before disconnect survives
void client(vf::Ctx &c) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c);
  std::string style = dir + "/s.mapcss";
  vf::spit(style, "node|z10-18[place],way|z10-18[place],area|z10-18[place] { builder: place; clip: false; }\n");
  QuadKey base = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(r.real(-60, 60), r.real(-170, 170)), 15);
  BoundingBox box = GeoUtils::quadKeyToBoundingBox(base);
  std::uint64_t id = 1;
  auto feature = [&] {
    M m; m.kind = (Kind) r.below(3); m.id = id++;
    double h = box.maxPoint.latitude - box.minPoint.latitude, w = box.maxPoint.longitude - box.minPoint.longitude;
    double y = box.minPoint.latitude + h * r.real(0.1, 0.8), x = box.minPoint.longitude + w * r.real(0.1, 0.8);
    m.pts.push_back({y, x});
    if (m.kind != NODE) { m.pts.push_back({y, x + w * 0.1}); m.pts.push_back({y + h * 0.1, x + w * 0.05}); }
    if (r.chance(0.1) && m.kind == WAY) for (int i = 0; i < 900; ++i) m.pts.push_back({y + h * 0.1 * r.real(), x + w * 0.1 * r.real()});
    m.tags = {{"place", "w" + std::to_string(m.id) + "x" + std::to_string(r.below(1000))}, {"k" + std::to_string(r.below(40)), "v" + std::to_string(r.below(400))}};
    return m;
  };
  auto text = [](const M &m) { std::ostringstream s; s.precision(17); std::vector<std::string> t; for (auto &x : m.tags) t.push_back(x.first + "=" + x.second); std::sort(t.begin(), t.end()); s << m.id; for (auto &x : t) s << ' ' << x; s << " v"; for (auto &p : m.pts) s << ' ' << p.first << ' ' << p.second; if (m.kind == AREA) s << ' ' << m.pts[0].first << ' ' << m.pts[0].second; return s.str(); };   // areas are delivered closed
  auto textE = [](const api::Elem &e) { std::ostringstream s; s.precision(17); std::vector<std::string> t; for (size_t i = 0; i + 1 < e.tags.size(); i += 2) t.push_back(e.tags[i] + "=" + e.tags[i + 1]); std::sort(t.begin(), t.end()); s << e.id; for (auto &x : t) s << ' ' << x; s << " v"; for (size_t i = 0; i + 2 < e.v.size(); i += 3) s << ' ' << e.v[i + 1] << ' ' << e.v[i]; return s.str(); };
  // vertices are delivered as longitude, latitude, height
  auto add = [&](api::Engine &, api::Result &res, const M &m) { Coords pts = m.pts; if (m.kind == AREA) pts.push_back(pts[0]); api::addElement(res, "disk", style, m.id, pts, m.tags, 14, 16); };
  std::vector<std::pair<bool, M>> before, after;      // true: comes as a file
  for (size_t i = 0, n = r.below(12); i < n; ++i) before.push_back({r.chance(0.2), feature()});
  for (size_t i = 0, n = 1 + r.below(12); i < n; ++i) after.push_back({r.chance(0.2), feature()});
  auto put = [&](api::Engine &e, const std::pair<bool, M> &x) {
    api::Result res;
    if (x.first && x.second.kind == NODE) {
      std::string f = dir + "/f.xml"; char b[200]; snprintf(b, sizeof b, "<node id=\"%llu\" lat=\"%.9f\" lon=\"%.9f\">", (unsigned long long) x.second.id, x.second.pts[0].first, x.second.pts[0].second);
      std::string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">" + std::string(b); for (auto &t : x.second.tags) s += "<tag k=\"" + t.first + "\" v=\"" + t.second + "\"/>";
      vf::spit(f, s + "</node></osm>"); api::addFile(res, "disk", style, f, 14, 16);
    } else add(e, res, x.second);
    if (!res.errors.empty()) throw std::runtime_error(res.errors[0]);
  };
  for (auto *l : {&before, &after}) for (auto &x : *l) if (x.first && x.second.kind == NODE) { auto &p = x.second.pts[0]; p.first = std::round(p.first * 1e6) / 1e6; p.second = std::round(p.second * 1e6) / 1e6; char b[40]; snprintf(b, 40, "%.9f", p.first); p.first = atof(b); snprintf(b, 40, "%.9f", p.second); p.second = atof(b); }
  bool byTime = r.chance(0.2); long at = 1 + (long) r.below(r.chance(0.5) ? 60 : 300), us = byTime ? 500 + (long) r.below(30000) : 0; bool torn = r.chance(0.5);
  auto &sh = fault::st(); sh.progress = 0; fault::off(); std::string log = c.dir + "/child.txt"; ::unlink(log.c_str());
  pid_t p = fork();
  if (p == 0) {
    try {
      { api::Engine e(dir); e.style(style); e.persistent(); for (auto &x : before) put(e, x); e.close(); }
      sh.progress = 1;
      if (!byTime) fault::arm(fault::DIE, at, at, 0, torn);
      api::Engine e(dir); e.style(style); e.persistent();
      for (auto &x : after) { put(e, x); sh.progress = sh.progress + 1; }
      fault::off(); _exit(0);
    } catch (const std::exception &e) { fault::off(); vf::spit(log, std::string("exception: ") + e.what()); _exit(3); }
  }
  if (!finish(c, p, us)) return;
  fault::off();
  long done = sh.progress - 1; if (done >= 0) c.count("client_sessions");
  std::map<std::string, bool> want; std::string trace = "died in addition " + std::to_string(done) + "\n";
  for (auto &x : before) { want[text(x.second)] = done >= 0; trace += "before " + brief(text(x.second)) + "\n"; }
  for (long i = 0; i <= done && i < (long) after.size(); ++i) { want[text(after[i].second)] = false; trace += "after " + brief(text(after[i].second)) + "\n"; }
  if (done < 0) for (auto &x : before) want[text(x.second)] = false;
  api::Engine e(dir);
  if (!e.last.errors.empty()) { c.violation("client:cannot-connect", e.last.errors[0] + "\n" + trace); return; }
  e.style(style); e.persistent();
  auto look = [&](const char *when) {
    for (int lod = 14; lod <= 16; ++lod) {
      std::set<std::string> got;
      QuadKey q0 = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(box.minPoint.latitude, box.minPoint.longitude), lod), q1 = GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(box.maxPoint.latitude, box.maxPoint.longitude), lod);
      for (int x = q0.tileX; x <= q1.tileX; ++x) for (int y = q1.tileY; y <= q0.tileY; ++y) {
        api::Result res; api::load(res, style, QuadKey(lod, x, y));
        if (!res.errors.empty()) { c.violation(std::string("client:load-fails:") + when, res.errors[0] + "\n" + trace); return; }
        for (auto &el : res.elems) got.insert(textE(el));
      }
      c.count("client_levels_read");
      for (auto &w : want) if (w.second && !got.count(w.first)) { c.violation(std::string("client:lost:") + when, "level " + std::to_string(lod) + ": " + brief(w.first) + "\ngot:\n" + join({got.begin(), got.end()}) + trace); break; } else if (w.second) c.count("client_elements");
      for (auto &g : got) if (!want.count(g)) { c.violation(std::string("client:unknown:") + when, "level " + std::to_string(lod) + ": " + brief(g) + "\n" + trace); break; }
      std::string k; for (auto &g : got) k += g; if (!k.empty()) c.distinct(k);
    }
  };
  look("after death");
  for (int i = 0; i < 3; ++i) { auto m = feature(); try { put(e, {false, m}); want[text(m)] = true; c.count("client_new"); } catch (const std::exception &x) { c.violation("client:refuses-new-data", std::string(x.what()) + "\n" + trace); } }
  look("after new data");
  e.close(); e.open(); e.style(style); e.persistent();
  look("after reopening");
}
}
int main(int argc, char **argv) { return vf::main(argc, argv, {{"history", 500, 20000, history}, {"client", 250, 8000, client}}); }
