// C13, C14, C15: what a client sees of tile loads, searches and imports over histories of calls.
#include "engine.hpp"
namespace {

// C14: the same load again and again, after other loads, in memory and on disk, in a fresh instance
void repeat(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  scene::World w = sceneOver(c, dir, 8, 0.8); equalIds(r, w.feats, w.b);
  std::string ctx = qk(w.q) + (w.custom ? " custom\n" : " default\n") + list(w.feats);
  auto tiles = around(w.q); int ele = r.chance(0.7) ? api::FLAT : api::GRID;
  if (w.lod > 16 && ele == api::GRID) ele = api::FLAT;
  std::vector<std::pair<std::string, std::string>> grids;
  if (ele == api::GRID) { for (auto &q : tiles) scene::gridFile(r, dir + "/grid", q); c.count("grid_elevation"); }
  auto copyGrids = [&](const std::string &d) { if (ele != api::GRID) return; std::string l = "/data/" + std::to_string(w.lod); vf::mkdirs(d + "/index" + l); for (auto &q : tiles) { std::string f = l + "/" + GeoUtils::quadKeyToString(q) + ".ele"; vf::spit(d + "/index" + f, vf::slurp(dir + "/grid" + f)); } };
  std::map<int, Lines> ref; bool any = false;
  auto compare = [&](size_t t, const std::string &k, const char *where) {
    Lines got = once(c, w.style, tiles[t], ele, ctx);
    if (!ref.count(t)) { ref[t] = got; any |= !got.empty(); if (!got.empty()) c.distinct(ctx + qk(tiles[t])); return; }
    c.count("comparisons"); if (!got.empty()) c.count(std::string("compared_nonempty_") + where);
    if (got != ref[t]) c.violation(k + "/" + what(ref[t], got), std::string(where) + ", tile " + qk(tiles[t]) + ": " + diff(ref[t], got) + ctx);
  };
  { api::Engine e(dir + "/a"); copyGrids(dir + "/a"); e.memory(); e.style(w.style); enableMeshCache(0); fill(c, e.dir, w.style, w.feats, "mem", w.lod, w.lod);
    for (size_t i = 0, n = r.range(3, 8); i < n; ++i) { size_t t = r.chance(0.5) ? tiles.size() / 2 : r.below(tiles.size()); compare(t, "repeat", "same_engine"); } }
  if (!any && r.chance(0.8)) return;
  { api::Engine e(dir + "/b"); copyGrids(dir + "/b"); e.persistent(); e.style(w.style); enableMeshCache(0); fill(c, e.dir, w.style, w.feats, "disk", w.lod, w.lod);
    std::vector<size_t> ts; for (auto &x : ref) ts.push_back(x.first); r.shuffle(ts);
    for (auto t : ts) compare(t, "disk", "disk");
    if (r.chance(0.5)) { e.close(); e.open(); e.persistent(); e.style(w.style); enableMeshCache(0); for (auto t : ts) compare(t, "disk-reopened", "reopened"); } }
  { api::Engine e(dir + "/c"); copyGrids(dir + "/c"); e.memory(); e.style(w.style); enableMeshCache(0); fill(c, e.dir, w.style, w.feats, "mem", w.lod, w.lod);
    auto it = ref.begin(); std::advance(it, r.below(ref.size())); compare(it->first, "fresh", "fresh_engine"); }
}

// C14: several stores with the same elements
void stores(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  scene::World w = sceneOver(c, dir, 7, 0.1); equalIds(r, w.feats, w.b);
  std::string ctx = qk(w.q) + (w.custom ? " custom\n" : " default\n") + list(w.feats);
  Lines want;
  { api::Engine e(dir + "/a"); e.memory(); e.style(w.style); enableMeshCache(0); fill(c, e.dir, w.style, w.feats, "mem", w.lod, w.lod); want = once(c, w.style, w.q, api::FLAT, ctx); }
  if (want.empty()) return;
  bool all = r.chance(0.5);                  // the first store holds everything: even the terrain is built in the same order
  std::vector<std::string> keys = {"a", "b", "c"}; size_t n = r.range(2, 3); std::string place;
  { api::Engine e(dir + "/b"); e.style(w.style); enableMeshCache(0);
    std::vector<std::vector<M>> in(n); size_t twice = 0;
    for (auto &m : w.feats) { size_t k = all ? 0 : r.below(n); in[k].push_back(m); place += " " + std::to_string(k); for (size_t j = 0; j < n; ++j) if (j != k && r.chance(0.5)) { in[j].push_back(m); place += "+" + std::to_string(j); ++twice; } }
    for (size_t k = 0; k < n; ++k) { if (r.chance(0.5)) e.memory(keys[k]); else { e.persistent(keys[k], "data" + keys[k]); place += " disk"; } fill(c, e.dir, w.style, in[k], keys[k], w.lod, w.lod); }
    Lines got = once(c, w.style, w.q, api::FLAT, ctx);
    c.count("multi_store_loads"); c.count("elements_in_several_stores", twice); c.distinct(ctx + place);
    if (!all) for (auto *v : {&want, &got}) v->erase(std::remove_if(v->begin(), v->end(), [](const std::string &s) { return s.compare(0, 5, "mesh ") == 0 && isTerrain(s.substr(5)); }), v->end());
    if (got != want) c.violation("stores/" + what(want, got), "stores" + place + ": " + diff(want, got) + ctx);
  }
}

// C14: a tile is what its elements are one by one
void composition(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  scene::World w = sceneOver(c, dir, 7, 0.1); equalIds(r, w.feats, w.b);
  std::string ctx = qk(w.q) + (w.custom ? " custom\n" : " default\n") + list(w.feats);
  auto solid = [](Lines v) { v.erase(std::remove_if(v.begin(), v.end(), [](const std::string &s) { return s.compare(0, 5, "mesh ") == 0 && isTerrain(s.substr(5)); }), v.end()); return v; };
  Lines got, want;
  { api::Engine e(dir + "/a"); e.memory(); e.style(w.style); enableMeshCache(0); fill(c, e.dir, w.style, w.feats, "mem", w.lod, w.lod); got = solid(once(c, w.style, w.q, api::FLAT, ctx)); }
  size_t parts = 0;
  for (size_t i = 0; i < w.feats.size(); ++i) {
    api::Engine e(dir + "/s" + std::to_string(i)); e.memory(); e.style(w.style); enableMeshCache(0); fill(c, e.dir, w.style, {w.feats[i]}, "mem", w.lod, w.lod);
    Lines s = solid(once(c, w.style, w.q, api::FLAT, ctx)); parts += !s.empty(); want.insert(want.end(), s.begin(), s.end());
  }
  std::sort(want.begin(), want.end());
  if (parts > 1) { c.count("compositions"); c.count("composed_parts", parts); c.distinct(ctx); }
  if (got != want) c.violation("composition/" + what(want, got), diff(want, got) + ctx);
}

// C15: a load cancelled during its k-th callback
void cancelLoad(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  scene::World w = sceneOver(c, dir, 9, 0.1);
  std::string ctx = qk(w.q) + (w.custom ? " custom\n" : " default\n") + list(w.feats);
  api::Engine e(dir + "/a"); bool disk = r.chance(0.4); if (disk) e.persistent("s"); else e.memory("s");
  e.style(w.style); enableMeshCache(0); fill(c, e.dir, w.style, w.feats, "s", w.lod, w.lod);
  api::Result full; api::load(full, w.style, w.q); Lines want = delivered(full);
  if (!full.deliveries) return;
  { api::Result x; x.token.cancel(); api::load(x, w.style, w.q); c.count("cancelled_before"); c.check(x.deliveries == 0, "load/delivered-after-cancel-before", std::to_string(x.deliveries) + " deliveries of a load cancelled before it began\n" + ctx); }
  std::set<long> ks{0, (long) full.deliveries - 1}; for (int i = 0; i < 5; ++i) ks.insert(r.below(full.deliveries));
  for (long k : ks) {
    api::Result x; x.cancelAt = k; api::load(x, w.style, w.q);
    c.count("cancelled_loads"); if (k + 1 < (long) full.deliveries) c.count("cancelled_in_the_middle");
    for (auto &m : x.errors) c.violation("load/cancel-error", m + "\n" + ctx);
    c.check(x.afterCancel == 0, std::string("load/delivered-after-cancel/") + (x.order.size() && x.order.back() ? "element" : isTerrain(x.meshes.back().name) ? "terrain" : "mesh"), std::to_string(x.afterCancel) + " deliveries after the cancel at " + std::to_string(k) + " of " + std::to_string(full.deliveries) + ", last " + (x.order.back() ? "element" : "mesh " + x.meshes.back().name) + "\n" + ctx);
    Lines got = delivered(x), d; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(d));
    c.check(d.empty(), "load/cancelled-content", "a cancelled load delivers what the full one does not: " + (d.empty() ? "" : d[0].substr(0, 300)) + "\n" + ctx);
    if (r.chance(0.4)) { Lines again = once(c, w.style, w.q, api::FLAT, ctx); c.count("loads_after_cancel"); c.check(again == want, "load/after-cancel", "cancel at " + std::to_string(k) + ": " + diff(want, again) + ctx); }
  }
  Lines again = once(c, w.style, w.q, api::FLAT, ctx); c.count("loads_after_cancel"); c.check(again == want, "load/after-cancel", diff(want, again) + ctx);
  c.distinct(ctx);
}

// C15: a text search cancelled during its k-th callback
void cancelSearch(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  api::Engine e(dir); bool disk = r.chance(0.5); if (disk) e.persistent("s"); else e.memory("s"); if (r.chance(0.3)) e.memory("t");
  std::string st = dir + "/s.mapcss"; vf::spit(st, "node|z1-19[k],way|z1-19[k],area|z1-19[k] { clip: false; }\n"); e.style(st); enableMeshCache(0);
  int l0 = (int) r.range(5, 14), l1 = l0 + (int) r.below(3); size_t n = r.range(1, 30);
  for (size_t i = 0; i < n; ++i) { api::Result a; double la = r.real(50, 50.05), lo = r.real(10, 10.05); api::addElement(a, "s", st, i + 1, r.chance(0.6) ? Coords{{la, lo}} : Coords{{la, lo}, {la + 0.01, lo + 0.02}}, {{"k", r.chance(0.5) ? "foo" : "bar"}, {"n", std::to_string(i)}}, l0, l1); for (auto &m : a.errors) c.violation("search/add-error", m); }
  std::string word = r.chance(0.5) ? "foo" : "k";
  auto run = [&](api::Result &x) { api::text(x, "", word, "", 49.9, 9.9, 50.2, 10.2, l0, l1); for (auto &m : x.errors) c.violation("search/error", m); };
  std::string ctx = "word " + word + ", " + std::to_string(n) + " elements, levels " + std::to_string(l0) + "-" + std::to_string(l1) + (disk ? " disk" : " memory");
  api::Result full; run(full); Lines want = delivered(full); if (!full.deliveries) return;
  { api::Result x; x.token.cancel(); run(x); c.count("cancelled_before"); c.check(x.deliveries == 0, "search/delivered-after-cancel", "cancelled before the search: " + std::to_string(x.deliveries) + " of " + std::to_string(full.deliveries) + "; " + ctx); }
  for (int i = 0; i < 5; ++i) {
    api::Result x; x.cancelAt = i == 0 ? 0 : i == 1 ? full.deliveries - 1 : r.below(full.deliveries); run(x); c.count("cancelled_searches"); if (x.cancelAt + 1 < (long) full.deliveries) c.count("searches_cancelled_in_the_middle");
    c.check(x.afterCancel == 0, "search/delivered-after-cancel", std::to_string(x.afterCancel) + " after the cancel at " + std::to_string(x.cancelAt) + " of " + std::to_string(full.deliveries) + "; " + ctx);
    Lines got = delivered(x), d; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(d)); c.check(d.empty(), "search/cancelled-content", ctx);
  }
  api::Result again; run(again); c.check(delivered(again) == want, "search/after-cancel", diff(want, delivered(again)) + ctx); c.distinct(ctx + std::to_string(c.idx));
}

// C15: an import cancelled at an arbitrary moment by another thread
void cancelImport(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  int lod = 16; QuadKey q = GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(r.real(-60, 60), r.real(-170, 170)), lod); BoundingBox b = GeoUtils::quadKeyToBoundingBox(q);
  std::string st = dir + "/s.mapcss"; vf::spit(st, "node|z10-16[k],way|z10-16[k],area|z10-16[k],relation|z10-16[k] { clip: " + std::string(r.chance(0.5) ? "true" : "false") + "; builder: place; }\n");
  std::vector<M> feats; scene::Opt o; o.degenerate = 0; size_t n = r.range(5, 120);
  for (size_t i = 0; i < n; ++i) { M m = scene::feature(r, b, 10 + i, o); m.tags = {{"k", std::to_string(i)}}; if (m.kind == RELATION) m.tags.push_back({"type", "multipolygon"}); feats.push_back(m); }
  std::string f = dir + "/in.xml"; vf::spit(f, scene::toXml(feats));
  auto tiles = around(q);
  auto content = [&](const QuadKey &t) { api::Result x; api::load(x, st, t); for (auto &m : x.errors) c.violation("import/load-error", m); return delivered(x); };
  std::map<size_t, Lines> full; double took; bool disk = r.chance(0.5), range = r.chance(0.3);
  auto run = [&](api::Result &a) { if (range) api::addFile(a, "s", st, f, lod, lod); else api::addFile(a, "s", st, f, q); };
  { api::Engine e(dir + "/a"); e.memory("s"); e.style(st); enableMeshCache(0); api::Result a; double t0 = vf::now(); run(a); took = vf::now() - t0; for (auto &m : a.errors) c.violation("import/error", m); for (size_t i = 0; i < tiles.size(); ++i) full[i] = content(tiles[i]); }
  for (int rep = 0; rep < 3; ++rep) {
    api::Engine e(dir + "/b" + std::to_string(rep)); if (disk) e.persistent("s"); else e.memory("s"); e.style(st); enableMeshCache(0);
    // something that is already there in another tile
    size_t ot = 0; Lines other; M pre; pre.kind = NODE; pre.id = 5; pre.tags = {{"k", "before"}}; BoundingBox ob = GeoUtils::quadKeyToBoundingBox(tiles[ot]); pre.pts = {{(ob.minPoint.latitude + ob.maxPoint.latitude) / 2, (ob.minPoint.longitude + ob.maxPoint.longitude) / 2}};
    bool withPre = !range && r.chance(0.5); if (withPre) { fill(c, e.dir, st, {pre}, "s", lod, lod); other = content(tiles[ot]); }
    api::Result a; double delay = r.real(0, took * 1.1); if (rep == 0 && r.chance(0.5)) a.token.cancel();
    std::thread th([&] { double end = vf::now() + delay; while (vf::now() < end) usleep(20); a.token.cancel(); });
    run(a); th.join(); c.count("cancelled_imports");
    std::string ctx = std::string(range ? "level range" : "tile") + (disk ? " disk " : " memory ") + std::to_string(n) + " elements, cancelled after " + std::to_string(delay / took) + " of the time";
    if (!range) {
      for (auto &m : a.errors) c.violation("import/cancel-error", m + "\n" + ctx);
      Lines got = content(q); size_t mid = 0; for (size_t i = 0; i < tiles.size(); ++i) if (tiles[i].tileX == q.tileX && tiles[i].tileY == q.tileY) mid = i;
      c.count(got.empty() ? "rolled_back" : "completed");
      c.check(got.empty() || got == full[mid], "import/half-done", diff(full[mid], got) + ctx);
      if (withPre) c.check(content(tiles[ot]) == other, "import/other-tile", diff(other, content(tiles[ot])) + ctx);
      if (got.empty()) { api::Result again; run(again); for (auto &m : again.errors) c.violation("import/again-error", m); Lines g2 = content(q); c.check(g2 == full[mid], "import/after-cancel", diff(full[mid], g2) + ctx); c.count("imports_after_cancel"); }
    } else for (size_t i = 0; i < tiles.size(); ++i) {
      Lines got = content(tiles[i]), d; std::set_difference(got.begin(), got.end(), full[i].begin(), full[i].end(), std::back_inserter(d));
      c.check(d.empty(), "import/partial-content", "elements the full import does not have: " + (d.empty() ? "" : d[0].substr(0, 300)) + ctx);
      if (got.size() < full[i].size()) c.count("partial_ranges");
    }
    c.distinct(ctx);
  }
}

// C13: loads with the mesh cache on are compared with loads of an engine without it
struct Load { Lines lines; size_t n = 0; std::vector<std::string> errors; };
void cacheHistory(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  scene::World w; do w = scene::world(r, dir, 0, true); while (w.lod < 13);
  settle(w, dir);
  std::vector<std::string> styles{w.style};
  // further stylesheets: another one, or the same with one thing changed
  for (size_t i = 0, n = r.below(3); i < n; ++i) {
    std::string d = dir + "/style" + std::to_string(i), s = vf::slurp(w.style), lsys = OneTree;
    std::string atlas;
    switch (r.below(7)) {
      case 4: lsys.replace(lsys.find("angle: 45"), 9, "angle: 60"); c.count("style_other_lsystem"); break;
      case 5: { atlas = vf::slurp("/repo/unity/demo/Assets/StreamingAssets/mapcss/default/single.txt"); size_t p = 0; while ((p = atlas.find(",0,0,512,512", p)) != std::string::npos) atlas.replace(p, 12, ",0,0,256,256"); c.count("style_other_textures"); break; }
      case 6: { // two stylesheets with the same text in different places: "0.1" and "5" of the next declaration, or all of it in one value
        std::string key = "zzz" + std::to_string(i); int id; vf::mkdirs(dir + "/index"); { utymap::index::StringTable t(dir + "/index/"); id = (int) t.getId(key); }
        std::string d0 = dir + "/style" + std::to_string(i) + "x"; scene::writeStyleDir(d0, s + "canvas|z1-19 { color-noise-freq: 0.1; " + key + ": 5; }\n"); vf::spit(d0 + "/tree.lsys", lsys); styles.push_back(d0 + "/index.mapcss");
        s += "canvas|z1-19 { color-noise-freq: 0.1" + std::to_string(id) + "5; }\n"; c.count("style_joined"); break; }
      case 0: s = scene::customSheet(r, 1, 19); break;
      case 1: s += "canvas|z1-19 { grid-cell-size: " + std::to_string(2 + r.below(9)) + "%; }\n"; break;
      case 2: s += "area|z1-19[l=grass] { terrain-layer: water; }\n"; break;
      default: { std::string from = "terrain-layer: water", to = "terrain-layer: road"; size_t p = 0; while ((p = s.find(from, p)) != std::string::npos) s.replace(p, from.size(), to); }
    }
    scene::writeStyleDir(d, s); vf::spit(d + "/tree.lsys", lsys); if (!atlas.empty()) vf::spit(d + "/single.txt", atlas); styles.push_back(d + "/index.mapcss");
  }
  bool failing = r.chance(0.4);       // one more stylesheet with which tiles fail half-way
  if (failing) { std::string d = dir + "/styleF"; scene::writeStyleDir(d, vf::slurp(w.style) + "area|z1-19[boom] { building: true; builder: building; height: 3m; facade-type: nosuch; roof-type: none; }\n"); vf::spit(d + "/tree.lsys", OneTree); styles.push_back(d + "/index.mapcss"); }
  std::vector<QuadKey> tiles{w.q}; if (r.chance(0.6)) { QuadKey q2 = w.q; q2.tileX ^= 1; tiles.push_back(q2); if (r.chance(0.5)) { QuadKey q3 = w.q; q3.tileY ^= 1; tiles.push_back(q3); } }
  scene::Opt o; o.degenerate = 0; std::uint64_t id = 10;
  for (auto &q : tiles) for (size_t i = 0, n = r.range(1, 4); i < n; ++i) { M m = scene::feature(r, GeoUtils::quadKeyToBoundingBox(q), id++, o); m.tags = scene::customTags(r, m.kind); if (r.chance(0.6) && m.kind != NODE) { m.tags = {{"l", r.pick(std::vector<std::string>{"water", "road", "grass", "park"})}}; if (m.kind == RELATION) m.tags.push_back({"type", "multipolygon"}); } w.feats.push_back(m); }
  if (failing) { M m; m.kind = AREA; m.id = id++; m.pts = scene::rect(r, scene::pick(r, w.b, -0.2), w.b.height() * 0.1); m.tags = {{"boom", "1"}}; w.feats.push_back(m); }
  std::string ctx = qk(w.q) + "\n" + list(w.feats);
  std::vector<int> eles{api::FLAT}; if (w.lod <= 16 && r.chance(0.4)) { if (r.chance(0.4)) eles.clear(); eles.push_back(api::GRID); for (auto &q : tiles) scene::gridFile(r, dir + "/index", q); }
  size_t variants = styles.size() * eles.size(); if (eles.size() > 1) c.count("several_elevations");
  std::string data = dir + "/data"; vf::mkdirs(data);
  // all stylesheets see the same elements: every load is from one persistent store filled once
  { api::Engine e(dir); e.persistent("s"); for (auto &s : styles) e.style(s); enableMeshCache(0); fill(c, dir, failing ? styles.back() : styles[0], w.feats, "s", w.lod, w.lod); }
  auto open = [&](api::Engine &e, bool cache) { e.persistent("s"); for (auto &s : styles) e.style(s); enableMeshCache(cache ? 1 : 0); };
  auto loadInto = [&](api::Result &x, size_t s, size_t t) { api::load(x, styles[s / eles.size()], tiles[t], eles[s % eles.size()]); };
  auto load = [&](size_t s, size_t t) { api::Result x; loadInto(x, s, t); return x; };
  std::map<std::pair<size_t, size_t>, Load> ref; size_t deliveries = 0;
  { api::Engine e(dir); open(e, false);
    for (size_t s = 0; s < variants; ++s) for (size_t t = 0; t < tiles.size(); ++t) { api::Result x = load(s, t); Load &l = ref[{s, t}]; l.lines = rounded(x); l.n = x.deliveries; l.errors = x.errors; deliveries += l.n; if (!x.errors.empty()) c.count("failing_loads_reference"); else if (!failing) for (auto &m : x.errors) c.violation("cache/reference-error", m + ctx); } }
  if (!deliveries) return;
  std::string hist; auto *e = new api::Engine(dir); open(*e, true);
  std::set<std::pair<size_t, size_t>> seen;
  for (size_t step = 0, n = r.range(4, 14); step < n; ++step) {
    size_t s = r.below(variants), t = r.below(tiles.size()); Load &want = ref[{s, t}];
    std::string where = std::to_string(s) + "," + std::to_string(t);
    switch (r.below(9)) {
      case 0: { // cancelled
        if (!want.n) break; api::Result x; x.cancelAt = r.below(want.n); loadInto(x, s, t); hist += " cancel(" + where + "@" + std::to_string(x.cancelAt) + "/" + std::to_string(want.n) + ")"; c.count("cancelled");
        Lines got = rounded(x), d; std::set_difference(got.begin(), got.end(), want.lines.begin(), want.lines.end(), std::back_inserter(d));
        c.check(d.empty() && x.afterCancel == 0, "cache/cancelled-content", hist + "\n" + (d.empty() ? "" : d[0].substr(0, 300)) + "\n" + ctx); break; }
      case 1: delete e; e = new api::Engine(dir); open(*e, true); hist += " restart"; c.count("restart"); break;
      case 2: { // the process dies during a callback
        if (!want.n) break; delete e; long k = r.below(want.n); hist += " die(" + where + "@" + std::to_string(k) + ")"; c.count("process_ended");
        pid_t p = fork(); if (p == 0) { api::Engine child(dir); open(child, true); api::Result x; x.dieAt = k; loadInto(x, s, t); _exit(0); }
        int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) c.violation("cache/child", "status " + std::to_string(st) + hist + ctx);
        e = new api::Engine(dir); open(*e, true); break; }
      case 3: { // the cache is cleared (files only)
        if (r.chance(0.7)) break; delete e; std::function<void(const std::string &)> clear = [&](const std::string &d) { DIR *h = opendir(d.c_str()); if (!h) return; while (dirent *x = readdir(h)) { std::string nm = x->d_name; if (nm[0] == '.') continue; struct stat st; std::string p = d + "/" + nm; stat(p.c_str(), &st); if (S_ISDIR(st.st_mode)) clear(p); else if (r.chance(0.6)) ::unlink(p.c_str()); } closedir(h); };
        clear(dir + "/index/cache"); e = new api::Engine(dir); open(*e, true); hist += " clear"; c.count("cleared"); break; }
      case 4: { // two loads at once
        size_t t2 = r.chance(0.6) ? t : r.below(tiles.size()), s2 = r.chance(0.6) ? s : r.below(variants); hist += " both(" + where + ";" + std::to_string(s2) + "," + std::to_string(t2) + ")"; c.count("concurrent_pairs");
        api::Result a, b; std::thread th([&] { loadInto(b, s2, t2); }); loadInto(a, s, t); th.join();
        Load &w2 = ref[{s2, t2}];
        c.check(rounded(a) == want.lines, "cache/concurrent/" + what(want.lines, rounded(a)), hist + ": " + diff(want.lines, rounded(a)) + ctx);
        c.check(rounded(b) == w2.lines, "cache/concurrent/" + what(w2.lines, rounded(b)), hist + ": " + diff(w2.lines, rounded(b)) + ctx); break; }
      default: {
        api::Result x = load(s, t); hist += " load(" + where + ")"; c.count("loads"); if (!seen.insert({s, t}).second && want.n) c.count("repeated_loads"); if (!want.errors.empty()) c.count("failing_loads");
        Lines got = rounded(x);
        c.check(x.errors == want.errors, "cache/errors", hist + ": " + (x.errors.empty() ? "no error" : x.errors[0]) + ", expected " + (want.errors.empty() ? "none" : want.errors[0]) + "\n" + ctx);
        if (got != want.lines) c.violation("cache/content/" + what(want.lines, got), hist + ": " + diff(want.lines, got) + ctx); }
    }
  }
  delete e; c.distinct(ctx + hist);
}

// C13: elements are added to a tile after it was cached
void cacheAdd(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  scene::World w; do w = scene::world(r, dir, 0, true); while (w.lod < 13);
  settle(w, dir); scene::Opt o; o.degenerate = 0; std::uint64_t id = 10;
  auto some = [&](size_t n) { std::vector<M> v; for (size_t i = 0; i < n; ++i) { M m = scene::feature(r, w.b, id++, o); m.tags = scene::customTags(r, m.kind); if (r.chance(0.6) && m.kind != NODE) { m.tags = {{"l", r.pick(std::vector<std::string>{"water", "road", "grass", "park"})}}; if (m.kind == RELATION) m.tags.push_back({"type", "multipolygon"}); } v.push_back(m); } return v; };
  std::vector<M> before = some(r.range(1, 4)), after = some(r.range(1, 2)); bool disk = r.chance(0.5);
  auto run = [&](bool cache) {
    std::pair<Lines, Lines> out; std::string d = dir + (cache ? "/with" : "/without"); api::Engine e(d); if (disk) e.persistent("s"); else e.memory("s"); e.style(w.style); enableMeshCache(cache ? 1 : 0);
    fill(c, d, w.style, before, "s", w.lod, w.lod); { api::Result x; api::load(x, w.style, w.q); out.first = rounded(x); }
    fill(c, d, w.style, after, "s", w.lod, w.lod); { api::Result x; api::load(x, w.style, w.q); out.second = rounded(x); }
    return out;
  };
  auto plain = run(false), cached = run(true); std::string ctx = qk(w.q) + "\n" + list(before) + "added:\n" + list(after);
  if (plain.first.empty() && plain.second.empty()) return;
  c.count("added_after_load"); c.distinct(ctx);
  c.check(plain.first == cached.first, "cache/first-load", diff(plain.first, cached.first) + ctx);
  if (plain.second == cached.second) return;
  auto part = [&](const Lines &l, bool terrain) { Lines v; for (auto &x : l) if ((x.compare(0, 5, "mesh ") == 0 && isTerrain(x.substr(5))) == terrain) v.push_back(x); return v; };
  bool stale = part(cached.second, true) == part(plain.first, true) && !part(plain.first, true).empty() && part(cached.second, false) == part(plain.second, false);
  c.violation(stale ? "cache/terrain-built-before-add" : "cache/after-add/" + what(plain.second, cached.second), diff(plain.second, cached.second) + ctx);
}
// contents of unusual size: dense surfaces, long lines, elements with many tags, hundreds of objects
void cacheBig(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c);
  scene::World w; do w = scene::world(r, dir, 0, true); while (w.lod < 15); settle(w, dir);
  auto look = [](const std::string &p) { return p + "color: red; " + p + "color-noise-freq: 0; " + p + "texture-index: 0; " + p + "texture-type: background; " + p + "texture-scale: 10; " + p + "ele-noise-freq: 0;"; };
  char area[32]; snprintf(area, sizeof area, "%.4f%%", std::exp(r.real(std::log(0.001), std::log(0.006))));
  scene::writeStyleDir(dir + "/big", "@texture url(\"single.txt\");\ncanvas|z1-19 { grid-cell-size: 1%; max-area: " + std::string(area) + ";" + look("") + "water-sort-order: 1; water-mesh-name: m; water-max-area: " + area + ";" + look("water-") +
    "}\narea|z1-19[l=water] { clip: true; builder: terrain; terrain-layer: water; }\nway|z1-19[p],node|z1-19[p],area|z1-19[p] { clip: false; builder: place; }\n");
  std::string style = dir + "/big/index.mapcss"; std::vector<M> v; std::uint64_t id = 1; auto la = [&](double k) { return w.b.minPoint.latitude + w.b.height() * k; }; auto lo = [&](double k) { return w.b.minPoint.longitude + w.b.width() * k; };
  if (r.chance(0.7)) { M m; m.kind = AREA; m.id = id++; m.tags = {{"l", "water"}}; for (int i = 0; i < 20; ++i) { double t = i * 2 * 3.14159265 / 20; m.pts.push_back({la(0.5 + 0.3 * std::sin(t)), lo(0.5 + 0.3 * std::cos(t))}); } v.push_back(m); }
  for (int n = (int) r.below(3); n > 0; --n) { M m; m.kind = WAY; m.id = id++; m.tags = {{"p", "line"}}; size_t k = r.pick(std::vector<size_t>{255, 256, 257, 1000, 32768, 65535, 65536, 70000}); for (size_t i = 0; i < k; ++i) m.pts.push_back({la(0.1 + 0.8 * i / k), lo(0.1 + 0.8 * (i % 97) / 97)}); v.push_back(m); c.count("long_lines"); }
  if (r.chance(0.4)) { M m; m.kind = NODE; m.id = id++; m.pts = {{la(0.3), lo(0.4)}}; m.tags = {{"p", "tags"}}; int k = r.pick(std::vector<int>{126, 127, 128, 254, 255, 256, 300}); for (int i = 0; i < k; ++i) m.tags.push_back({"key" + std::to_string(i), "v" + std::to_string(i % 7)}); v.push_back(m); c.count("many_tags"); }
  if (r.chance(0.4)) for (int n = r.pick(std::vector<int>{255, 256, 400}); n > 0; --n) { M m; m.kind = NODE; m.id = id++; m.pts = {{la(r.real(0.05, 0.95)), lo(r.real(0.05, 0.95))}}; m.tags = {{"p", "n" + std::to_string(n % 11)}}; v.push_back(m); }
  size_t largest = 0; std::string ctx = qk(w.q) + " max-area " + area + ", " + std::to_string(v.size()) + " elements\n"; for (auto &m : v) if (m.pts.size() > 100 || m.tags.size() > 100) ctx += std::to_string(m.id) + ": " + std::to_string(m.pts.size()) + " points, " + std::to_string(m.tags.size()) + " tags\n";
  auto run = [&](bool cache) {
    std::vector<Lines> out; std::string d = dir + (cache ? "/with" : "/without"); api::Engine e(d); e.memory("s"); e.style(style); enableMeshCache(cache ? 1 : 0); fill(c, d, style, v, "s", w.lod, w.lod);
    for (int i = 0; i < (cache ? 3 : 1); ++i) { if (i == 2) { e.close(); e.open(); e.memory("s"); e.style(style); enableMeshCache(1); fill(c, d, style, v, "s", w.lod, w.lod); c.count("restart"); }
      api::Result x; api::load(x, style, w.q); for (auto &t : x.errors) c.violation("big/error", t + "\n" + ctx); for (auto &m : x.meshes) largest = std::max(largest, std::max(m.v.size(), m.t.size())); out.push_back(rounded(x)); }
    return out;
  };
  auto plain = run(false), cached = run(true);
  for (auto &x : cached) c.check(x == plain[0], "cache/big/" + what(plain[0], x), diff(plain[0], x) + ctx);
  c.count("big_loads", 3); if (largest > 65535) c.count("big_meshes"); c.distinct(ctx);
}
}
int main(int argc, char **argv) {
  return vf::main(argc, argv, {
    {"repeat", 700, 8000, repeat, 120},
    {"stores", 700, 8000, stores, 120},
    {"composition", 500, 6000, composition, 120},
    {"cancelLoad", 500, 6000, cancelLoad, 120},
    {"cancelSearch", 600, 6000, cancelSearch, 120},
    {"cacheHistory", 400, 5000, cacheHistory, 120},
    {"cacheAdd", 60, 600, cacheAdd, 120},
    {"cacheBig", 12, 150, cacheBig, 200},
    {"cancelImport", 120, 1500, cancelImport, 120},
  });
}
