// What the drivers over whole engines share.
#ifndef VF_ENGINE_HPP
#define VF_ENGINE_HPP
#include "api.hpp"
#include "scene.hpp"
#include <thread>
using namespace el;
using utymap::utils::GeoUtils;
namespace {
typedef std::vector<std::string> Lines;
Lines delivered(const api::Result &r) { Lines v; for (auto &m : r.meshes) v.push_back(api::dump(m)); for (auto &e : r.elems) v.push_back(api::dump(e)); std::sort(v.begin(), v.end()); return v; }
std::string diff(const Lines &want, const Lines &got) {
  Lines a, b; std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a)); std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(b));
  auto head = [](const Lines &v) { std::string s; for (size_t i = 0; i < v.size() && i < 4; ++i) s += "  " + v[i].substr(0, 300) + "\n"; return s; };
  return std::to_string(want.size()) + " expected, " + std::to_string(got.size()) + " delivered\nmissing " + std::to_string(a.size()) + ":\n" + head(a) + "additional " + std::to_string(b.size()) + ":\n" + head(b);
}
std::string firstWord(const std::string &s) { std::istringstream i(s); std::string a, b; i >> a >> b; b = b.substr(0, b.find(':')); return a + (a == "mesh" ? "-" + b.substr(0, 10) : ""); }
// which kind of thing differs first (part of the key of a violation)
std::string what(const Lines &want, const Lines &got) {
  Lines a; std::set_symmetric_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a));
  return a.empty() ? "" : firstWord(a[0]);
}
// meshes of single elements have names with a prefix and an id
bool isTerrain(const std::string &line) { return line.substr(0, line.find(' ')).find(':') == std::string::npos; }

void fill(vf::Ctx &c, const std::string &dir, const std::string &style, const std::vector<M> &feats, const std::string &key, int lod0, int lod1) {
  std::vector<M> rest; static int n = 0;
  for (auto &m : feats) {
    if (m.kind == RELATION) { rest.push_back(m); continue; }
    Coords p = m.pts; if (m.kind == AREA) p.push_back(p.front());
    api::Result a; api::addElement(a, key, style, m.id, p, m.tags, lod0, lod1);
    for (auto &x : a.errors) c.violation("add/error", x + "\n" + dump(m));
  }
  if (rest.empty()) return;
  std::string f = dir + "/in" + std::to_string(n++) + ".xml"; vf::spit(f, scene::toXml(rest));
  api::Result a; api::addFile(a, key, style, f, lod0, lod1);
  for (auto &x : a.errors) c.violation("import/error", x);
}
// ids repeat across kinds of elements (as they do in OSM), never within a kind. A relation of which one member
// lies in the tile is stored as that member, so only relations which stay whole share ids with ways.
void equalIds(vf::Rng &r, std::vector<M> &v, const BoundingBox &b) {
  std::set<std::pair<int, std::uint64_t>> used;
  for (auto &m : v) {
    bool whole = m.kids.size() > 1; for (auto &k : m.kids) for (auto &p : k.pts) whole &= p.first > b.minPoint.latitude && p.first < b.maxPoint.latitude && p.second > b.minPoint.longitude && p.second < b.maxPoint.longitude;
    int k = m.kind == AREA ? WAY : m.kind; std::uint64_t base = k == RELATION && !whole ? 1000 : 1; do m.id = base + r.below(4 + v.size()); while (!used.insert({k, m.id}).second);
  }
}
std::string list(const std::vector<M> &v) { std::string s; for (auto &m : v) s += dump(m) + "\n"; return s; }

// styles whose L-systems leave nothing to chance (productions with weights are drawn at random, on purpose)
const char *const OneTree = "generations: 3\nangle: 45\nscale: 3\naxiom: root\nroot -> ! ! cylinder branch branch\nbranch -> [ + ! cylinder foliage ]\nfoliage -> [ G $ $ $ sphere ]\n";
void copyTree(const std::string &from, const std::string &to) {
  vf::mkdirs(to); DIR *d = opendir(from.c_str()); if (!d) return;
  while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n[0] == '.') continue; struct stat st; stat((from + "/" + n).c_str(), &st); if (S_ISDIR(st.st_mode)) copyTree(from + "/" + n, to + "/" + n); else if (n.size() < 5 || n.substr(n.size() - 5) != ".meta") vf::spit(to + "/" + n, vf::slurp(from + "/" + n)); }
  closedir(d);
}
void settle(scene::World &w, const std::string &dir) {
  if (!w.custom) { copyTree("/repo/unity/demo/Assets/StreamingAssets/mapcss/default", dir + "/style"); w.style = dir + "/style/index.mapcss"; vf::spit(dir + "/style/conifer.lsys", OneTree); }
  vf::spit(dir + "/style/tree.lsys", OneTree);
}
scene::World sceneOver(vf::Ctx &c, const std::string &dir, size_t n, double grow) {
  auto &r = c.rng; bool custom = r.chance(0.6);
  scene::World w = scene::world(r, dir, 0, custom); while (custom && w.lod < 14) w = scene::world(r, dir, 0, custom); settle(w, dir);
  BoundingBox b = w.b; double h = b.height() * grow, ww = b.width() * grow;
  BoundingBox g(utymap::GeoCoordinate(std::max(-80., b.minPoint.latitude - h), b.minPoint.longitude - ww), utymap::GeoCoordinate(std::min(80., b.maxPoint.latitude + h), b.maxPoint.longitude + ww));
  scene::Opt o; o.degenerate = 0.02;
  for (size_t i = 0, k = 1 + r.below(n); i < k; ++i) { M m = scene::feature(r, r.chance(0.5) ? w.b : g, 100 + i, o); if (custom) m.tags = scene::customTags(r, m.kind); w.feats.push_back(m); }
  return w;
}
Lines once(vf::Ctx &c, const std::string &style, const QuadKey &q, int ele, const std::string &ctx) {
  api::Result res; res.tag = (int) c.rng.below(1000); api::load(res, style, q, ele);
  for (auto &x : res.errors) c.violation("load/error", x + "\n" + ctx);
  c.check(res.wrongTag == 0, "load/tag", std::to_string(res.wrongTag) + " callbacks with another tag\n" + ctx);
  c.count("loads"); c.count("meshes", res.meshes.size()); c.count("elements", res.elems.size());
  return delivered(res);
}
std::vector<QuadKey> around(const QuadKey &q) {
  std::vector<QuadKey> v; int n = 1 << q.levelOfDetail;
  for (int y = q.tileY - 1; y <= q.tileY + 1; ++y) for (int x = q.tileX - 1; x <= q.tileX + 1; ++x) if (x >= 0 && y >= 0 && x < n && y < n) v.push_back(QuadKey(q.levelOfDetail, x, y));
  return v;
}
Lines rounded(api::Result r) { for (auto &m : r.meshes) { for (auto &d : m.v) d = (float) d; for (auto &d : m.uv) d = (float) d; } return delivered(r); }   // meshes are cached in single precision
}
#endif
