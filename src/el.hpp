// Model of map elements, independent of the code under test, and conversions/canonical dumps.
#ifndef VF_EL_HPP
#define VF_EL_HPP
#include "vf.hpp"
#include "BoundingBox.hpp"
#include "CancellationToken.hpp"
#include "GeoCoordinate.hpp"
#include "LodRange.hpp"
#include "QuadKey.hpp"
#include "entities/Area.hpp"
#include "entities/Element.hpp"
#include "entities/ElementVisitor.hpp"
#include "entities/Node.hpp"
#include "entities/Relation.hpp"
#include "entities/Way.hpp"
#include "index/StringTable.hpp"
#include "utils/GeoUtils.hpp"

namespace el {
using utymap::BoundingBox;
using utymap::GeoCoordinate;
using utymap::QuadKey;
namespace ent = utymap::entities;
typedef utymap::index::StringTable ST;

enum Kind { NODE, WAY, AREA, RELATION };
inline const char *kindName(int k) { static const char *n[] = {"node", "way", "area", "relation"}; return n[k]; }
typedef std::vector<std::pair<std::string, std::string>> Tags;
typedef std::vector<std::pair<double, double>> Coords;   // lat, lon

struct M {
  Kind kind = NODE;
  std::uint64_t id = 0;
  Tags tags;
  Coords pts;
  std::vector<M> kids;
};

inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }

inline std::string dump(const M &m) {
  std::string s = std::string(kindName(m.kind)) + "#" + std::to_string(m.id) + "{";
  for (auto &t : m.tags) s += t.first + "=" + t.second + ";";
  s += "}";
  if (m.kind == RELATION) { s += "["; for (auto &k : m.kids) s += dump(k) + ","; s += "]"; }
  else for (auto &p : m.pts) s += "(" + num(p.first) + "," + num(p.second) + ")";
  return s;
}

// reads a library element back into the model
struct ToModel : ent::ElementVisitor {
  explicit ToModel(ST &st) : st(st) {}
  ST &st;
  M m;
  void head(const ent::Element &e, Kind k) {
    m.kind = k; m.id = e.id;
    for (auto &t : e.tags) {
      if (t.key == 0xffffffffu) { m.tags.push_back({"!part", ""}); continue; }   // mark of members of building relations
      m.tags.push_back({*st.getString(t.key), *st.getString(t.value)});
    }
  }
  void visitNode(const ent::Node &n) override { head(n, NODE); m.pts.push_back({n.coordinate.latitude, n.coordinate.longitude}); }
  void visitWay(const ent::Way &w) override { head(w, WAY); for (auto &c : w.coordinates) m.pts.push_back({c.latitude, c.longitude}); }
  void visitArea(const ent::Area &a) override { head(a, AREA); for (auto &c : a.coordinates) m.pts.push_back({c.latitude, c.longitude}); }
  void visitRelation(const ent::Relation &r) override {
    head(r, RELATION);
    for (auto &e : r.elements) { if (!e) { M x; x.id = 0xdeadbeef; m.kids.push_back(x); continue; } ToModel k(st); e->accept(k); m.kids.push_back(k.m); }
  }
};
inline M toModel(const ent::Element &e, ST &st) { ToModel v(st); e.accept(v); return v.m; }

struct Collector : ent::ElementVisitor {
  explicit Collector(ST &st) : st(st) {}
  ST &st;
  std::vector<M> got;
  std::function<void()> after;
  void add(const ent::Element &e) { got.push_back(toModel(e, st)); if (after) after(); }
  void visitNode(const ent::Node &n) override { add(n); }
  void visitWay(const ent::Way &w) override { add(w); }
  void visitArea(const ent::Area &a) override { add(a); }
  void visitRelation(const ent::Relation &r) override { add(r); }
};

inline std::vector<ent::Tag> toTags(const Tags &t, ST &st, bool sorted = true) {
  std::vector<ent::Tag> r;
  for (auto &p : t) { auto k = st.getId(p.first); r.push_back(ent::Tag(k, st.getId(p.second))); }
  if (sorted) std::sort(r.begin(), r.end());
  return r;
}

inline std::shared_ptr<ent::Element> make(const M &m, ST &st, bool sorted = true) {
  std::shared_ptr<ent::Element> r;
  auto cs = [&] { std::vector<GeoCoordinate> v; for (auto &p : m.pts) v.push_back(GeoCoordinate(p.first, p.second)); return v; };
  switch (m.kind) {
    case NODE: { auto e = std::make_shared<ent::Node>(); e->coordinate = GeoCoordinate(m.pts.at(0).first, m.pts.at(0).second); r = e; break; }
    case WAY: { auto e = std::make_shared<ent::Way>(); e->coordinates = cs(); r = e; break; }
    case AREA: { auto e = std::make_shared<ent::Area>(); e->coordinates = cs(); r = e; break; }
    default: { auto e = std::make_shared<ent::Relation>(); for (auto &k : m.kids) e->elements.push_back(make(k, st, sorted)); r = e; }
  }
  r->id = m.id;
  r->tags = toTags(m.tags, st, sorted);
  return r;
}

// puts tags in the order make() stores them
inline void sortTags(M &m, ST &st) {
  std::stable_sort(m.tags.begin(), m.tags.end(), [&](const Tags::value_type &a, const Tags::value_type &b) { return st.getId(a.first) < st.getId(b.first); });
  for (auto &k : m.kids) sortTags(k, st);
}

inline void bounds(const M &m, BoundingBox &b) {
  for (auto &p : m.pts) b.expand(GeoCoordinate(p.first, p.second));
  for (auto &k : m.kids) bounds(k, b);
}

inline std::string qk(const QuadKey &q) {
  return std::to_string(q.levelOfDetail) + "/" + std::to_string(q.tileX) + "/" + std::to_string(q.tileY);
}

inline std::vector<std::string> dumps(const std::vector<M> &v) {
  std::vector<std::string> r;
  for (auto &m : v) r.push_back(dump(m));
  return r;
}
inline std::string join(const std::vector<std::string> &v, size_t max = 40) {
  std::string s;
  for (size_t i = 0; i < v.size() && i < max; ++i) s += "  " + v[i] + "\n";
  if (v.size() > max) s += "  ... " + std::to_string(v.size()) + " in all\n";
  return s;
}
// multiset difference report; empty when equal
inline std::string diff(std::vector<std::string> want, std::vector<std::string> got) {
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  if (want == got) return "";
  std::vector<std::string> a, b;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a));
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(b));
  return "missing (" + std::to_string(a.size()) + "):\n" + join(a) + "unexpected (" + std::to_string(b.size()) + "):\n" + join(b);
}

inline void makeDataDirs(const std::string &d, int maxLod = 19) {
  for (int i = 1; i <= maxLod; ++i) vf::mkdirs(d + "/" + std::to_string(i));
}

// ---------- generators ----------
inline std::string word(vf::Rng &r) {
  static const std::vector<std::string> w = {"building", "yes", "highway", "residential", "name", "Berlin", "natural", "water", "landuse", "forest",
    "addr:street", "Invalidenstraße", "height", "12", "wood", "addr:housenumber", "a_b", "x", "level", "roof:shape", "flat", "colour", "#aabbcc",
    "St. Mary's", "wikipedia", "de:Haus (Berlin)", "0", "1", "kerb", "barrier"};
  return r.pick(w);
}
inline Tags tags(vf::Rng &r, size_t max) {
  Tags t;
  std::set<std::string> seen;
  size_t n = r.below(max + 1);
  for (size_t i = 0; i < n; ++i) {
    std::string k = word(r);
    if (r.chance(0.1)) k += std::to_string(r.below(200));
    if (!seen.insert(k).second) continue;
    t.push_back({k, r.chance(0.15) ? word(r) + " " + word(r) + std::to_string(r.below(1000)) : word(r)});
  }
  return t;
}
inline double coordNoise(vf::Rng &r, double a, double b) {
  // also values whose bytes look like white space or zero, which text-mode I/O would damage
  double v = r.real(a, b);
  if (r.chance(0.3)) v = std::round(v * 16) / 16;
  return std::min(std::max(v, a), b);
}
inline M element(vf::Rng &r, const BoundingBox &box, std::uint64_t id, int depth = 1) {
  M m;
  m.id = id;
  m.kind = (Kind) r.below(depth > 0 ? 4 : 3);
  m.tags = tags(r, r.chance(0.05) ? 40 : 5);
  auto pt = [&] { return std::make_pair(coordNoise(r, box.minPoint.latitude, box.maxPoint.latitude), coordNoise(r, box.minPoint.longitude, box.maxPoint.longitude)); };
  switch (m.kind) {
    case NODE: m.pts.push_back(pt()); break;
    case WAY: { size_t n = 2 + r.below(r.chance(0.05) ? 600 : 6); while (m.pts.size() < n) m.pts.push_back(pt()); break; }
    case AREA: { size_t n = 3 + r.below(6); while (m.pts.size() < n) m.pts.push_back(pt()); break; }
    default: { size_t n = r.below(4); for (size_t i = 0; i < n; ++i) m.kids.push_back(element(r, box, id * 100 + i + 1, depth - 1)); }
  }
  return m;
}
}
#endif
