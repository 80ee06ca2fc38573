// Model and writer of ESRI shapefiles (.shp, .shx, .dbf), from the published format descriptions.
#ifndef VF_SHP_HPP
#define VF_SHP_HPP
#include "el.hpp"
namespace shp {
enum Type { NUL = 0, POINT = 1, ARC = 3, POLYGON = 5, MULTIPOINT = 8 };   // +10: Z (and M), +20: M
struct Column { std::string name; char type; int width, decimals; };
struct Record { int type = POINT; std::vector<el::Coords> parts; std::vector<std::string> values; };   // pts are (lat, lon); value texts, "" is null
struct File { int type = POINT; std::vector<Column> columns; std::vector<Record> records; };
struct Bytes { std::string shp, shx, dbf; };

inline void le32(std::string &s, std::uint32_t v) { for (int i = 0; i < 4; ++i) s += (char) (v >> (8 * i)); }
inline void be32(std::string &s, std::uint32_t v) { for (int i = 3; i >= 0; --i) s += (char) (v >> (8 * i)); }
inline void f64(std::string &s, double d) { std::uint64_t u; memcpy(&u, &d, 8); for (int i = 0; i < 8; ++i) s += (char) (u >> (8 * i)); }

inline std::string content(const Record &rec, vf::Rng &r, bool measures) {
  std::string s; le32(s, rec.type); if (rec.type == NUL) return s;
  int base = rec.type % 10; bool z = rec.type / 10 == 1, m = rec.type / 10 == 2 || (z && measures);
  auto zs = [&](size_t n, bool box) { if (box) { f64(s, -1); f64(s, 900); } for (size_t i = 0; i < n; ++i) f64(s, r.real(0, 800)); };
  if (base == POINT) { auto &p = rec.parts[0][0]; f64(s, p.second); f64(s, p.first); if (z) zs(1, false); if (m) zs(1, false); return s; }
  double b[4] = {1e9, 1e9, -1e9, -1e9}; size_t n = 0;
  for (auto &p : rec.parts) for (auto &q : p) { b[0] = std::min(b[0], q.second); b[1] = std::min(b[1], q.first); b[2] = std::max(b[2], q.second); b[3] = std::max(b[3], q.first); ++n; }
  for (double d : b) f64(s, d);
  if (base != MULTIPOINT) le32(s, rec.parts.size());
  le32(s, n);
  if (base != MULTIPOINT) { size_t at = 0; for (auto &p : rec.parts) { le32(s, at); at += p.size(); } }
  for (auto &p : rec.parts) for (auto &q : p) { f64(s, q.second); f64(s, q.first); }
  if (z) zs(n, true);
  if (m) zs(n, true);
  return s;
}
inline std::string header(const File &f, size_t bytes) {
  std::string s; be32(s, 9994); for (int i = 0; i < 5; ++i) be32(s, 0); be32(s, bytes / 2); le32(s, 1000); le32(s, f.type);
  double b[4] = {1e9, 1e9, -1e9, -1e9};
  for (auto &k : f.records) for (auto &p : k.parts) for (auto &q : p) { b[0] = std::min(b[0], q.second); b[1] = std::min(b[1], q.first); b[2] = std::max(b[2], q.second); b[3] = std::max(b[3], q.first); }
  for (double d : b) f64(s, d); for (int i = 0; i < 4; ++i) f64(s, 0);
  return s;
}
// shuffled: records lie in the file in another order than the index lists them, with gaps
inline Bytes write(const File &f, vf::Rng &r, bool shuffled = false) {
  std::vector<size_t> order; for (size_t i = 0; i < f.records.size(); ++i) order.push_back(i);
  if (shuffled) r.shuffle(order);
  std::vector<std::pair<std::uint32_t, std::uint32_t>> at(order.size()); std::string body; bool measures = r.chance(0.5);
  for (size_t i : order) {
    if (shuffled && r.chance(0.3)) body += std::string(2 * r.below(20), (char) 0xee);
    std::string k = content(f.records[i], r, measures);
    at[i] = {(std::uint32_t) (100 + body.size()) / 2, (std::uint32_t) k.size() / 2};
    be32(body, i + 1); be32(body, k.size() / 2); body += k;
  }
  Bytes o; o.shp = header(f, 100 + body.size()) + body;
  o.shx = header(f, 100 + 8 * at.size()); for (auto &a : at) { be32(o.shx, a.first); be32(o.shx, a.second); }
  // dBASE III
  int len = 1; for (auto &c : f.columns) len += c.width;
  std::string &d = o.dbf; d += (char) 3; d += (char) 116; d += (char) 7; d += (char) 26; le32(d, f.records.size());
  int head = 32 + 32 * (int) f.columns.size() + 1; d += (char) head; d += (char) (head >> 8); d += (char) len; d += (char) (len >> 8); d += std::string(20, 0);
  for (auto &c : f.columns) { std::string n = c.name; n.resize(11); d += n; d += c.type; d += std::string(4, 0); d += (char) c.width; d += (char) c.decimals; d += std::string(14, 0); }
  d += (char) 0x0d;
  for (auto &k : f.records) { d += ' '; for (size_t i = 0; i < f.columns.size(); ++i) {
    auto &c = f.columns[i]; std::string v = k.values[i];
    if (c.type == 'L' && v.empty()) v = "?";
    if (c.type == 'C' || c.type == 'D' || c.type == 'L') v.resize(c.width, ' '); else v = std::string(c.width - v.size(), ' ') + v;
    d += v; } }
  if (r.chance(0.7)) d += (char) 0x1a;
  return o;
}
inline void save(const Bytes &b, const std::string &path) {   // path without extension
  vf::spit(path + ".shp", b.shp); vf::spit(path + ".shx", b.shx); vf::spit(path + ".dbf", b.dbf);
}

inline std::string digits(vf::Rng &r, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char) ((i ? '0' : '1') + r.below(i ? 10 : 9)); return s; }
inline std::string value(vf::Rng &r, const Column &c) {
  if (r.chance(0.15) && c.type != 'D') return "";
  if (c.type == 'L') return std::string(1, "TFYNtf"[r.below(6)]);
  if (c.type == 'D') return std::to_string(r.range(1900, 2030)) + "0" + std::to_string(r.range(1, 9)) + std::to_string(r.range(10, 28));
  if (c.type == 'C') {
    static const std::vector<std::string> w = {"Foo", "a b", "Straße", "x=y", "0", "-1", "007", "\"q\"", "{a}", "é", "1;2", "name with spaces"};
    std::string s = r.chance(0.6) ? r.pick(w) : el::word(r); if (r.chance(0.1)) s = std::string(c.width, 'w');
    if ((int) s.size() > c.width) s = std::string(c.width, 'a' + (char) r.below(26));
    return s;
  }
  bool neg = c.width > 2 && r.chance(0.3); int room = c.width - neg - (c.decimals ? c.decimals + 1 : 0); if (room < 1) { neg = false; room = c.width - (c.decimals ? c.decimals + 1 : 0); }
  std::string s = r.chance(0.1) ? "0" : digits(r, 1 + (int) r.below(room));
  if (c.decimals) { s += "."; for (int i = 0; i < c.decimals; ++i) s += (char) ('0' + r.below(10)); }
  return (neg ? "-" : "") + s;
}
inline std::vector<Column> columns(vf::Rng &r) {
  std::vector<Column> v; size_t n = 1 + r.below(r.chance(0.2) ? 40 : 6);
  for (size_t i = 0; i < n; ++i) {
    Column c; c.name = (r.chance(0.5) ? "c" : "Column") + std::to_string(i); if (r.chance(0.1)) c.name = (std::string("ABCDEFGHIJ").substr(0, 10 - std::to_string(i).size()) + std::to_string(i));
    c.decimals = 0;
    switch (r.below(6)) {
      case 0: c.type = 'N'; c.width = 1 + (int) r.below(18); break;
      case 1: c.type = r.chance(0.5) ? 'N' : 'F'; c.width = 5 + (int) r.below(15); c.decimals = 1 + (int) r.below(std::min(c.width - 3, 12)); break;
      case 2: c.type = 'L'; c.width = 1; break;
      case 3: c.type = 'D'; c.width = 8; break;
      default: c.type = 'C'; c.width = r.chance(0.1) ? 254 : 1 + (int) r.below(40);
    }
    v.push_back(c);
  }
  return v;
}
}
#endif
