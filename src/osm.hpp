// Model of an OSM extract, encoders (XML, PBF, GeoJSON-like) and the expected import result.
#ifndef VF_OSM_HPP
#define VF_OSM_HPP
#include "el.hpp"
#include <fileformat.pb.h>
#include <osmformat.pb.h>
#include <zlib.h>

namespace osm {
using el::Tags;
struct N { std::uint64_t id; std::int64_t lat, lon; Tags tags; };      // 1e-7 degrees
struct W { std::uint64_t id; std::vector<std::uint64_t> refs; Tags tags; };
struct Mem { char type; std::uint64_t ref; std::string role; };
struct R { std::uint64_t id; std::vector<Mem> mem; Tags tags; };
struct Data { std::vector<N> nodes; std::vector<W> ways; std::vector<R> rels; };

inline std::string xesc(const std::string &s, vf::Rng &r) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '&') o += r.chance(0.8) ? "&amp;" : "&#38;";
    else if (c == '<') o += "&lt;";
    else if (c == '>') o += r.chance(0.5) ? "&gt;" : ">";
    else if (c == '"') o += r.chance(0.8) ? "&quot;" : "&#x22;";
    else if (c == '\'') o += r.chance(0.5) ? "&apos;" : "'";
    else o += (char) c;
  }
  return o;
}
inline std::string fix7(std::int64_t v) {
  char b[40]; bool neg = v < 0; std::uint64_t a = neg ? -v : v;
  snprintf(b, sizeof b, "%s%llu.%07llu", neg ? "-" : "", (unsigned long long) (a / 10000000), (unsigned long long) (a % 10000000));
  return b;
}

inline std::string xml(const Data &d, vf::Rng &r) {
  std::ostringstream o;
  bool meta = r.chance(0.7); int style = (int) r.below(3);
  std::string nl = r.chance(0.8) ? "\n" : "", ind = nl.empty() ? "" : r.pick(std::vector<std::string>{"  ", "\t", " "});
  auto attrs = [&](std::uint64_t k) {
    std::ostringstream a;
    if (meta) a << " version=\"" << 1 + k % 9 << "\" timestamp=\"2014-05-04T17:23:27Z\" changeset=\"" << k * 3 << "\" uid=\"" << k % 1000 << "\" user=\"" << xesc(k % 3 ? "a user" : "M<ü>ller & Co", r) << "\"";
    return a.str();
  };
  o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" << nl << "<osm version=\"0.6\" generator=\"CGImap 0.3.3\" copyright=\"OpenStreetMap and contributors\">" << nl;
  if (r.chance(0.7)) o << ind << "<bounds minlat=\"52.5\" minlon=\"13.3\" maxlat=\"52.6\" maxlon=\"13.4\"/>" << nl;
  auto tagsOut = [&](const Tags &t) { for (auto &x : t) o << ind << ind << "<tag k=\"" << xesc(x.first, r) << "\" v=\"" << xesc(x.second, r) << "\"/>" << nl; };
  for (auto &n : d.nodes) {
    std::string pos = "lat=\"" + fix7(n.lat) + "\" lon=\"" + fix7(n.lon) + "\"";
    if (style == 0) o << ind << "<node id=\"" << n.id << "\" visible=\"true\"" << attrs(n.id) << " " << pos;
    else o << ind << "<node id=\"" << n.id << "\" " << pos << attrs(n.id);
    if (n.tags.empty()) o << "/>" << nl; else { o << ">" << nl; tagsOut(n.tags); o << ind << "</node>" << nl; }
  }
  for (auto &w : d.ways) {
    o << ind << "<way id=\"" << w.id << "\"" << attrs(w.id) << ">" << nl;
    for (auto x : w.refs) o << ind << ind << "<nd ref=\"" << x << "\"/>" << nl;
    tagsOut(w.tags);
    o << ind << "</way>" << nl;
  }
  for (auto &x : d.rels) {
    o << ind << "<relation id=\"" << x.id << "\"" << attrs(x.id) << ">" << nl;
    for (auto &m : x.mem)
      o << ind << ind << "<member type=\"" << (m.type == 'n' ? "node" : m.type == 'w' ? "way" : "relation") << "\" ref=\"" << m.ref << "\" role=\"" << xesc(m.role, r) << "\"/>" << nl;
    tagsOut(x.tags);
    o << ind << "</relation>" << nl;
  }
  o << "</osm>" << nl;
  return o.str();
}

struct PbfOptions { bool dense, compress; std::int64_t gran, latOff, lonOff; size_t block, group; };
inline PbfOptions pbfOptions(vf::Rng &r) {
  PbfOptions o;
  o.dense = r.chance(0.6); o.compress = r.chance(0.6);
  static const std::vector<std::int64_t> g = {100, 100, 1, 10, 20, 50};
  o.gran = r.pick(g);
  o.latOff = r.chance(0.4) ? r.range(-900, 900) * 100000000LL : 0;
  o.lonOff = r.chance(0.4) ? r.range(-1800, 1800) * 100000000LL : 0;
  o.block = r.chance(0.5) ? 8000 : 1 + r.below(20);
  o.group = r.chance(0.5) ? 8000 : 1 + r.below(10);
  return o;
}

inline void putBlob(std::string &out, const char *type, const std::string &payload, bool compress) {
  OSMPBF::Blob b;
  if (compress) {
    uLongf n = compressBound(payload.size()); std::string z(n, 0);
    compress2((Bytef *) &z[0], &n, (const Bytef *) payload.data(), payload.size(), 6); z.resize(n);
    b.set_zlib_data(z); b.set_raw_size((int) payload.size());
  } else b.set_raw(payload);
  std::string body; b.SerializeToString(&body);
  OSMPBF::BlobHeader h; h.set_type(type); h.set_datasize((int) body.size());
  std::string hs; h.SerializeToString(&hs);
  unsigned n = (unsigned) hs.size();
  char be[4] = {(char) (n >> 24), (char) (n >> 16), (char) (n >> 8), (char) n};
  out.append(be, 4); out += hs; out += body;
}

struct Strings {
  std::vector<std::string> s{""}; std::map<std::string, int> ix;
  int id(const std::string &v) { auto it = ix.find(v); if (it != ix.end()) return it->second; s.push_back(v); return ix[v] = (int) s.size() - 1; }
};

inline std::string pbf(const Data &d, vf::Rng &r, const PbfOptions &o) {
  std::string out;
  { OSMPBF::HeaderBlock h; h.add_required_features("OsmSchema-V0.6"); h.add_required_features("DenseNodes"); std::string s; h.SerializeToString(&s); putBlob(out, "OSMHeader", s, o.compress); }
  // primitives in file order, cut into blocks and groups (one kind per group)
  size_t total = d.nodes.size() + d.ways.size() + d.rels.size(), at = 0;
  auto kindOf = [&](size_t i) { return i < d.nodes.size() ? 0 : i < d.nodes.size() + d.ways.size() ? 1 : 2; };
  while (at < total) {
    size_t end = std::min(total, at + o.block);
    OSMPBF::PrimitiveBlock pb; Strings st;
    pb.set_granularity((int) o.gran); pb.set_lat_offset(o.latOff); pb.set_lon_offset(o.lonOff);
    while (at < end) {
      size_t gend = std::min(end, at + o.group); int kind = kindOf(at);
      while (kindOf(gend - 1) != kind) --gend;
      auto *g = pb.add_primitivegroup();
      auto lat = [&](const N &n) { return (n.lat * 100 - o.latOff) / o.gran; };
      auto lon = [&](const N &n) { return (n.lon * 100 - o.lonOff) / o.gran; };
      if (kind == 0 && o.dense) {
        auto *dn = g->mutable_dense(); std::int64_t pi = 0, pla = 0, plo = 0; bool anyTags = false;
        for (size_t i = at; i < gend; ++i) if (!d.nodes[i].tags.empty()) anyTags = true;
        for (size_t i = at; i < gend; ++i) {
          auto &n = d.nodes[i];
          dn->add_id((std::int64_t) n.id - pi); pi = (std::int64_t) n.id;
          dn->add_lat(lat(n) - pla); pla = lat(n); dn->add_lon(lon(n) - plo); plo = lon(n);
          if (anyTags) { for (auto &t : n.tags) { dn->add_keys_vals(st.id(t.first)); dn->add_keys_vals(st.id(t.second)); } dn->add_keys_vals(0); }
        }
      } else for (size_t i = at; i < gend; ++i) {
        if (kind == 0) {
          auto &n = d.nodes[i]; auto *p = g->add_nodes(); p->set_id((std::int64_t) n.id); p->set_lat(lat(n)); p->set_lon(lon(n));
          for (auto &t : n.tags) { p->add_keys(st.id(t.first)); p->add_vals(st.id(t.second)); }
        } else if (kind == 1) {
          auto &w = d.ways[i - d.nodes.size()]; auto *p = g->add_ways(); p->set_id((std::int64_t) w.id); std::int64_t prev = 0;
          for (auto x : w.refs) { p->add_refs((std::int64_t) x - prev); prev = (std::int64_t) x; }
          for (auto &t : w.tags) { p->add_keys(st.id(t.first)); p->add_vals(st.id(t.second)); }
        } else {
          auto &x = d.rels[i - d.nodes.size() - d.ways.size()]; auto *p = g->add_relations(); p->set_id((std::int64_t) x.id); std::int64_t prev = 0;
          for (auto &m : x.mem) { p->add_memids((std::int64_t) m.ref - prev); prev = (std::int64_t) m.ref; p->add_roles_sid(st.id(m.role));
            p->add_types(m.type == 'n' ? OSMPBF::Relation::NODE : m.type == 'w' ? OSMPBF::Relation::WAY : OSMPBF::Relation::RELATION); }
          for (auto &t : x.tags) { p->add_keys(st.id(t.first)); p->add_vals(st.id(t.second)); }
        }
      }
      at = gend;
    }
    for (auto &s : st.s) pb.mutable_stringtable()->add_s(s);
    std::string s; pb.SerializeToString(&s);
    putBlob(out, "OSMData", s, o.compress);
  }
  return out;
}
}
#endif
