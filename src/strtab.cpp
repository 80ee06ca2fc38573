// C05: string interning against a map model: histories with reopening, hash collisions, threads.
#include "vf.hpp"
#include "index/StringTable.hpp"
#include "hashing/MurmurHash3.h"
#include <thread>
#include <unordered_map>
typedef utymap::index::StringTable ST;
namespace {
std::string randomString(vf::Rng &r) {
  double x = r.real();
  std::string s;
  if (x < 0.02) return "";
  if (x < 0.5) { size_t n = 1 + r.below(4); for (size_t i = 0; i < n; ++i) s += (char) ('a' + r.below(4)); return s; }
  if (x < 0.8) { size_t n = 1 + r.below(30); for (size_t i = 0; i < n; ++i) s += (char) (1 + r.below(255)); return s; }
  if (x < 0.85) return std::string(r.below(5000), (char) ('a' + r.below(26)));
  if (x < 0.9) return s + "\n" + std::to_string(r.below(50)) + "\r\n\x1a \t";
  return "key" + std::to_string(r.below(3000));
}
// groups of NUL-free strings with one 32 bit hash
const std::vector<std::vector<std::string>> &collisions() {
  static std::vector<std::vector<std::string>> g;
  if (g.empty()) {
    std::unordered_map<std::uint32_t, std::string> seen;
    for (std::uint32_t i = 0; i < 400000; ++i) {
      std::string s = "c" + std::to_string(i * 2654435761u % 1000000007u);
      std::uint32_t h; MurmurHash3_x86_32(s.c_str(), (int) s.size(), 0, &h);
      auto it = seen.find(h);
      if (it != seen.end() && it->second != s) g.push_back({it->second, s});
      else seen[h] = s;
    }
  }
  return g;
}

void history(vf::Ctx &c) {
  auto &r = c.rng;
  std::string dir = vf::freshDir(c) + "/";
  std::unique_ptr<ST> st(new ST(dir));
  std::map<std::string, std::uint32_t> ids;
  std::map<std::uint32_t, std::string> strs;
  std::vector<std::string> all;
  std::vector<std::string> log;
  auto trace = [&] { std::string s; for (size_t i = log.size() > 30 ? log.size() - 30 : 0; i < log.size(); ++i) s += log[i] + "\n"; return s; };
  auto note = [&](const std::string &s) { log.push_back(s.substr(0, 80)); };
  // more strings than the lookup cache holds in some histories
  size_t ops = r.chance(0.15) ? 6000 : 20 + r.below(300);
  bool manyNew = r.chance(0.3);
  std::uint32_t maxId = 0; bool any = false;
  for (size_t i = 0; i < ops && c.violations.size() < 3; ++i) {
    double x = r.real();
    if (x < 0.55) {
      std::string s = r.chance(0.05) ? r.pick(r.pick(collisions())) : (!all.empty() && r.chance(manyNew ? 0.1 : 0.4)) ? r.pick(all) : randomString(r);
      if (manyNew && r.chance(0.5)) s += std::to_string(i);
      std::uint32_t id = st->getId(s);
      note("getId(" + vf::jesc(s) + ") = " + std::to_string(id));
      c.count("getId");
      auto it = ids.find(s);
      if (it != ids.end()) {
        c.count("getId_repeated");
        if (it->second != id) c.violation("id-changed", "'" + vf::jesc(s) + "' had id " + std::to_string(it->second) + ", now " + std::to_string(id) + "\n" + trace());
      } else {
        if (strs.count(id)) c.violation("id-shared", "'" + vf::jesc(s) + "' got id " + std::to_string(id) + " of '" + vf::jesc(strs[id]) + "'\n" + trace());
        ids[s] = id; strs[id] = s; all.push_back(s);
        if (!any || id > maxId) maxId = id;
        any = true;
      }
    } else if (x < 0.9 && !all.empty()) {
      std::string s = r.pick(all);
      std::uint32_t id = ids[s];
      auto got = st->getString(id);
      c.count("getString");
      note("getString(" + std::to_string(id) + ")");
      if (!got || *got != s) c.violation("string-changed", "id " + std::to_string(id) + " was given to '" + vf::jesc(s) + "' and yields '" + (got ? vf::jesc(*got) : "null") + "'\n" + trace());
    } else if (x < 0.95) {
      // ids that were never given out
      std::uint32_t id = r.chance(0.5) ? (any ? maxId + 1 + (std::uint32_t) r.below(3) : (std::uint32_t) r.below(3)) : 0xFFFFFFFFu - (std::uint32_t) r.below(4);
      if (strs.count(id)) continue;
      auto got = st->getString(id);
      c.count("getString_unknown");
      note("getString(unknown " + std::to_string(id) + ")");
      if (!got || !got->empty()) c.violation("unknown-id", "id " + std::to_string(id) + " was never given out but yields '" + (got ? vf::jesc(*got) : "null") + "'\n" + trace());
    } else if (x < 0.97) {
      st.reset();
      st.reset(new ST(dir));
      c.count("reopen");
      note("reopen");
    }
  }
  st.reset();
  st.reset(new ST(dir));
  for (auto &k : ids) {
    auto got = st->getString(k.second);
    if (!got || *got != k.first) { c.violation("string-changed", "after reopening id " + std::to_string(k.second) + " yields '" + (got ? vf::jesc(*got) : "null") + "' for '" + vf::jesc(k.first) + "'\n" + trace()); break; }
  }
  for (auto &k : ids) {
    auto id = st->getId(k.first);
    if (id != k.second) { c.violation("id-changed", "after reopening '" + vf::jesc(k.first) + "' has id " + std::to_string(id) + " instead of " + std::to_string(k.second) + "\n" + trace()); break; }
  }
  std::string key; for (auto &k : ids) key += k.first + "\x01";
  c.distinct(key);
  c.count("strings", ids.size());
  c.sample("history: " + trace().substr(0, 600));
}

// every collision group interned in both orders, across a reopen
void colliding(vf::Ctx &c) {
  auto &g = collisions();
  std::string dir = vf::freshDir(c) + "/";
  std::map<std::string, std::uint32_t> ids;
  bool rev = c.idx & 1;
  {
    ST st(dir);
    for (auto &v : g) for (size_t i = 0; i < v.size(); ++i) { auto &s = v[rev ? v.size() - 1 - i : i]; ids[s] = st.getId(s); c.count("collision_pairs"); }
    std::set<std::uint32_t> u;
    for (auto &k : ids) u.insert(k.second);
    if (u.size() != ids.size()) c.violation("id-shared", "colliding strings share ids");
    for (auto &k : ids) if (st.getId(k.first) != k.second) c.violation("id-changed", "colliding string " + k.first);
  }
  ST st(dir);
  for (auto &k : ids) {
    c.distinct(k.first);
    if (*st.getString(k.second) != k.first) c.violation("string-changed", "colliding string " + k.first + " reads back as " + *st.getString(k.second));
    if (st.getId(k.first) != k.second) c.violation("id-changed", "colliding string " + k.first + " after reopen");
  }
}

void threads(vf::Ctx &c) {
  std::string dir = vf::freshDir(c) + "/";
  std::unique_ptr<ST> st(new ST(dir));
  size_t n = 2 + c.rng.below(5), ops = 200;
  std::vector<std::vector<std::pair<std::string, std::uint32_t>>> logs(n);
  std::vector<std::string> bad(n);
  std::vector<std::thread> ts;
  std::uint64_t seed = c.rng.next();
  // a few ids that are certainly known
  std::vector<std::uint32_t> known;
  for (int i = 0; i < 20; ++i) known.push_back(st->getId("w" + std::to_string(i)));
  for (size_t t = 0; t < n; ++t)
    ts.emplace_back([&, t] {
      vf::Rng r(seed + (t % 2 ? t : 0));   // half of the threads do the same sequence
      for (size_t i = 0; i < ops; ++i) {
        std::string s = r.chance(0.5) ? "w" + std::to_string(r.below(60)) : randomString(r);
        auto id = st->getId(s);
        logs[t].push_back({s, id});
        if (r.chance(0.5)) { auto g = st->getString(id); if (!g || *g != s) bad[t] = "getString(" + std::to_string(id) + ") != '" + vf::jesc(s) + "' but '" + (g ? vf::jesc(*g) : "null") + "'"; }
        else { auto k = r.below(20); auto g = st->getString(known[k]); if (!g || *g != "w" + std::to_string(k)) bad[t] = "known id " + std::to_string(known[k]) + " yields " + vf::jesc(*g); }
      }
    });
  for (auto &t : ts) t.join();
  std::map<std::string, std::uint32_t> ids; std::map<std::uint32_t, std::string> strs;
  for (size_t t = 0; t < n; ++t) {
    if (!bad[t].empty()) c.violation("concurrent-string", bad[t]);
    for (auto &p : logs[t]) {
      c.count("concurrent_ops");
      auto a = ids.emplace(p.first, p.second);
      if (a.first->second != p.second) c.violation("concurrent-id", "'" + vf::jesc(p.first) + "' got ids " + std::to_string(p.second) + " and " + std::to_string(a.first->second));
      auto b = strs.emplace(p.second, p.first);
      if (b.first->second != p.first) c.violation("concurrent-shared", "id " + std::to_string(p.second) + " given to two strings");
    }
  }
  st.reset(); st.reset(new ST(dir));
  for (auto &k : ids) if (*st->getString(k.second) != k.first) { c.violation("concurrent-persist", "id " + std::to_string(k.second)); break; }
  std::string key; for (auto &k : ids) key += k.first + "=" + std::to_string(k.second);
  c.distinct(key);
}
}
int main(int argc, char **argv) {
  return vf::main(argc, argv, {
    {"history", 1200, 20000, history},
    {"collide", 2, 2, colliding},
    {"threads", 120, 1500, threads},
  });
}
