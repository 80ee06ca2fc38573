// C16: selectors and cascade against a reference; C17: values, expressions, colours, gradients, textures.
#include "api.hpp"
#include "el.hpp"
#include "scene.hpp"
#include "entities/Area.hpp"
#include "entities/Node.hpp"
#include "entities/Relation.hpp"
#include "entities/Way.hpp"
#include "index/StringTable.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/Style.hpp"
#include "mapcss/StyleDeclaration.hpp"
#include "mapcss/StyleProvider.hpp"
#include "mapcss/StyleSheet.hpp"
#include "mapcss/TextureAtlasParser.hpp"
#include "utils/GradientUtils.hpp"
using namespace el;
using namespace utymap::mapcss;
using utymap::index::StringTable;
using utymap::utils::GeoUtils;
using utymap::utils::GradientUtils;
namespace {
typedef std::vector<std::pair<std::string, std::string>> KV;
typedef std::map<std::string, std::string> Map;
const char *Kinds[] = {"node", "way", "area", "relation"};
struct Cond { std::string k, op, v; };
struct Sel { int what = 0; std::vector<int> kinds; int lo = 0, hi = 0; std::vector<Cond> conds; std::uint64_t id = 0; };  // what: 0 kinds, 1 canvas, 2 element
struct Rul { std::vector<Sel> sels; KV decls; };

const std::vector<std::string> &words() { static const std::vector<std::string> w{"yes", "no", "a", "b1", "long_value-x", "two words", "x:y", "10", "2.5"}; return w; }
const std::vector<std::string> &nums() { static const std::vector<std::string> w{"1", "2", "2.5", "10", "9", "-3", "0", "100", "1e1", "0.5"}; return w; }
std::string someKey(vf::Rng &r) { static const std::vector<std::string> k{"kind", "k", "kk", "building:levels", "addr-x", "name_1", "n1", "n2", "z", "0k"}; return r.pick(k); }
bool numeric(const std::string &k) { return k == "n1" || k == "n2"; }
std::string someValue(vf::Rng &r, const std::string &k) { return numeric(k) ? r.pick(nums()) : r.pick(words()); }

bool holds(const Cond &c, const Map &tags) {
  auto t = tags.find(c.k);
  if (t == tags.end()) return false;
  if (c.op.empty()) return true;
  if (c.op == "=") return t->second == c.v;
  if (c.op == "!=") return t->second != c.v;
  double a = strtod(t->second.c_str(), nullptr), b = strtod(c.v.c_str(), nullptr);
  return c.op == "<" ? a < b : a > b;
}
struct Applied { Map decls; std::set<std::string> builders; int rules = 0; void put(const Rul &r) { ++rules; for (auto &d : r.decls) { if (d.first == "builder") builders.insert(d.second); decls[d.first] = d.second; } } };
Applied reference(const std::vector<Rul> &sheet, int kind, std::uint64_t id, const Map &tags, int lod) {
  Applied own, all;
  for (auto &r : sheet) {
    bool mine = false, any = false;
    for (auto &s : r.sels) {
      if (lod < s.lo || lod > s.hi) continue;
      if (s.what == 2) { if (s.id == id) mine = true; continue; }
      if (s.what == 1) continue;
      bool k = false; for (int x : s.kinds) k |= x == kind;
      bool c = true; for (auto &x : s.conds) c &= holds(x, tags);
      any |= k && c;
    }
    if (mine) own.put(r);
    if (any) all.put(r);
  }
  return own.rules ? own : all;
}
Applied canvas(const std::vector<Rul> &sheet, int lod) {
  Applied a; for (auto &r : sheet) for (auto &s : r.sels) if (s.what == 1 && lod >= s.lo && lod <= s.hi) a.put(r);
  return a;
}
struct Maker {
  vf::Rng &r; int lo, hi; bool external;
  Sel selector() {
    Sel s; double x = r.real();
    s.lo = (int) r.range(lo, hi); s.hi = r.chance(0.3) ? s.lo : (int) r.range(s.lo, hi);
    if (x < 0.08) { s.what = 1; return s; }
    if (x < 0.2) { s.what = 2; s.id = 1 + r.below(6); return s; }
    std::vector<int> k{0, 1, 2, 3}; r.shuffle(k); k.resize(1 + r.below(r.chance(0.7) ? 2 : 4)); s.kinds = k;
    for (size_t i = 0, n = 1 + r.below(r.chance(0.6) ? 1 : 4); i < n; ++i) { Cond c; c.k = someKey(r); double y = r.real(); c.op = y < 0.3 ? "" : y < 0.6 ? "=" : y < 0.75 ? "!=" : numeric(c.k) ? (r.chance(0.5) ? "<" : ">") : "="; if (!c.op.empty()) c.v = someValue(r, c.k); s.conds.push_back(c); }
    return s;
  }
  Rul rule() {
    Rul u; for (size_t i = 0, n = 1 + r.below(r.chance(0.6) ? 1 : 4); i < n; ++i) u.sels.push_back(selector());
    for (size_t i = 0, n = 1 + r.below(5); i < n; ++i) {
      static const std::vector<std::string> k{"color", "height", "width", "p-q", "a", "b", "mesh-name"};
      std::string key = r.chance(0.25) ? "builder" : r.pick(k), v = key == "builder" ? r.pick(std::vector<std::string>{"ext1", "ext2", "ext3"}) : r.chance(0.3) ? "v" + std::to_string(r.below(1000)) : r.pick(std::vector<std::string>{"12m", "30%", "0.5", "eval(\"tag('n1') * 2\")", "gradient(red, blue)", "two words", "a,b,c", "#ff00aa", "x:y", "{z}"});
      u.decls.push_back({key, v});
    }
    return u;
  }
  std::string gap(bool line = false) {
    double x = r.real();
    return x < 0.6 ? (line ? "\n" : " ") : x < 0.75 ? "\n\t" : x < 0.85 ? " /* node|z1[a] { b: c; } */ " : x < 0.92 ? "<!-- x -->\n" : line ? "\n\n" : "";
  }
  std::string text(const Sel &s) {
    std::string t;
    if (s.what == 1) t = "canvas"; else if (s.what == 2) t = "element"; else for (size_t i = 0; i < s.kinds.size(); ++i) t += (i ? "," : "") + std::string(Kinds[s.kinds[i]]);
    t += "|z" + std::to_string(s.lo); if (s.hi != s.lo || r.chance(0.2)) t += "-" + std::to_string(s.hi);
    if (s.what == 2) t += "[id=" + std::to_string(s.id) + "]";
    for (auto &c : s.conds) t += "[" + c.k + c.op + c.v + "]";
    return t;
  }
  std::string text(const Rul &u) {
    std::string t; for (size_t i = 0; i < u.sels.size(); ++i) t += (i ? "," + gap() : "") + text(u.sels[i]);
    t += gap() + "{" + gap(); for (auto &d : u.decls) t += d.first + ":" + (r.chance(0.9) ? " " : "") + d.second + ";" + gap(true); return t + "}" + gap(true);
  }
};
// writes a sheet with nested imports; rules in the order in which they are to be taken
std::string writeSheet(Maker &m, const std::string &dir, const std::string &name, int depth, int &n, std::vector<Rul> &rules, std::string &shown, size_t budget) {
  std::string t;
  for (size_t i = 0; i < budget; ++i) {
    if (depth < 3 && m.r.chance(0.15)) { std::string f = "i" + std::to_string(n++) + ".mapcss"; writeSheet(m, dir, f, depth + 1, n, rules, shown, m.r.below(4)); t += "@import url(\"" + f + "\");" + m.gap(true); }
    else { rules.push_back(m.rule()); t += m.text(rules.back()); }
  }
  vf::spit(dir + "/" + name, t); shown += "== " + name + "\n" + t + "\n"; return t;
}
std::string show(const Map &m) { std::string s; for (auto &x : m) s += x.first + "=" + x.second + "; "; return s; }

void cascade(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c); StringTable st(dir + "/");
  for (int i = 0, n = (int) r.below(20); i < n; ++i) st.getId(r.chance(0.5) ? someKey(r) : r.pick(words()));   // ids in another order than in the sheet
  int lo = (int) r.range(0, 15), hi = std::min(lo + (int) r.range(0, 6), 24); Maker m{r, lo, hi, false};
  std::vector<Rul> rules; std::string shown; int n = 0;
  std::string text = writeSheet(m, dir, "s.mapcss", 0, n, rules, shown, 1 + r.below(14));
  if (rules.empty()) return;
  std::unique_ptr<StyleProvider> p, again;
  try { StyleSheet s = MapCssParser(dir + "/").parse(text); c.check(s.rules.size() == rules.size(), "rules-lost", std::to_string(s.rules.size()) + " rules of " + std::to_string(rules.size()) + "\n" + shown); p.reset(new StyleProvider(s, st)); again.reset(new StyleProvider(MapCssParser(dir + "/").parse(text), st)); }
  catch (const std::exception &e) { c.violation("sheet-rejected", std::string(e.what()) + "\n" + shown); return; }
  c.check(p->getTag() == again->getTag(), "tag:unstable", "one sheet has two tags\n" + shown);
  c.count("sheets"); c.count("rules", rules.size()); if (n) c.count("imports", n);
  struct Q { int kind; std::uint64_t id; Map tags; std::unique_ptr<utymap::entities::Element> e; };
  std::vector<Q> qs;
  for (size_t i = 0, k = 5 + r.below(30); i < k; ++i) {
    Q q; q.kind = (int) r.below(4); q.id = r.chance(0.4) ? 1 + r.below(8) : 100 + i;
    // tags which satisfy some rule, changed a bit
    if (r.chance(0.6)) { auto &s = r.pick(r.pick(rules).sels); for (auto &x : s.conds) q.tags[x.k] = x.op == "=" ? x.v : someValue(r, x.k); if (!s.kinds.empty() && r.chance(0.8)) q.kind = r.pick(s.kinds); }
    for (size_t j = r.below(5); j-- > 0;) { auto key = someKey(r); q.tags[key] = someValue(r, key); }
    if (!q.tags.empty() && r.chance(0.2)) q.tags.erase(q.tags.begin());
    switch (q.kind) { case 0: q.e.reset(new utymap::entities::Node()); break; case 1: q.e.reset(new utymap::entities::Way()); break; case 2: q.e.reset(new utymap::entities::Area()); break; default: q.e.reset(new utymap::entities::Relation()); }
    q.e->id = q.id; for (auto &t : q.tags) q.e->tags.push_back(utymap::entities::Tag(st.getId(t.first), st.getId(t.second)));
    std::sort(q.e->tags.begin(), q.e->tags.end());
    qs.push_back(std::move(q));
  }
  std::string content;
  for (int round = 0; round < 2 && c.violations.empty(); ++round) {
    std::vector<size_t> order; for (size_t i = 0; i < qs.size(); ++i) order.push_back(i); r.shuffle(order);
    for (size_t i : order) {
      Q &q = qs[i]; int lod = (int) r.range(std::max(lo - 1, 0), hi + 1);
      if (r.chance(0.3)) (void) p->hasStyle(*q.e, (int) r.range(lo, hi));
      Applied w = reference(rules, q.kind, q.id, q.tags, lod);
      std::string what = std::string(Kinds[q.kind]) + " " + std::to_string(q.id) + " " + show(q.tags) + "at level " + std::to_string(lod);
      Style s = p->forElement(*q.e, lod); Map got; for (auto *d : s.declarations()) got[*st.getString(d->key())] = d->value();
      bool has = p->hasStyle(*q.e, lod);
      c.count("queries"); if (w.rules) c.count("styled"); if (w.rules > 1) c.count("cascaded"); content += what + show(w.decls);
      c.check(has == (w.rules > 0), has ? "applies-too-much" : "applies-too-little", what + "\n" + shown);
      if (got != w.decls) c.violation("declarations", what + "\nexpected " + show(w.decls) + "\n     got " + show(got) + "\n" + shown);
      auto b = s.getBuilders(); std::set<std::string> bs(b.begin(), b.end());
      c.check(bs == w.builders && b.size() == bs.size(), "builders", what + "\n" + shown);
      c.check(s.empty() == (w.rules == 0), "empty", what + "\n" + shown);
      for (auto &d : w.decls) { c.check(s.has(st.getId(d.first)) && s.has(st.getId(d.first), d.second) && !s.has(st.getId(d.first), d.second + "x"), "has", what + "\n" + shown); }
      c.check(!s.has(st.getId("nosuch")), "has", what);
      if (!c.violations.empty()) break;
    }
    for (int lod = std::max(lo - 1, 0); lod <= hi + 1; ++lod) { Style s = p->forCanvas(lod); Map got; for (auto *d : s.declarations()) got[*st.getString(d->key())] = d->value(); Applied w = canvas(rules, lod); if (w.rules) c.count("canvases"); if (got != w.decls) c.violation("canvas", "canvas at level " + std::to_string(lod) + "\nexpected " + show(w.decls) + "\n     got " + show(got) + "\n" + shown); }
  }
  // another sheet has another tag
  if (r.chance(0.5)) {
    std::vector<Rul> other = rules; auto &u = other[r.below(other.size())]; auto &s = u.sels[r.below(u.sels.size())];
    double x = r.real();
    if (x < 0.4) u.decls[r.below(u.decls.size())].second += "1"; else if (x < 0.6) u.decls.push_back({"extra", "1"}); else if (x < 0.8 || s.conds.empty()) { ++s.hi; } else { auto &cn = s.conds[r.below(s.conds.size())]; if (cn.op.empty()) cn.k += "2"; else cn.v += "7"; }
    std::string t; for (auto &y : other) t += m.text(y);
    try { StyleProvider o(MapCssParser(dir + "/").parse(t), st); c.count("other_sheets"); c.check(o.getTag() != p->getTag(), "tag:shared", "two sheets have one tag\n" + shown + "\n== other\n" + t); }
    catch (const std::exception &e) { c.violation("sheet-rejected", std::string(e.what()) + "\n" + t); }
  }
  c.distinct(content); c.sample(shown.substr(0, 1500));
}

// the same by loading tiles
void tiles(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c); vf::mkdirs(dir + "/style");
  int lo = (int) r.range(13, 16), hi = std::min(lo + (int) r.range(0, 3), 19); Maker m{r, lo, hi, true};
  std::vector<Rul> rules; std::string shown; int n = 0;
  std::string canvasText = "canvas|z1-19 { grid-cell-size: 1%; layer-priority: ; }\n";
  writeSheet(m, dir + "/style", "own.mapcss", 0, n, rules, shown, 1 + r.below(10));
  if (rules.empty()) return;
  scene::writeStyleDir(dir + "/base", "@import url(\"own.mapcss\");\n");
  // base sheet in one directory with the imported ones
  std::string style = dir + "/base/index.mapcss";
  for (int i = -1; i < n; ++i) { std::string f = i < 0 ? "own.mapcss" : "i" + std::to_string(i) + ".mapcss"; vf::spit(dir + "/base/" + f, vf::slurp(dir + "/style/" + f)); }
  bool disk = r.chance(0.4);
  api::Engine e(dir + "/e"); e.style(style); if (disk) e.persistent("s"); else e.memory("s");
  QuadKey q = GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(r.real(-60, 60), r.real(-170, 170)), hi); auto b = GeoUtils::quadKeyToBoundingBox(q);
  struct F { int kind; Map tags; }; std::map<std::uint64_t, F> fs; std::string trace;
  for (std::uint64_t id = 1, k = 3 + r.below(15); id <= k; ++id) {
    F f; f.kind = (int) r.below(3);
    if (r.chance(0.8)) { auto &s = r.pick(r.pick(rules).sels); for (auto &x : s.conds) f.tags[x.k] = x.op == "=" ? x.v : someValue(r, x.k); if (!s.kinds.empty() && s.kinds[0] < 3) f.kind = s.kinds[0]; }
    for (size_t j = r.below(4); j-- > 0 || f.tags.empty();) { auto key = someKey(r); f.tags[key] = someValue(r, key); if (j > 100) j = 0; }
    Tags t; for (auto &x : f.tags) t.push_back(x); r.shuffle(t);
    double la = b.center().latitude, ln = b.center().longitude, d = b.height() * 0.1; Coords pts{{la, ln}}; if (f.kind > 0) { pts.push_back({la + d, ln}); pts.push_back({la + d, ln + d}); } if (f.kind == 2) { pts = {{la, ln}, {la, ln + d}, {la + d, ln + d}, {la, ln}}; }
    api::Result x; api::addElement(x, "s", style, id, pts, t, lo, hi); if (!x.errors.empty()) { c.violation("add-fails", x.errors[0] + "\n" + shown); return; }
    fs[id] = f; trace += std::string(Kinds[f.kind]) + " " + std::to_string(id) + " " + show(f.tags) + "\n";
  }
  for (int lod = lo; lod <= hi && c.violations.empty(); ++lod) {
    QuadKey k(lod, q.tileX >> (hi - lod), q.tileY >> (hi - lod)); api::Result x; api::load(x, style, k); if (!x.errors.empty()) { c.violation("load-fails", x.errors[0] + "\n" + shown); return; }
    std::map<std::uint64_t, std::vector<Map>> got; for (auto &el : x.elems) { Map mm; for (size_t i = 0; i + 1 < el.style.size(); i += 2) mm[el.style[i]] = el.style[i + 1]; got[el.id].push_back(mm); }
    for (auto &f : fs) {
      Applied w = reference(rules, f.second.kind, f.first, f.second.tags, lod); auto &g = got[f.first]; c.count("tile_queries"); if (w.builders.size()) c.count("tile_styled");
      std::string what = std::string(Kinds[f.second.kind]) + " " + std::to_string(f.first) + " " + show(f.second.tags) + "at level " + std::to_string(lod);
      c.check(g.size() == w.builders.size(), g.size() > w.builders.size() ? "tile:delivered-too-often" : "tile:not-delivered", what + " delivered " + std::to_string(g.size()) + " times, style has " + std::to_string(w.builders.size()) + " builders\n" + shown);
      for (auto &y : g) if (y != w.decls) { c.violation("tile:style", what + "\nexpected " + show(w.decls) + "\n     got " + show(y) + "\n" + shown); break; }
    }
  }
  c.distinct(shown + trace);
}

// ---- C17
struct Ex { std::string text; double value; bool exact; };
std::string numText(vf::Rng &r, double &v) {
  char b[40];
  switch (r.below(4)) { case 0: snprintf(b, sizeof b, "%ld", r.range(0, 200)); break; case 1: snprintf(b, sizeof b, "%.2f", r.real(0, 50)); break; case 2: snprintf(b, sizeof b, "-%ld", r.range(1, 20)); break; default: snprintf(b, sizeof b, "%ld.5", r.range(0, 9)); }
  v = strtod(b, nullptr); return b;
}
bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

void values(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c); StringTable st(dir + "/");
  Map tags; std::map<std::string, double> nv;
  for (size_t i = 0, n = 1 + r.below(5); i < n; ++i) { double v; std::string k = r.pick(std::vector<std::string>{"height", "building:levels", "lanes", "n", "roof:height", "w"}); tags[k] = numText(r, v); nv[k] = v; }
  for (size_t i = 0, n = r.below(3); i < n; ++i) tags["s" + std::to_string(i)] = r.pick(std::vector<std::string>{"yes", "park", "two words", "x-y"});
  auto tagRef = [&](std::string &text, bool number) { std::vector<std::string> k; for (auto &t : tags) if (!number || nv.count(t.first)) k.push_back(t.first); std::string key = r.pick(k); text = "tag('" + key + "')"; return key; };
  struct D { std::string key, text; int kind; double num; std::string str; }; std::vector<D> ds; std::string shown = show(tags) + "\n";
  auto sp = [&] { return r.chance(0.8) ? std::string(" ") : std::string(r.below(3), ' '); };
  for (int i = 0, n = 5 + (int) r.below(25); i < n; ++i) {
    D d; d.key = "d" + std::to_string(i); double v;
    switch (r.below(7)) {
      case 0: d.kind = 0; d.text = numText(r, v); d.num = v; break;
      case 1: d.kind = 1; d.text = numText(r, v) + "%"; d.num = v; break;
      case 2: d.kind = 2; d.text = numText(r, v) + "m"; d.num = v; break;
      case 3: d.kind = 3; d.text = r.pick(std::vector<std::string>{"flat", "gradient(red, blue)", "two words", "x,y", "#102030", "a'b", "evaluate"}); d.str = d.text; break;
      case 4: { d.kind = 4; d.text = "eval(\""; size_t parts = 1 + r.below(4); for (size_t j = 0; j < parts; ++j) { if (j) d.text += sp() + "+" + sp(); double x = r.real(); std::string t; if (x < 0.4) { std::string k = tagRef(t, false); d.str += tags[k]; } else if (x < 0.8) { std::string w = r.pick(std::vector<std::string>{"_", "x y", "terrain_", "a+b", "1"}); t = "'" + w + "'"; d.str += w; } else { long k = r.range(0, 1000); t = std::to_string(k); d.str += t; } d.text += t; } d.text += "\")"; break; }
      default: { // sums of products
        d.kind = 5; d.text = "eval(\""; double sum = 0; size_t terms = 1 + r.below(3), shownTerms = 0;
        for (size_t j = 0; j < terms; ++j) {
          char sign = '+'; if (j) { sign = r.chance(0.5) ? '+' : '-'; d.text += sp() + sign + sp(); }
          double prod = 0; for (size_t f = 0, fn = 1 + r.below(3); f < fn; ++f) {
            std::string t; double x; if (r.chance(0.5)) x = nv[tagRef(t, true)]; else if (r.chance(0.15)) { t = "'7'"; x = 7; } else t = numText(r, x);
            if (!f) { d.text += t; prod = x; } else if (r.chance(0.6) || std::fabs(x) < 0.1) { d.text += sp() + "*" + sp() + t; prod *= x; } else { d.text += sp() + "/" + sp() + t; prod /= x; }
            if (f) ++shownTerms; }
          sum += sign == '+' ? prod : -prod; }
        if (terms > 1 && shownTerms) c.count("mixed_expressions");
        d.text += "\")"; d.num = sum; }
    }
    ds.push_back(d); shown += d.key + ": " + d.text + ";\n";
  }
  std::string sheet = "node|z1[any] {\n"; for (auto &d : ds) sheet += d.key + ": " + d.text + ";\n"; sheet += "}\n";
  utymap::entities::Node node; node.id = 1; tags["any"] = "1"; for (auto &t : tags) node.tags.push_back(utymap::entities::Tag(st.getId(t.first), st.getId(t.second))); std::sort(node.tags.begin(), node.tags.end());
  try {
    StyleProvider p(MapCssParser(dir + "/").parse(sheet), st); Style s = p.forElement(node, 1);
    for (auto &d : ds) {
      std::string what = d.key + ": " + d.text + "\n" + shown; double size = r.real(0.1, 500); utymap::BoundingBox box(utymap::GeoCoordinate(r.real(-70, 0), r.real(-170, 0)), utymap::GeoCoordinate(r.real(1, 70), r.real(1, 170))); c.count("values");
      switch (d.kind) {
        case 0: case 5: c.count(d.kind ? "expressions" : "numbers"); c.check(near(s.getValue(d.key), d.num) && near(s.getValue(d.key, size), d.num) && near(s.getValue(d.key, box), d.num), d.kind ? "expression" : "number", "is " + std::to_string(s.getValue(d.key)) + " instead of " + std::to_string(d.num) + "\n" + what); break;
        case 1: c.count("percentages"); c.check(near(s.getValue(d.key, size), d.num * size / 100) && near(s.getValue(d.key, box), d.num * box.height() / 100), "percentage", what); break;
        case 2: { c.count("metres"); double y = s.getValue(d.key, box); c.check(near(s.getValue(d.key), d.num) && near(s.getValue(d.key, size), d.num), "metres", what);
          utymap::GeoCoordinate mid = box.center(), to(mid.latitude + std::fabs(y), mid.longitude); double dist = GeoUtils::distance(mid, to); c.check((y < 0) == (d.num < 0) && std::fabs(dist - std::fabs(d.num)) <= 0.02 * std::fabs(d.num) + 0.01, "metres:degrees", std::to_string(y) + " degrees are " + std::to_string(dist) + " m\n" + what); break; }
        default: c.count(d.kind == 3 ? "strings" : "string_expressions"); c.check(s.getString(d.key) == d.str, "string", "is '" + s.getString(d.key) + "'\n" + what);
      }
    }
    c.check(s.getValue("nosuch") == 0 && s.getString("nosuch").empty(), "missing-key", shown);
  } catch (const std::exception &e) { c.violation("exception", std::string(e.what()) + "\n" + shown); }
  c.distinct(shown); c.sample(shown.substr(0, 1200));
}

struct RGB { int v[3]; };
bool same(const Color &a, const RGB &b, int tol) { return std::abs(a.r - b.v[0]) <= tol && std::abs(a.g - b.v[1]) <= tol && std::abs(a.b - b.v[2]) <= tol && std::abs(a.a - 255) <= tol; }
std::string colorText(vf::Rng &r, RGB &x) {
  static const std::vector<std::pair<std::string, RGB>> names{{"red", {{255, 0, 0}}}, {"green", {{0, 128, 0}}}, {"blue", {{0, 0, 255}}}, {"black", {{0, 0, 0}}}, {"white", {{255, 255, 255}}}, {"orange", {{255, 165, 0}}}, {"indigo", {{75, 0, 130}}}, {"steelblue", {{70, 130, 180}}}, {"lightgoldenrodyellow", {{250, 250, 210}}}, {"tan", {{210, 180, 140}}}, {"teal", {{0, 128, 128}}}, {"silver", {{192, 192, 192}}}, {"rosybrown", {{188, 143, 143}}}, {"yellow", {{255, 255, 0}}}};
  char b[40]; double k = r.real();
  if (k < 0.3) { auto &n = r.pick(names); x = n.second; return n.first; }
  if (k < 0.45) { int d[3]; for (int i = 0; i < 3; ++i) { d[i] = (int) r.below(16); x.v[i] = d[i] * 17; } snprintf(b, sizeof b, r.chance(0.5) ? "#%x%x%x" : "#%X%X%X", d[0], d[1], d[2]); return b; }
  for (int &i : x.v) i = r.chance(0.2) ? (r.chance(0.5) ? 0 : 255) : (int) r.below(256);
  if (k < 0.6) { std::string s = r.chance(0.5) ? "," : ", "; return "rgb(" + std::to_string(x.v[0]) + s + std::to_string(x.v[1]) + s + std::to_string(x.v[2]) + ")"; }
  snprintf(b, sizeof b, r.chance(0.5) ? "#%02x%02x%02x" : "#%02X%02X%02X", x.v[0], x.v[1], x.v[2]); return b;
}
void gradients(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c), shown; StringTable st(dir + "/");
  struct G { std::string text; std::vector<std::pair<double, RGB>> stops; }; std::vector<G> gs;
  for (int i = 0, n = 1 + (int) r.below(8); i < n; ++i) {
    G g; RGB x; size_t k = r.chance(0.25) ? 1 : 2 + r.below(5);
    if (k == 1) { g.text = colorText(r, x); g.stops.push_back({0, x}); if (r.chance(0.3)) g.text = "gradient(" + g.text + ")"; }
    else {
      std::vector<int> t; for (size_t j = 0; j < k; ++j) t.push_back((int) r.range(1, 99)); std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); k = std::max<size_t>(2, t.size());
      if (t.size() < k) t.push_back(t[0] + 1);
      g.text = "gradient(";
      for (size_t j = 0; j < k; ++j) { std::string col = colorText(r, x); bool free = j == 0 || j + 1 == k; while (!free && col[0] == 'r' && col.compare(0, 4, "rgb(") == 0) col = colorText(r, x); g.text += (j ? ", " : "") + col; double at = j == 0 ? 0 : 1; if (!free) { g.text += " " + std::to_string(t[j]) + (col[0] == '#' || r.chance(0.8) ? "%" : r.chance(0.5) ? " %" : ""); at = t[j] / 100.; } g.stops.push_back({at, x}); }
      g.text += ")";
    }
    gs.push_back(g); shown += g.text + "\n";
  }
  std::string sheet = "node|z1[any] {\n"; for (size_t i = 0; i < gs.size(); ++i) sheet += "c" + std::to_string(i) + ": " + gs[i].text + ";\n"; sheet += "}\n";
  utymap::entities::Node node; node.id = 1; node.tags.push_back(utymap::entities::Tag(st.getId("any"), st.getId("1")));
  try {
    StyleProvider p(MapCssParser(dir + "/").parse(sheet), st); Style s = p.forElement(node, 1);
    for (size_t i = 0; i < gs.size(); ++i) {
      auto &g = gs[i]; std::unique_ptr<const ColorGradient> own; const ColorGradient *cg = &GradientUtils::evaluateGradient(p, s, "c" + std::to_string(i)); if (r.chance(0.3)) { own = GradientUtils::parseGradient(g.text); cg = own.get(); }
      if (g.stops.size() == 1 && g.text[0] == '#') { c.check(same(GradientUtils::parseColor(g.text), g.stops[0].second, 0), "colour", g.text); c.count("colours"); }
      for (auto &stp : g.stops) { auto got = cg->evaluate(stp.first); c.count("stops"); if (!same(got, stp.second, 0)) { char b[80]; snprintf(b, sizeof b, " at %g is %d %d %d %d", stp.first, got.r, got.g, got.b, got.a); c.violation("stop", g.text + b); } }
      for (int k = 0; k < 12; ++k) {
        double t = k == 0 ? 1.0000001 : k == 1 ? -1e-9 : r.real(-0.5, 1.5); RGB w; auto &v = g.stops;
        if (t <= v[0].first) w = v[0].second; else if (t >= v.back().first) w = v.back().second;
        else { size_t j = 1; while (v[j].first < t) ++j; double mu = (t - v[j - 1].first) / (v[j].first - v[j - 1].first); for (int q = 0; q < 3; ++q) w.v[q] = (int) std::lround(v[j - 1].second.v[q] * (1 - mu) + v[j].second.v[q] * mu); }
        auto got = cg->evaluate(t); c.count(t < 0 || t > 1 ? "outside" : "inside");
        if (!same(got, w, 2)) { char b[120]; snprintf(b, sizeof b, " at %.9g is %d %d %d %d instead of %d %d %d", t, got.r, got.g, got.b, got.a, w.v[0], w.v[1], w.v[2]); c.violation(t < 0 || t > 1 ? "outside" : "between", g.text + b); break; }
      }
      if (!c.violations.empty()) break;
    }
  } catch (const std::exception &e) { c.violation("exception", std::string(e.what()) + "\n" + shown); }
  c.distinct(shown); c.sample(shown.substr(0, 800));
}

void atlas(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c), shown; StringTable st(dir + "/");
  struct Reg { int x, y, w, h; }; std::map<int, std::map<std::string, std::vector<Reg>>> model; std::map<int, std::pair<int, int>> sizes; std::string sheet; int files = 1 + (int) r.below(3);
  for (int f = 0; f < files; ++f) {
    int id = f * 3 + (int) r.below(3), w = 1 << r.range(5, 14), h = 1 << r.range(5, 14); sizes[id] = {w, h}; std::string t = std::to_string(id) + "," + std::to_string(w) + "," + std::to_string(h) + "\n";
    for (size_t i = 0, n = 1 + r.below(20); i < n; ++i) { std::string name = r.pick(std::vector<std::string>{"grass", "wood", "brick", "a b", "roof-2", "facade"}); Reg g{(int) r.below(w), (int) r.below(h), 0, 0}; g.w = 1 + (int) r.below(w - g.x); g.h = 1 + (int) r.below(h - g.y); model[id][name].push_back(g); std::string s = r.chance(0.8) ? "," : ", "; t += name + "," + std::to_string(g.x) + s + std::to_string(g.y) + s + std::to_string(g.w) + s + std::to_string(g.h) + (i + 1 == n && r.chance(0.5) ? "" : r.chance(0.9) ? "\n" : "\r\n"); }
    vf::spit(dir + "/t" + std::to_string(f) + ".txt", t); sheet += "@texture url(\"t" + std::to_string(f) + ".txt\");\n"; shown += t + "\n";
  }
  sheet += "node|z1[any] { a: b; }\n";
  try {
    StyleProvider p(MapCssParser(dir + "/").parse(sheet), st);
    for (int id = 0; id < 10; ++id) for (auto *name : {"grass", "wood", "brick", "a b", "roof-2", "facade", "nosuch"}) {
      auto &g = p.getTexture((std::uint16_t) id, name); bool known = model.count(id) && model[id].count(name); std::set<size_t> seen;
      for (int k = 0; k < 25; ++k) { std::uint64_t seed = k < 21 ? k : r.next(); auto &t = g.random(seed);
        if (!known) { c.check(t.isEmpty(), "unknown-texture", "texture " + std::to_string(id) + " " + name + " is not empty\n" + shown); c.count("unknown_textures"); continue; }
        auto &v = model[id][name]; bool found = false; for (size_t i = 0; i < v.size(); ++i) if (v[i].x == t.x && v[i].y == t.y && v[i].w == t.width && v[i].h == t.height) { found = true; seen.insert(i); }
        c.count("regions"); c.check(found && t.atlasWidth == sizes[id].first && t.atlasHeight == sizes[id].second, "region", "texture " + std::to_string(id) + " " + name + " resolves to " + std::to_string(t.x) + "," + std::to_string(t.y) + "," + std::to_string(t.width) + "," + std::to_string(t.height) + "\n" + shown); }
      if (known) c.check(seen.size() == model[id][name].size(), "region-unused", "texture " + std::to_string(id) + " " + name + " never resolves to some of its regions\n" + shown);
      if (!c.violations.empty()) return;
    }
  } catch (const std::exception &e) { c.violation("exception", std::string(e.what()) + "\n" + shown); }
  c.distinct(shown);
}
}
int main(int argc, char **argv) { return vf::main(argc, argv, {{"cascade", 20000, 200000, cascade, 60}, {"tiles", 1500, 40000, tiles, 60}, {"values", 15000, 150000, values, 60}, {"gradients", 20000, 250000, gradients, 60}, {"atlas", 4000, 50000, atlas, 60}}); }
