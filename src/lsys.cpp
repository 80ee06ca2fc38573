// C18: rewriting, stochastic choice, the turtle's frame and the mesh an L-system draws.
#include "api.hpp"
#include "el.hpp"
#include "lsys/LSystem.hpp"
#include "lsys/LSystemParser.hpp"
#include "lsys/Turtle3d.hpp"
#include "utils/GeoUtils.hpp"
using namespace el;
using utymap::lsys::LSystem; using utymap::lsys::LSystemParser; using utymap::lsys::Turtle3d;
using utymap::utils::GeoUtils;
namespace {
typedef std::vector<std::string> Syms;
typedef std::array<double, 3> V3;
const std::string Marks = "FG+-|^&\\/$!><@[]";
struct Prod { double p; bool shown; Syms to; };
struct Grammar { int gen = 1; double angle = 0, scale = 1; Syms axiom; std::vector<std::pair<std::string, Prod>> prods; };

std::string word(vf::Rng &r) {
  static const std::vector<std::string> w{"a", "b", "branch", "root", "Leaf", "xF", "cylinderX", "AB", "A", "branchb", "f", "g"};
  return r.pick(w);
}
std::string symbol(vf::Rng &r, double words = 0.5) { return r.chance(words) ? word(r) : std::string(1, Marks[r.below(Marks.size() - 2)]); }
void fill(vf::Rng &r, Syms &s, size_t n, double words = 0.5) {    // keeps [ and ] balanced
  size_t open = 0;
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(0.1)) { s.push_back("["); ++open; } else if (open && r.chance(0.2)) { s.push_back("]"); --open; }
    s.push_back(symbol(r, words));
  }
  while (open--) s.push_back("]");
}
std::string num(vf::Rng &r, double v) { char b[64]; snprintf(b, sizeof b, r.chance(0.5) ? "%.6g" : "%.12g", v); return b; }
double parsed(const std::string &s) { return strtod(s.c_str(), nullptr); }
std::string text(vf::Rng &r, const Syms &s) {
  std::string t; for (size_t i = 0; i < s.size(); ++i) {
    bool w = isalpha((unsigned char) s[i][0]) != 0, before = i && isalpha((unsigned char) s[i - 1].back());
    if (i && ((w && before) || r.chance(0.6))) t += r.chance(0.1) ? "   " : " ";
    t += s[i];
  } return t;
}
std::string text(vf::Rng &r, Grammar &g) {
  auto comment = [&] { std::string s; while (r.chance(0.1)) s += "# F -> ] x: 12\n"; return s; };
  std::string a = num(r, g.angle), sc = num(r, g.scale); g.angle = parsed(a); g.scale = parsed(sc);
  auto eol = [&] { return std::string(r.chance(0.1) ? "\n\n" : r.chance(0.1) ? "  \n" : "\n") + comment(); };
  std::string t = comment() + "generations: " + std::to_string(g.gen) + eol() + "angle:" + (r.chance(0.8) ? " " : "") + a + eol() + "scale: " + sc + eol() + "axiom: " + text(r, g.axiom) + "\n" + comment();
  for (size_t i = 0; i < g.prods.size(); ++i) {
    auto &p = g.prods[i]; t += p.first;
    if (p.second.shown) { std::string q = num(r, p.second.p); p.second.p = parsed(q); t += (r.chance(0.5) ? "(" : " ( ") + q + ")"; }
    t += (r.chance(0.8) ? " -> " : "->") + text(r, p.second.to);
    t += i + 1 < g.prods.size() ? (r.chance(0.15) ? "\n\n" : r.chance(0.1) ? "\n  \n" : "\n") + comment() : r.chance(0.3) ? "" : r.chance(0.5) ? "\n" : "\n\n" + comment() + " \n";
  }
  return t;
}
struct Tracer : utymap::lsys::Turtle {
  Syms seen;
  void moveForward() override { seen.push_back("F"); } void jumpForward() override { seen.push_back("G"); }
  void turnLeft() override { seen.push_back("+"); } void turnRight() override { seen.push_back("-"); } void turnAround() override { seen.push_back("|"); }
  void pitchUp() override { seen.push_back("^"); } void pitchDown() override { seen.push_back("&"); }
  void rollLeft() override { seen.push_back("\\"); } void rollRight() override { seen.push_back("/"); }
  void increment() override { seen.push_back("$"); } void decrement() override { seen.push_back("!"); }
  void scaleUp() override { seen.push_back(">"); } void scaleDown() override { seen.push_back("<"); }
  void switchStyle() override { seen.push_back("@"); } void save() override { seen.push_back("["); } void restore() override { seen.push_back("]"); }
  void say(const std::string &w) override { seen.push_back(w); }
};
std::string show(const Syms &s) { std::string t; for (auto &x : s) t += x + " "; return t; }

const Prod *only(const Grammar &g, const std::string &s) {   // the production taken when there is no choice
  const Prod *f = nullptr; for (auto &p : g.prods) if (p.first == s && p.second.p > 0) f = &p.second; return f;
}
void rewrite(vf::Ctx &c) {
  auto &r = c.rng; Grammar g; g.gen = (int) (r.chance(0.6) ? r.below(6) : r.below(40)); g.angle = r.chance(0.3) ? 0 : r.real(-360, 360); g.scale = r.real(0.1, 5);
  fill(r, g.axiom, 1 + r.below(6), 0.7);
  std::set<std::string> used; std::vector<std::string> left; Syms alpha; for (size_t i = 0, n = 1 + r.below(6); i < n; ++i) left.push_back(symbol(r, 0.75));
  if (r.chance(0.7)) left.push_back(g.axiom[r.below(g.axiom.size())]);
  for (auto &l : left) {
    if (l == "[" || l == "]" || !used.insert(l).second) continue;
    Prod p{1, false, {}}; fill(r, p.to, 1 + r.below(5), 0.6); if (r.chance(0.6)) p.to[0] = p.to[0] == "[" ? p.to[0] : r.pick(left);
    if (p.to[0] == "]") p.to[0] = "a";
    if (r.chance(0.3)) { p.shown = true; p.p = r.chance(0.5) ? 1 : r.real(0.1, 9); }
    Prod never{0, true, {"never"}};
    bool alt = r.chance(0.2);
    if (alt && r.chance(0.5)) g.prods.push_back({l, never});
    g.prods.push_back({l, p});
    if (alt && r.chance(0.5)) g.prods.push_back({l, never});
  }
  if (g.prods.empty()) g.prods.push_back({"z", Prod{1, false, {"F"}}});
  r.shuffle(g.prods);
  // the expected word
  Syms now = g.axiom; size_t done = 0;
  for (int i = 0; i < g.gen; ++i) {
    Syms next; for (auto &s : now) { auto p = only(g, s); if (p) { next.insert(next.end(), p->to.begin(), p->to.end()); ++done; } else next.push_back(s); }
    now = next; if (now.size() > 60000) { g.gen = i + 1; break; }
  }
  if (g.gen > 6) c.count("many_generations");
  std::string t = text(r, g);
  try {
    LSystem l; if (r.chance(0.5)) l = LSystemParser().parse(t); else { std::istringstream in(t); l = LSystemParser().parse(in); }
    c.check(l.generations == g.gen && std::abs(l.angle - g.angle) <= 1e-9 * std::abs(g.angle) && std::abs(l.scale - g.scale) <= 1e-9 * g.scale, "header", std::to_string(l.generations) + " " + std::to_string(l.angle) + " " + std::to_string(l.scale) + "\n" + t);
    Tracer a; a.run(l);
    if (a.seen != now) { size_t i = 0; while (i < now.size() && i < a.seen.size() && now[i] == a.seen[i]) ++i;
      c.violation("commands", "differs at " + std::to_string(i) + ": " + (i < a.seen.size() ? a.seen[i] : "end") + " for " + (i < now.size() ? now[i] : "end") + "\n" + t); }
    Tracer b; b.run(l); c.check(b.seen == now, "commands-again", t);
    c.count("grammars"); c.count("commands", now.size()); c.count("rewritings", done); c.distinct(vf::hashStr(show(now)));
    for (auto &s : now) c.count("cmd:" + (s.size() == 1 && Marks.find(s[0]) != std::string::npos ? s : std::string("word")));
  } catch (const std::exception &e) { c.violation("rejected", std::string(e.what()) + "\n" + t); return; }
  // text which is no L-system is reported, not ignored
  std::string bad = t; size_t kind = r.below(4);
  if (kind == 0) bad += "\n???";
  else if (kind == 1) bad += "\nq -> F 7 F";
  else if (kind == 2) { size_t p = bad.find("angle:"); bad.replace(p, 6, "angel:"); }
  else { size_t p = bad.find("axiom:"); bad = bad.substr(0, p); }
  bool thrown = false; try { LSystemParser().parse(bad); } catch (const std::exception &) { thrown = true; }
  c.count("broken_texts"); c.check(thrown, "broken-accepted", bad);
}
// one step with a choice: only declared productions, with their frequencies; weight 0 never
void stochastic(vf::Ctx &c) {
  auto &r = c.rng; size_t k = 2 + r.below(4), n = 4000; std::vector<double> w; double sum = 0;
  std::string t = "generations: 1\nangle: 0\nscale: 1\naxiom: "; for (size_t i = 0; i < n; ++i) t += "x "; t += "\n";
  bool words = r.chance(0.5); if (!words) { t.clear(); t = "generations: 1\nangle: 0\nscale: 1\naxiom: "; for (size_t i = 0; i < n; ++i) t += "F"; t += "\n"; }
  for (size_t i = 0; i < k; ++i) { double p = r.chance(0.25) && (i || k > 2) ? 0 : std::round(r.real(0.05, 3) * 100) / 100; if (i + 1 == k && sum == 0) p = 1; w.push_back(p); sum += p; }
  for (size_t i = 0; i < k; ++i) { char b[64]; snprintf(b, sizeof b, "(%.2f) -> ", w[i]); t += std::string(words ? "x" : "F") + b + "p" + std::string(1, char('a' + i)) + " +\n"; }
  try {
    Tracer a; a.run(LSystemParser().parse(t)); std::vector<size_t> cnt(k); c.check(a.seen.size() == 2 * n, "length", std::to_string(a.seen.size()));
    for (size_t i = 0; i + 1 < a.seen.size(); i += 2) { auto &s = a.seen[i]; bool ok = s.size() == 2 && s[0] == 'p' && s[1] >= 'a' && s[1] < char('a' + k) && a.seen[i + 1] == "+"; c.check(ok, "not-a-production", s); if (ok) ++cnt[s[1] - 'a']; }
    for (size_t i = 0; i < k; ++i) {
      double p = w[i] / sum, dev = std::abs(cnt[i] - n * p); c.check(w[i] > 0 || !cnt[i], "weight-0-taken", t.substr(t.find("\n", 50))); c.check(dev <= 7 * std::sqrt(n * p * (1 - p)) + 1, "frequency", std::to_string(cnt[i]) + " of " + std::to_string(n) + " for weight " + std::to_string(p));
      if (w[i] == 0) c.count("weight_0"); c.count("choices", cnt[i]);
    }
    std::string d; for (auto x : cnt) d += std::to_string(x) + ","; c.distinct(vf::hashStr(d));
    Tracer b; b.run(LSystemParser().parse(t)); c.count(b.seen == a.seen ? "same_again" : "other_again");
  } catch (const std::exception &e) { c.violation("rejected", e.what()); }
}

V3 add(V3 a, V3 b, double f = 1) { return {a[0] + f * b[0], a[1] + f * b[1], a[2] + f * b[2]}; }
V3 cross(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
double dist(V3 a, V3 b) { V3 d = add(a, b, -1); return std::sqrt(dot(d, d)); }
V3 turn(V3 v, V3 axis, double a) { V3 x = cross(axis, v); double k = dot(axis, v) * (1 - std::cos(a)); return {v[0] * std::cos(a) + x[0] * std::sin(a) + axis[0] * k, v[1] * std::cos(a) + x[1] * std::sin(a) + axis[1] * k, v[2] * std::cos(a) + x[2] * std::sin(a) + axis[2] * k}; }
struct Pose { V3 p{{0, 0, 0}}, d{{0, 1, 0}}, r{{1, 0, 0}}; double len = 0, wid = 0; size_t tex = 0; };
// the world's axes are east, up, north: a left-handed frame, so "above" the turtle is d x r
struct Model {
  Pose s; std::vector<Pose> st; double angle, scale;
  bool step(const std::string &c) {   // true for a command of the turtle
    if (c.size() != 1) return false;
    double a = angle * M_PI / 180; V3 up = cross(s.d, s.r);
    switch (c[0]) {
      case 'G': s.p = add(s.p, s.d, s.len); break;
      case '+': s.d = turn(s.d, up, -a); s.r = turn(s.r, up, -a); break;
      case '-': s.d = turn(s.d, up, a); s.r = turn(s.r, up, a); break;
      case '|': s.d = {-s.d[0], -s.d[1], -s.d[2]}; s.r = {-s.r[0], -s.r[1], -s.r[2]}; break;
      case '^': s.d = turn(s.d, s.r, -a); break;
      case '&': s.d = turn(s.d, s.r, a); break;
      case '\\': s.r = turn(s.r, s.d, a); break;
      case '/': s.r = turn(s.r, s.d, -a); break;
      case '$': s.wid *= scale; break; case '!': s.wid /= scale; break; case '>': s.len *= scale; break; case '<': s.len /= scale; break;
      case '@': ++s.tex; break; case '[': st.push_back(s); break; case ']': s = st.back(); st.pop_back(); break;
      default: return false;
    }
    double k = std::sqrt(dot(s.d, s.d)); for (auto &x : s.d) x /= k; s.r = add(s.r, s.d, -dot(s.d, s.r)); k = std::sqrt(dot(s.r, s.r)); for (auto &x : s.r) x /= k;
    return true;
  }
};
V3 of(const utymap::math::Vector3 &v) { return {v.x, v.y, v.z}; }
struct Probe : Turtle3d {
  std::vector<Pose> log; double len, wid;
  Probe(double l, double w) { state_.length = l; state_.width = w; }
  void note() { Pose s; s.p = of(state_.position); s.d = of(state_.direction); s.r = of(state_.right); s.len = state_.length; s.wid = state_.width; s.tex = state_.texture; log.push_back(s); }
  void moveForward() override { note(); } void say(const std::string &) override { note(); }
  void jumpForward() override { Turtle3d::jumpForward(); note(); }
#define VF_N(f) void f() override { Turtle3d::f(); note(); }
  VF_N(turnLeft) VF_N(turnRight) VF_N(turnAround) VF_N(pitchUp) VF_N(pitchDown) VF_N(rollLeft) VF_N(rollRight) VF_N(increment) VF_N(decrement) VF_N(scaleUp) VF_N(scaleDown) VF_N(switchStyle) VF_N(save) VF_N(restore)
};
std::string show(const Pose &s) { std::ostringstream o; o.precision(12); o << "p " << s.p[0] << ' ' << s.p[1] << ' ' << s.p[2] << " d " << s.d[0] << ' ' << s.d[1] << ' ' << s.d[2] << " r " << s.r[0] << ' ' << s.r[1] << ' ' << s.r[2] << " l " << s.len << " w " << s.wid << " t " << s.tex; return o.str(); }
void turtle(vf::Ctx &c) {
  auto &r = c.rng; Grammar g; g.gen = 0; g.angle = r.chance(0.3) ? r.pick(std::vector<double>{0, 30, 45, 90, 180, -45, 360}) : r.real(-400, 400); g.scale = r.real(0.7, 1.4);
  size_t n = r.chance(0.1) ? 500 + r.below(3000) : 1 + r.below(80); fill(r, g.axiom, n, 0.05); g.prods.push_back({"z", Prod{1, false, {"F"}}});
  bool broken = r.chance(0.15); if (broken) g.axiom.insert(g.axiom.begin() + r.below(g.axiom.size() + 1), "]");
  std::string t = text(r, g); Model m{}; m.angle = g.angle; m.scale = g.scale; m.s.len = r.real(0.1, 20); m.s.wid = r.real(0.1, 20);
  Probe p(m.s.len, m.s.wid); bool thrown = false;
  try { p.run(LSystemParser().parse(t)); } catch (const std::exception &) { thrown = true; }
  size_t i = 0; bool under = false;
  for (auto &s : g.axiom) {
    if (s == "]" && m.st.empty()) { under = true; break; }
    m.step(s);
    if (i >= p.log.size()) { c.violation("stopped", "after " + std::to_string(i) + " commands\n" + t); return; }
    Pose &a = p.log[i], &b = m.s; double e = 1e-9 * (1 + i); std::string where = "command " + std::to_string(i) + " (" + s + ")\n" + show(a) + "\nexpected\n" + show(b) + "\n" + t.substr(0, 2000);
    c.check(std::abs(dot(a.d, a.d) - 1) < e && std::abs(dot(a.r, a.r) - 1) < e && std::abs(dot(a.d, a.r)) < e, "frame:" + s, where);
    c.check(dist(a.d, b.d) < e && dist(a.r, b.r) < e, "orientation:" + s, where);
    double far = std::max(1.0, std::sqrt(dot(b.p, b.p))) + b.len; c.check(dist(a.p, b.p) < e * far * 10, "position:" + s, where);
    c.check(std::abs(a.len - b.len) <= 1e-9 * b.len * (1 + i) && std::abs(a.wid - b.wid) <= 1e-9 * b.wid * (1 + i) && a.tex == b.tex, "size:" + s, where);
    c.count("states"); ++i;
  }
  c.check(under || i == p.log.size(), "went-on", t); c.check(under == thrown, under ? "unbalanced-accepted" : "balanced-rejected", t);
  if (under) c.count("unbalanced"); c.count("walks"); c.distinct(vf::hashStr(t)); if (!m.st.empty()) c.violation("model", "unbalanced");
}

// what a node drawn by an L-system looks like through the C API
struct Prim { int kind; Pose s; };     // 0 cylinder 1 cone 2 sphere
struct Hit { bool any = false; int colour = -1; };
void mesh(vf::Ctx &c) {
  auto &r = c.rng; std::string dir = vf::freshDir(c); Grammar g; g.gen = 1 + (int) r.below(3); g.angle = r.real(-180, 180); g.scale = r.real(0.5, 2);
  static const std::vector<std::string> solids{"cylinder", "cone", "sphere", "F"};
  auto body = [&](Syms &s, size_t n) { size_t open = 0; for (size_t i = 0; i < n; ++i) { double x = r.real(); if (x < 0.45) s.push_back(r.pick(solids)); else if (x < 0.55) { s.push_back("["); ++open; } else if (x < 0.65 && open) { s.push_back("]"); --open; } else if (x < 0.72) s.push_back("@"); else s.push_back(std::string(1, Marks[1 + r.below(Marks.size() - 3)])); } while (open--) s.push_back("]"); };
  g.axiom = {"root"}; Syms b; body(b, 1 + r.below(25)); b.push_back(r.pick(solids)); g.prods.push_back({"root", Prod{1, false, b}});
  std::string t = text(r, g); Model m{}; m.angle = g.angle; m.scale = g.scale; double size = std::round(r.real(1, 30)) / 10; m.s.len = m.s.wid = size;
  std::vector<Prim> prims; int n = 1 + (int) r.below(4); bool usesOther = false;
  for (auto &s : b) { if (m.step(s)) continue; prims.push_back({s == "cone" ? 1 : s == "sphere" ? 2 : 0, m.s}); m.s.p = add(m.s.p, m.s.d, m.s.len); if (m.s.tex) usesOther = true; }
  double big = 0; for (auto &p : prims) big = std::max({big, p.s.len, p.s.wid, std::sqrt(dot(p.s.p, p.s.p))}); if (big > 3000) return;
  static const std::vector<std::pair<std::string, int>> cols{{"red", 0xff0000}, {"#00ff00", 0x00ff00}, {"#0000ff", 0x0000ff}, {"#ffff00", 0xffff00}};
  std::string style, cl, ix, ty, sc;
  for (int i = 0; i < n; ++i) { cl += (i ? "," : "") + cols[i].first; ix += (i ? "," : "") + std::string("0"); ty += (i ? "," : "") + std::string("background"); sc += (i ? "," : "") + std::string("1"); }
  style = "@texture url(\"t.txt\");\n@lsystem url(\"t.lsys\");\nnode|z10-19[natural=tree] { builder: tree; lsys: t; lsys-size: " + std::to_string(size) + "m; lsys-colors: " + cl + "; lsys-texture-indices: " + ix + "; lsys-texture-types: " + ty + "; lsys-texture-scales: " + sc + "; }\n";
  vf::spit(dir + "/t.lsys", t); vf::spit(dir + "/t.txt", "0,100,100\nbackground,0,0,100,100\n");
  vf::spit(dir + "/s.mapcss", style);
  api::Engine e(dir); e.style(dir + "/s.mapcss"); e.memory();
  double lat = r.real(-70, 70), lon = r.real(-170, 170); int lod = (int) r.range(14, 19);
  QuadKey q = GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(lat, lon), lod);
  api::Result a; api::addElement(a, "mem", dir + "/s.mapcss", 7, {{lat, lon}}, {{"natural", "tree"}}, 10, 19);
  api::load(a, dir + "/s.mapcss", q); e.close();
  std::string shown = t + "\n" + style;
  if (!a.errors.empty() || a.meshes.size() != 1) { c.violation("not-drawn", std::to_string(a.meshes.size()) + " meshes, " + (a.errors.empty() ? "" : a.errors[0]) + "\n" + shown); return; }
  auto &x = a.meshes[0];
  double mLat = 2 * M_PI * 6378137 / 360, circ = 0; (void) circ;
  utymap::GeoCoordinate one = GeoUtils::worldToGeo(utymap::GeoCoordinate(lat, lon), 1, 1); double dLon = one.longitude - lon, dLat = one.latitude - lat;
  c.check(std::abs(dLat * mLat - 1) < 0.01 && std::abs(dLon * mLat * std::cos(lat * M_PI / 180) - 1) < 0.01, "metre", std::to_string(dLat * mLat) + " " + std::to_string(dLon * mLat * std::cos(lat * M_PI / 180)));
  std::vector<V3> vs; for (size_t i = 0; i + 2 < x.v.size(); i += 3) vs.push_back({(x.v[i] - lon) / dLon, x.v[i + 2], (x.v[i + 1] - lat) / dLat});
  double eps = 1e-3 + 2e-7 * big * 10;
  std::vector<char> used(prims.size(), 0); std::vector<int> per(prims.size(), 0);
  std::vector<std::array<double, 2>> along(prims.size(), {{1e9, -1e9}});
  for (size_t ti = 0; ti + 2 < x.t.size(); ti += 3) {
    V3 p[3]; for (int k = 0; k < 3; ++k) p[k] = vs[x.t[ti + k]];
    int col = x.c[x.t[ti]] ; bool ok = false, colour = false; std::string best;
    for (size_t i = 0; i < prims.size(); ++i) {
      const Pose &s = prims[i].s; bool in = true;
      if (prims[i].kind == 2) { for (auto &v : p) { V3 d = add(v, s.p, -1); double q2 = d[0] * d[0] / (s.wid * s.wid) + d[1] * d[1] / (s.len * s.len) + d[2] * d[2] / (s.wid * s.wid); in &= std::abs(std::sqrt(q2) - 1) < 1e-3 + eps / std::min(s.wid, s.len); } }
      else for (auto &v : p) { V3 d = add(v, s.p, -1); double h = dot(d, s.d); V3 o = add(d, s.d, -h); double rad = std::sqrt(dot(o, o)); bool base = std::abs(h) < eps, top = std::abs(h - s.len) < eps; double full = prims[i].kind == 1 && top && !base ? 0 : s.wid;
        in &= (base || top) && (rad < eps || std::abs(rad - full) < eps || (prims[i].kind == 1 && base && top && rad < s.wid + eps)); }
      if (!in) continue;
      ok = true; used[i] = 1; ++per[i];
      for (auto &v : p) { double h = dot(add(v, s.p, -1), prims[i].kind == 2 ? V3{{0, 1, 0}} : s.d); along[i][0] = std::min(along[i][0], h); along[i][1] = std::max(along[i][1], h); }
      size_t want = (s.tex + (prims[i].kind == 2 ? 1 : 0)) % n; int rgb = (col >> 8) & 0xffffff; int w = cols[want].second; (void) w;
      bool same = true; for (int k = 0; k < 3; ++k) same &= std::abs(((rgb >> (8 * k)) & 255) - ((w >> (8 * k)) & 255)) <= 2;
      colour |= same; if (!same) best += " primitive " + std::to_string(i) + " wants " + cols[want].first;
    }
    char hex[16]; snprintf(hex, sizeof hex, "%08x", col);
    c.check(ok, "stray-triangle", "triangle " + std::to_string(ti / 3) + "\n" + shown); if (ok) c.check(colour, "colour", std::string(hex) + best + "\n" + shown);
    c.count("triangles");
  }
  for (size_t i = 0; i < prims.size(); ++i) {
    if (prims[i].s.len < 20 * eps || prims[i].s.wid < 20 * eps) continue;
    std::string w = "primitive " + std::to_string(i) + " kind " + std::to_string(prims[i].kind) + " " + show(prims[i].s) + "\n" + shown;
    c.check(used[i], "primitive-missing", w); if (!used[i]) continue;
    double lo = prims[i].kind == 2 ? -prims[i].s.len : 0; c.check(along[i][0] < lo + eps + (prims[i].kind == 2 ? 0.2 * prims[i].s.len : 0) && along[i][1] > prims[i].s.len - eps - (prims[i].kind == 2 ? 0.2 * prims[i].s.len : 0), "primitive-partial", w);
    c.check(per[i] >= (prims[i].kind == 2 ? 20 : prims[i].kind == 1 ? 14 : 21), "primitive-open", std::to_string(per[i]) + " " + w);
    c.count(prims[i].kind == 2 ? "spheres" : prims[i].kind == 1 ? "cones" : "cylinders");
  }
  if (usesOther) c.count("styles_switched"); c.count("meshes"); c.distinct(vf::hashStr(api::dump(x)));
}
}
int main(int argc, char **argv) { return vf::main(argc, argv, {{"rewrite", 15000, 150000, rewrite, 60}, {"stochastic", 400, 5000, stochastic, 60}, {"turtle", 8000, 100000, turtle, 60}, {"mesh", 3000, 40000, mesh, 60}}); }
