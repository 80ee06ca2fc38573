// The C API of the library as a client sees it; every callback is recorded per calling thread.
#ifndef VF_API_HPP
#define VF_API_HPP
#include "el.hpp"
extern "C" {
typedef void OnNewDirectory(const char *path);
typedef void OnMeshBuilt(int tag, const char *name, const double *vertices, int vertexSize, const int *triangles, int triSize,
                         const int *colors, int colorSize, const double *uvs, int uvSize, const int *uvMap, int uvMapSize);
typedef void OnElementLoaded(int tag, std::uint64_t id, const char **tags, int tagsSize, const double *vertices, int vertexSize, const char **style, int styleSize);
typedef void OnError(const char *errorMessage);
void disconnect();
void connect(const char *indexPath, OnError *errorCallback);
void registerStylesheet(const char *path, OnNewDirectory *directoryCallback);
void registerInMemoryStore(const char *key);
void registerPersistentStore(const char *key, const char *dataPath, OnNewDirectory *directoryCallback);
void enableMeshCache(int enabled);
void addDataInRange(const char *key, const char *styleFile, const char *path, int startLod, int endLod, OnError *errorCallback, utymap::CancellationToken *cancellationToken);
void addDataInBoundingBox(const char *key, const char *styleFile, const char *path, double minLat, double minLon, double maxLat, double maxLon, int startLod, int endLod, OnError *errorCallback, utymap::CancellationToken *cancellationToken);
void addDataInQuadKey(const char *key, const char *styleFile, const char *path, int tileX, int tileY, int levelOfDetail, OnError *errorCallback, utymap::CancellationToken *cancellationToken);
void addDataInElement(const char *key, const char *styleFile, std::uint64_t id, const double *vertices, int vertexLength, const char **tags, int tagLength, int startLod, int endLod, OnError *errorCallback, utymap::CancellationToken *cancellationToken);
bool hasData(int tileX, int tileY, int levelOfDetail);
void getDataByText(int tag, const char *notTerms, const char *andTerms, const char *orTerms, double minLatitude, double minLongitude, double maxLatitude, double maxLongitude, int startLod, int endLod, OnElementLoaded *elementCallback, OnError *errorCallback, utymap::CancellationToken *cancellationToken);
void getDataByQuadKey(int tag, const char *styleFile, int tileX, int tileY, int levelOfDetail, int eleDataType, OnMeshBuilt *meshCallback, OnElementLoaded *elementCallback, OnError *errorCallback, utymap::CancellationToken *cancellationToken);
double getElevationByQuadKey(int tileX, int tileY, int levelOfDetail, int eleDataType, double latitude, double longitude);
}

namespace api {
using el::QuadKey;
struct Mesh { std::string name; std::vector<double> v; std::vector<int> t, c; std::vector<double> uv; std::vector<int> map; };
struct Elem { std::uint64_t id; std::vector<std::string> tags; std::vector<double> v; std::vector<std::string> style; };
struct Result {
  int tag = 0;
  std::vector<Mesh> meshes; std::vector<Elem> elems; std::vector<std::string> errors;
  std::vector<int> order;                 // 0 mesh, 1 element
  size_t deliveries = 0, afterCancel = 0, wrongTag = 0;
  long cancelAt = -1;                     // cancel during this delivery
  long dieAt = -1;                        // the process ends during this delivery
  utymap::CancellationToken token;
  bool keep = true;
  void delivered() {
    if (token.isCancelled()) ++afterCancel;
    if ((long) deliveries == dieAt) _exit(0);
    if ((long) deliveries == cancelAt) token.cancel();
    ++deliveries;
  }
};
inline Result *&cur() { static thread_local Result *r = nullptr; return r; }

inline void onDir(const char *p) { vf::mkdirs(p); }
inline void onError(const char *m) { if (cur()) cur()->errors.push_back(m ? m : "(null)"); }
inline void onMesh(int tag, const char *name, const double *v, int vn, const int *t, int tn, const int *c, int cn, const double *uv, int un, const int *m, int mn) {
  Result &r = *cur();
  if (tag != r.tag) ++r.wrongTag;
  if (r.keep) {
    Mesh x; x.name = name; x.v.assign(v, v + vn); x.t.assign(t, t + tn); x.c.assign(c, c + cn); x.uv.assign(uv, uv + un); x.map.assign(m, m + mn);
    r.meshes.push_back(std::move(x));
  }
  r.order.push_back(0);
  r.delivered();
}
inline void onElement(int tag, std::uint64_t id, const char **tags, int tn, const double *v, int vn, const char **style, int sn) {
  Result &r = *cur();
  if (tag != r.tag) ++r.wrongTag;
  if (r.keep) {
    Elem e; e.id = id; for (int i = 0; i < tn; ++i) e.tags.push_back(tags[i]); e.v.assign(v, v + vn); for (int i = 0; i < sn; ++i) e.style.push_back(style[i]);
    r.elems.push_back(std::move(e));
  }
  r.order.push_back(1);
  r.delivered();
}
struct Call {              // directs callbacks of this thread to r
  Result *old; explicit Call(Result &r) : old(cur()) { cur() = &r; }
  ~Call() { cur() = old; }
};

enum Ele { FLAT = 0, SRTM = 1, GRID = 2 };
inline void load(Result &r, const std::string &style, const QuadKey &q, int ele = FLAT) {
  Call c(r);
  getDataByQuadKey(r.tag, style.c_str(), q.tileX, q.tileY, q.levelOfDetail, ele, onMesh, onElement, onError, &r.token);
}
inline void text(Result &r, const std::string &n, const std::string &a, const std::string &o, double la0, double lo0, double la1, double lo1, int l0, int l1) {
  Call c(r);
  getDataByText(r.tag, n.c_str(), a.c_str(), o.c_str(), la0, lo0, la1, lo1, l0, l1, onElement, onError, &r.token);
}
inline void addFile(Result &r, const std::string &key, const std::string &style, const std::string &path, const QuadKey &q) {
  Call c(r); addDataInQuadKey(key.c_str(), style.c_str(), path.c_str(), q.tileX, q.tileY, q.levelOfDetail, onError, &r.token);
}
inline void addFile(Result &r, const std::string &key, const std::string &style, const std::string &path, int l0, int l1) {
  Call c(r); addDataInRange(key.c_str(), style.c_str(), path.c_str(), l0, l1, onError, &r.token);
}
inline void addFile(Result &r, const std::string &key, const std::string &style, const std::string &path, const el::BoundingBox &b, int l0, int l1) {
  Call c(r); addDataInBoundingBox(key.c_str(), style.c_str(), path.c_str(), b.minPoint.latitude, b.minPoint.longitude, b.maxPoint.latitude, b.maxPoint.longitude, l0, l1, onError, &r.token);
}
inline void addElement(Result &r, const std::string &key, const std::string &style, std::uint64_t id, const el::Coords &pts, const el::Tags &tags, int l0, int l1) {
  Call c(r);
  std::vector<double> v; for (auto &p : pts) { v.push_back(p.first); v.push_back(p.second); }
  std::vector<const char *> t; for (auto &x : tags) { t.push_back(x.first.c_str()); t.push_back(x.second.c_str()); }
  addDataInElement(key.c_str(), style.c_str(), id, v.data(), (int) v.size(), t.data(), (int) t.size(), l0, l1, onError, &r.token);
}

// one connected library instance with its own directories
struct Engine {
  std::string dir; Result last;
  explicit Engine(const std::string &dir) : dir(dir) { vf::mkdirs(dir + "/index"); vf::mkdirs(dir + "/data"); open(); }
  bool on = false;
  void open() { Call c(last); connect((dir + "/index/").c_str(), onError); on = true; }
  void close() { if (on) disconnect(); on = false; }
  void style(const std::string &path) { Call c(last); registerStylesheet(path.c_str(), onDir); }
  void memory(const std::string &key = "mem") { Call c(last); registerInMemoryStore(key.c_str()); }
  void persistent(const std::string &key = "disk", const std::string &sub = "data") {
    Call c(last); vf::mkdirs(dir + "/" + sub); registerPersistentStore(key.c_str(), (dir + "/" + sub).c_str(), onDir);
    el::makeDataDirs(dir + "/" + sub, 19);
  }
  ~Engine() { close(); }
};
static const char *const DefaultStyle = "/repo/unity/demo/Assets/StreamingAssets/mapcss/default/index.mapcss";

inline std::string dump(const Mesh &m) {
  std::ostringstream s; s.precision(17);
  if (m.v.size() > 3000) {           // a digest says the same
    std::string raw; auto put = [&](const void *p, size_t n) { raw.append((const char *) p, n); raw += '|'; };
    put(m.v.data(), m.v.size() * 8); put(m.t.data(), m.t.size() * 4); put(m.c.data(), m.c.size() * 4); put(m.uv.data(), m.uv.size() * 8); put(m.map.data(), m.map.size() * 4);
    s << "mesh " << m.name << " v" << m.v.size() << " t" << m.t.size() << " digest " << std::hex << vf::hashStr(raw); return s.str();
  }
  s << "mesh " << m.name << " v"; for (auto d : m.v) s << ' ' << d;
  s << " t"; for (auto d : m.t) s << ' ' << d;
  s << " c"; for (auto d : m.c) s << ' ' << d;
  s << " uv"; for (auto d : m.uv) s << ' ' << d;
  s << " m"; for (auto d : m.map) s << ' ' << d;
  return s.str();
}
inline std::string dump(const Elem &e) {
  std::ostringstream s; s.precision(17);
  std::vector<std::string> tg; for (size_t i = 0; i + 1 < e.tags.size(); i += 2) tg.push_back(e.tags[i] + "=" + e.tags[i + 1]);
  std::sort(tg.begin(), tg.end());
  s << "element " << e.id << " tags"; for (auto &d : tg) s << ' ' << d;
  s << " v"; for (auto d : e.v) s << ' ' << d;
  std::vector<std::string> st; for (size_t i = 0; i + 1 < e.style.size(); i += 2) st.push_back(e.style[i] + "=" + e.style[i + 1]);
  std::sort(st.begin(), st.end());
  s << " style"; for (auto &d : st) s << ' ' << d;
  return s.str();
}
}
#endif
