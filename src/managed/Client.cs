// C24: the managed client library against independent models, local stand-ins of its servers and the native library.
using System;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.IO.Compression;
using System.Linq;
using System.Runtime.InteropServices;
using System.Text;
using System.Threading;
using UnityEngine;
using UtyDepend;
using UtyDepend.Config;
using UtyMap.Unity;
using UtyMap.Unity.Data;
using UtyMap.Unity.Geocoding;
using UtyMap.Unity.Infrastructure.Config;
using UtyMap.Unity.Infrastructure.Diagnostic;
using UtyMap.Unity.Infrastructure.IO;
using UtyMap.Unity.Infrastructure.IO.Compression;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyMap.Unity.Utils;
using UtyRx;
using Tok = UtyMap.Unity.CancellationToken;

namespace Verif
{
    class Rng
    {
        ulong s; public Rng(ulong seed) { s = seed; }
        public ulong Next() { ulong z = (s += 0x9E3779B97F4A7C15UL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9UL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBUL; return z ^ (z >> 31); }
        public int Below(int n) { return (int)(Next() % (ulong)n); }
        public double Real(double a, double b) { return a + (b - a) * (Next() >> 11) / 9007199254740992.0; }
        public bool Chance(double p) { return Real(0, 1) < p; }
        public T Pick<T>(IList<T> v) { return v[Below(v.Count)]; }
    }
    static class Str { public static string Join<T>(string sep, IEnumerable<T> v) { return string.Join(sep, v.Select(x => x.ToString()).ToArray()); } }
    class Ctx
    {
        public Rng R; public string Suite, Dir; public int Case;
        public Dictionary<string, long> Counters = new Dictionary<string, long>(); public HashSet<string> Distinct = new HashSet<string>(); public List<string> Violations = new List<string>(), Samples = new List<string>();
        public static string Esc(string s) { var b = new StringBuilder("\""); foreach (var c in s) if (c == '"' || c == '\\') b.Append('\\').Append(c); else if (c < 32 || c > 126) b.AppendFormat("\\u{0:x4}", (int)c); else b.Append(c); return b.Append('"').ToString(); }
        public void Count(string k, long n = 1) { lock (this) { long v; Counters.TryGetValue(k, out v); Counters[k] = v + n; } }
        public void Violation(string key, string detail) { lock (this) { if (Violations.Count < 40) Violations.Add(String.Format("{{\"suite\":{0},\"case\":{1},\"key\":{2},\"detail\":{3}}}", Esc(Suite), Case, Esc(key), Esc(detail.Length > 4000 ? detail.Substring(0, 4000) : detail))); } }
        public bool Check(bool ok, string key, Func<string> detail) { if (!ok) Violation(key, detail()); return ok; }
        public void See(string content) { ulong h = 1469598103934665603UL; foreach (var c in content) h = (h ^ c) * 1099511628211UL; Distinct.Add(h.ToString("x")); }
        public string Result()
        {
            return String.Format("{{\"counters\":{{{0}}},\"distinct\":[{1}],\"samples\":[{2}],\"inconclusive\":[],\"violations\":[{3}]}}", Str.Join(",", Counters.Select(p => Esc(p.Key) + ":" + p.Value)), Str.Join(",", Distinct.Select(Esc)), Str.Join(",", Samples.Take(3).Select(Esc)), Str.Join(",", Violations));
        }
    }

    // ---- stand-ins ----
    public class FakeNet : INetworkService
    {
        public static Func<string, byte[]> Handler; public static bool Async; public static CultureInfo Culture = CultureInfo.InvariantCulture; public static List<string> Requests = new List<string>(); static readonly object Lock = new object();
        byte[] Serve(string url) { lock (Lock) Requests.Add(url); return Handler(url); }
        public IObservable<string> Get(string url, Dictionary<string, string> headers = null) { return GetAndGetBytes(url, headers).Select(b => Encoding.UTF8.GetString(b)); }
        public IObservable<byte[]> GetAndGetBytes(string url, Dictionary<string, string> headers = null)
        {
            return new Answer(this, url);
        }
        // one value and, as with the real service, no completion
        class Answer : IObservable<byte[]>
        {
            readonly FakeNet net; readonly string url; public Answer(FakeNet net, string url) { this.net = net; this.url = url; }
            public IDisposable Subscribe(IObserver<byte[]> o)
            {
                if (!Async) o.OnNext(net.Serve(url));
                else ThreadPool.QueueUserWorkItem(_ => { Thread.CurrentThread.CurrentCulture = Culture; Thread.Sleep(Math.Abs(url.Length * 31 + url[url.Length - 2]) % 7); try { o.OnNext(net.Serve(url)); } catch (Exception e) { lock (Silent.Errors) Silent.Errors.Add("download " + e); } });
                return Disposable.Empty;
            }
        }
    }
    public class Silent : ITrace
    {
        public static List<string> Errors = new List<string>();
        public void Dispose() { }
        public void Debug(string c, string m) { } public void Debug(string c, string f, string a) { } public void Debug(string c, string f, string a, string b) { }
        public void Info(string c, string m) { } public void Info(string c, string f, string a) { } public void Info(string c, string f, string a, string b) { }
        public void Warn(string c, string m) { } public void Warn(string c, string f, string a) { } public void Warn(string c, string f, string a, string b) { }
        public void Error(string c, Exception e, string m) { lock (Errors) Errors.Add(m + " " + e); } public void Error(string c, Exception e, string f, string a) { Error(c, e, f); } public void Error(string c, Exception e, string f, string a, string b) { Error(c, e, f); }
    }
    class Obs<T> : IObserver<T>
    {
        readonly Action<T> f; public Obs(Action<T> f) { this.f = f; }
        public void OnCompleted() { } public void OnError(Exception e) { lock (Silent.Errors) Silent.Errors.Add("observer " + e); } public void OnNext(T v) { f(v); }
    }

    static class Client
    {
        [DllImport("UtyMap.Shared")] static extern void disconnect();
        const double MaxLat = 85.05112877;
        static string N(double d) { return d.ToString("R", CultureInfo.InvariantCulture); }

        // ---- tile math ----
        static double TileLat(int y, int lod) { return Math.Atan(Math.Sinh(Math.PI * (1 - 2 * y / Math.Pow(2, lod)))) * 180 / Math.PI; }
        static double TileLon(int x, int lod) { return x * 360.0 / Math.Pow(2, lod) - 180; }
        static string Code(int x, int y, int lod) { var b = new StringBuilder(); for (int i = lod - 1; i >= 0; --i) b.Append((char)('0' + ((x >> i) & 1) + 2 * ((y >> i) & 1))); return b.ToString(); }
        static void Geo(Ctx c)
        {
            var r = c.R; var codes = new Dictionary<string, QuadKey>();
            for (int n = 0; n < 150; ++n)
            {
                int lod = 1 + r.Below(19), size = 1 << lod; double la, lo;
                switch (r.Below(6))
                {
                    case 0: la = r.Pick(new[] { -90.0, 90, 0, 85.06, -85.06, MaxLat, -MaxLat, 1e-9 }); lo = r.Pick(new[] { -180.0, 180, 0, 179.99999999, -179.99999999, 1e-9 }); break;
                    case 1: la = TileLat(r.Below(size), lod) + r.Pick(new[] { 0, 1e-9, -1e-9, 1e-7, -1e-7 }); lo = TileLon(r.Below(size), lod) + r.Pick(new[] { 0, 1e-9, -1e-9, 1e-7, -1e-7 }); break;
                    default: la = r.Real(-89, 89); lo = r.Real(-180, 180); break;
                }
                var q = GeoUtils.CreateQuadKey(new GeoCoordinate(la, lo), lod); Func<string> what = () => N(la) + "," + N(lo) + " at level " + lod + " is in " + q.TileX + "," + q.TileY + "," + q.LevelOfDetail;
                c.Count("coordinates");
                if (!c.Check(q.LevelOfDetail == lod && q.TileX >= 0 && q.TileX < size && q.TileY >= 0 && q.TileY < size, "tile-outside-world", what)) continue;
                double cla = Math.Max(-MaxLat, Math.Min(MaxLat, la)), clo = Math.Max(-180, Math.Min(180, lo)), E = 2e-7;
                if (Math.Abs(lo) < 179.9999) E = 1e-8;
                c.Check(TileLat(q.TileY + 1, lod) - E <= cla && cla <= TileLat(q.TileY, lod) + E && TileLon(q.TileX, lod) - E <= clo && clo <= TileLon(q.TileX + 1, lod) + E, "wrong-tile", what);
                var b = GeoUtils.QuadKeyToBoundingBox(q);
                c.Check(Math.Abs(b.MinPoint.Latitude - TileLat(q.TileY + 1, lod)) < 1e-9 && Math.Abs(b.MaxPoint.Latitude - TileLat(q.TileY, lod)) < 1e-9 && Math.Abs(b.MinPoint.Longitude - TileLon(q.TileX, lod)) < 1e-9 && Math.Abs(b.MaxPoint.Longitude - TileLon(q.TileX + 1, lod)) < 1e-9, "wrong-box", () => what() + " box " + b);
                var right = GeoUtils.QuadKeyToBoundingBox(new QuadKey(q.TileX + 1, q.TileY, lod)); var below = GeoUtils.QuadKeyToBoundingBox(new QuadKey(q.TileX, q.TileY + 1, lod));
                c.Check(right.MinPoint.Longitude == b.MaxPoint.Longitude && below.MaxPoint.Latitude == b.MinPoint.Latitude, "gap", what);
                double fx = r.Real(0.02, 0.98), fy = r.Real(0.02, 0.98); var inner = new GeoCoordinate(b.MinPoint.Latitude + fy * (b.MaxPoint.Latitude - b.MinPoint.Latitude), b.MinPoint.Longitude + fx * (b.MaxPoint.Longitude - b.MinPoint.Longitude));
                c.Check(GeoUtils.CreateQuadKey(inner, lod).Equals(q) && b.Contains(inner) && GeoUtils.CreateQuadKey(b.Center(), lod).Equals(q), "inner-point", () => what() + " inner " + inner);
                if (lod > 1) { var p = GeoUtils.CreateQuadKey(inner, lod - 1); c.Check(p.TileX == q.TileX / 2 && p.TileY == q.TileY / 2 && q.ToString().StartsWith(p.ToString()), "parent", what); }
                // tile codes
                string code = q.ToString(); c.Check(code == Code(q.TileX, q.TileY, lod), "code", () => what() + " code " + code); var back = QuadKey.FromString(code);
                c.Check(back.Equals(q) && back.GetHashCode() == q.GetHashCode() && back.LevelOfDetail == lod, "code-back", () => what() + " code " + code + " is " + back.TileX + "," + back.TileY + "," + back.LevelOfDetail);
                QuadKey other; if (codes.TryGetValue(code, out other)) c.Check(other.Equals(q), "code-twice", what); else { codes[code] = q; c.See(code); }
                foreach (var z in new[] { new QuadKey(q.TileX ^ 1, q.TileY, lod), new QuadKey(q.TileX, q.TileY ^ 1, lod), new QuadKey(q.TileX, q.TileY, lod + 1), new QuadKey(q.TileY, q.TileX, lod) }) c.Check(z.Equals(q) == (z.TileX == q.TileX && z.TileY == q.TileY && z.LevelOfDetail == q.LevelOfDetail) && (z.Equals(q) || z.ToString() != code), "equal-tiles", what);
                foreach (var bad in new[] { code.Substring(1) + "4", "x" + code.Substring(1) }) { bool thrown = false; try { QuadKey.FromString(bad); } catch (ArgumentException) { thrown = true; } c.Check(thrown, "bad-code", () => bad); }
            }
            // tiles of a box
            for (int n = 0; n < 12; ++n)
            {
                int lod = 1 + r.Below(19), size = 1 << lod, w = 1 + r.Below(Math.Min(size, 9)), h = 1 + r.Below(Math.Min(size, 9)), x = r.Below(size - w + 1), y = r.Below(size - h + 1);
                var box = new BoundingBox(Inside(r, x, y + h - 1, lod), Inside(r, x + w - 1, y, lod)); if (w == 1 && box.MinPoint.Longitude > box.MaxPoint.Longitude || h == 1 && box.MinPoint.Latitude > box.MaxPoint.Latitude) continue;
                var got = GeoUtils.BoundingBoxToQuadKeys(box, lod).Select(q => q.LevelOfDetail + ":" + q.TileX + "," + q.TileY).ToList(); var want = new HashSet<string>(); for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) want.Add(lod + ":" + (x + i) + "," + (y + j));
                c.Check(got.Count == want.Count && want.SetEquals(got), "tiles-of-box", () => w + " x " + h + " tiles from " + x + "," + y + " at " + lod + ": got " + Str.Join(" ", got)); c.Count("boxes");
            }
            // boxes, distances and projections
            for (int n = 0; n < 60; ++n)
            {
                var o = new GeoCoordinate(r.Real(-70, 70), r.Real(-179, 179)); double k = Math.Cos(o.Latitude * Math.PI / 180), s = r.Pick(new[] { 0.001, 0.01, 0.05 });
                var a = new GeoCoordinate(o.Latitude + r.Real(-s, s), o.Longitude + r.Real(-s, s)); double hav = Haversine(o, a), d = GeoUtils.Distance(o, a);
                var far = r.Chance(0.1) ? new GeoCoordinate(-o.Latitude + r.Real(-s, s), o.Longitude + (o.Longitude > 0 ? -180 : 180)) : new GeoCoordinate(r.Real(-85, 85), r.Real(-180, 180)); double fd = GeoUtils.Distance(o, far), fh = Haversine(o, far);
                c.Check(Math.Abs(fd - fh) <= 0.006 * fh, "far-distance", () => o + " " + far + " " + N(fd) + " " + N(fh));
                c.Check(Math.Abs(d - hav) <= 0.006 * hav + 1e-6 && Math.Abs(d - GeoUtils.Distance(a, o)) < 1e-6, "distance", () => o + " " + a + " " + N(d) + " " + N(hav));
                IProjection p = new CartesianProjection(o); double hgt = r.Real(-100, 5000); var v = p.Project(a, hgt); var back = p.Project(v); double tol = 1e-8 + s * 3e-7 / k;
                c.Check(Math.Abs(back.Latitude - a.Latitude) < tol && Math.Abs(back.Longitude - a.Longitude) < tol && v.y == (float)hgt, "projection-back", () => o + " " + a + " is back " + N(back.Latitude) + "," + N(back.Longitude));
                double flat = Math.Sqrt((double)v.x * v.x + (double)v.z * v.z); c.Check(Math.Abs(flat - hav) <= 0.01 * hav + 0.05 * s * 1e3, "projection-distance", () => o + " " + a + " " + N(flat) + " " + N(hav));
                c.Check(Math.Sign(v.x) * Math.Sign(a.Longitude - o.Longitude) >= 0 && Math.Sign(v.z) * Math.Sign(a.Latitude - o.Latitude) >= 0, "projection-side", () => o + " " + a);
                float sc = (float)r.Real(0.001, 10); var sp = new ScaledProjection(p, sc); var u = sp.Project(a, hgt); c.Check(Near(u.x, v.x * sc) && Near(u.y, v.y * sc) && Near(u.z, v.z * sc), "scaled-projection", () => a.ToString()); var ub = sp.Project(u); c.Check(Math.Abs(ub.Latitude - a.Latitude) < 4 * tol && Math.Abs(ub.Longitude - a.Longitude) < 4 * tol, "scaled-back", () => o + " " + a);
                float R = (float)r.Real(10, 7000); var w = new SphericalProjection(R).Project(a, hgt); double len = Math.Sqrt((double)w.x * w.x + (double)w.y * w.y + (double)w.z * w.z); c.Check(Math.Abs(len - Math.Abs(R + hgt)) < 1e-5 * (R + Math.Abs(hgt)), "spherical-projection", () => a + " " + N(len));
                if (R + hgt > 1) c.Check(Math.Abs(Math.Asin(w.y / (R + hgt)) * 180 / Math.PI - a.Latitude) < 1e-2 && Math.Abs(Math.Atan2(w.z, w.x) * 180 / Math.PI - a.Longitude) < 1e-2, "spherical-angles", () => a.ToString());
                var b1 = new BoundingBox(new GeoCoordinate(Math.Min(o.Latitude, a.Latitude), Math.Min(o.Longitude, a.Longitude)), new GeoCoordinate(Math.Max(o.Latitude, a.Latitude), Math.Max(o.Longitude, a.Longitude)));
                var x = new GeoCoordinate(o.Latitude + r.Real(-s, s), o.Longitude + r.Real(-s, s)); bool inside = x.Latitude > b1.MinPoint.Latitude && x.Latitude < b1.MaxPoint.Latitude && x.Longitude > b1.MinPoint.Longitude && x.Longitude < b1.MaxPoint.Longitude; c.Check(b1.Contains(x) == inside, "contains", () => b1 + " " + x);
                var b2 = new BoundingBox(x, new GeoCoordinate(x.Latitude + r.Real(0, s), x.Longitude + r.Real(0, s))); bool meet = b1.MinPoint.Latitude <= b2.MaxPoint.Latitude && b2.MinPoint.Latitude <= b1.MaxPoint.Latitude && b1.MinPoint.Longitude <= b2.MaxPoint.Longitude && b2.MinPoint.Longitude <= b1.MaxPoint.Longitude; c.Check(b1.Intersects(b2) == meet && b2.Intersects(b1) == meet, "intersects", () => b1 + " " + b2);
                var b3 = BoundingBox.Empty(); b3 = b3 + o; b3.Extend(a); b3 = b3 + b2; c.Check(b3.MinPoint.Latitude == Math.Min(b1.MinPoint.Latitude, b2.MinPoint.Latitude) && b3.MaxPoint.Latitude == Math.Max(b1.MaxPoint.Latitude, b2.MaxPoint.Latitude) && b3.MinPoint.Longitude == Math.Min(b1.MinPoint.Longitude, b2.MinPoint.Longitude) && b3.MaxPoint.Longitude == Math.Max(b1.MaxPoint.Longitude, b2.MaxPoint.Longitude), "extend", () => b1 + " " + b2 + " " + b3);
                double side = r.Real(10, 5000); var b4 = BoundingBox.Create(o, side, side); double sn = Haversine(new GeoCoordinate(b4.MinPoint.Latitude, o.Longitude), new GeoCoordinate(b4.MaxPoint.Latitude, o.Longitude)), we = Haversine(new GeoCoordinate(o.Latitude, b4.MinPoint.Longitude), new GeoCoordinate(o.Latitude, b4.MaxPoint.Longitude));
                c.Check(b4.Contains(o) && Math.Abs(sn - side) < 0.01 * side && Math.Abs(we - side) < 0.01 * side, "box-around", () => o + " " + N(side) + " is " + N(sn) + " x " + N(we)); c.Count("projections");
            }
        }
        static bool Near(double a, double b) { return Math.Abs(a - b) <= 1e-6 * (Math.Abs(a) + Math.Abs(b)) + 1e-30; }
        static GeoCoordinate Inside(Rng r, int x, int y, int lod) { var b = GeoUtils.QuadKeyToBoundingBox(new QuadKey(x, y, lod)); double u = r.Real(0.05, 0.95), v = r.Real(0.05, 0.95); return new GeoCoordinate(b.MinPoint.Latitude + u * (b.MaxPoint.Latitude - b.MinPoint.Latitude), b.MinPoint.Longitude + v * (b.MaxPoint.Longitude - b.MinPoint.Longitude)); }
        static double Haversine(GeoCoordinate a, GeoCoordinate b) { double f = Math.PI / 180, x = Math.Pow(Math.Sin((a.Latitude - b.Latitude) * f / 2), 2) + Math.Cos(a.Latitude * f) * Math.Cos(b.Latitude * f) * Math.Pow(Math.Sin((a.Longitude - b.Longitude) * f / 2), 2); return 6371008.8 * 2 * Math.Asin(Math.Min(1, Math.Sqrt(x))); }

        // ---- interval tree ----
        static void Ranges(Ctx c)
        {
            var r = c.R; var t = new RangeTree<int, int>(); var model = new List<int[]>(); var queried = model.ToList(); int span = r.Pick(new[] { 5, 30, 1000, 1000000 }), id = 0; var log = new StringBuilder(); bool auto = true;
            Func<IEnumerable<RangeValuePair<int, int>>, string> S = q => Str.Join(" ", q.Select(x => x.From + ".." + x.To + "=" + x.Value).OrderBy(x => x)); Func<IEnumerable<int[]>, string> M = q => Str.Join(" ", q.Select(x => x[0] + ".." + x[1] + "=" + x[2]).OrderBy(x => x));
            for (int n = 0, k = 20 + r.Below(150); n < k; ++n)
            {
                int op = r.Below(20);
                if (op < 9) { int a = r.Below(span), b = r.Chance(0.2) ? a : a + r.Below(r.Chance(0.3) ? span : 1 + span / 8), v = r.Chance(0.1) && id > 0 ? id : ++id; if (r.Chance(0.15) && model.Count > 0) { var m = r.Pick(model); a = m[0]; b = m[1]; } if (r.Chance(0.5)) t.Add(a, b, v); else t.Add(new RangeValuePair<int, int>(a, b, v)); model.Add(new[] { a, b, v }); log.Append("add " + a + ".." + b + "=" + v + "; "); }
                else if (op < 11 && model.Count > 0) { var m = r.Pick(model); bool ok = t.Remove(new RangeValuePair<int, int>(m[0], m[1], m[2])); model.Remove(m); log.Append("remove " + m[0] + ".." + m[1] + "=" + m[2] + "; "); c.Check(ok, "remove", () => log.ToString()); }
                else if (op == 11) { c.Check(!t.Remove(new RangeValuePair<int, int>(-5, -4, 1)), "remove-unknown", () => log.ToString()); bool thrown = false; try { t.Add(3, 2, 1); } catch (ArgumentOutOfRangeException) { thrown = true; } c.Check(thrown, "reversed-range", () => log.ToString()); }
                else if (op == 12 && r.Chance(0.15)) { t.Clear(); model.Clear(); queried = model.ToList(); log.Append("clear; "); }
                else if (op == 13) { c.Check(t.Count == model.Count && S(t) == M(model) && Str.Join(" ", t.Values.OrderBy(x => x)) == Str.Join(" ", model.Select(x => x[2]).OrderBy(x => x)), "content", () => log + "\n" + S(t) + "\n" + M(model)); if (auto) queried = model.ToList(); }
                else if (op == 14 && r.Chance(0.3)) { auto = !auto; t.AutoRebuild = auto; log.Append("auto " + auto + "; "); }
                else if (op == 15) { t.Rebuild(); queried = model.ToList(); log.Append("rebuild; "); c.Check(t.IsInSync, "sync", () => log.ToString()); if (model.Count > 0) { int lo = model.Min(x => x[0]), hi = model.Max(x => x[1]); c.Check(t.Min == lo && t.Max == hi, "bounds", () => log + "bounds " + t.Min + ".." + t.Max + " instead of " + lo + ".." + hi); c.Count("bounds"); } }
                else
                {
                    if (auto) queried = model.ToList(); int a = r.Below(span + 2) - 1; if (queried.Count > 0 && r.Chance(0.5)) { var m = r.Pick(queried); a = m[r.Below(2)]; } int b = a + r.Below(1 + span / 4); string got, want; log.Append("query; ");
                    if (r.Chance(0.5)) { got = S(t[a]); want = M(queried.Where(x => x[0] <= a && a <= x[1])); b = a; } else { got = S(t[a, b]); want = M(queried.Where(x => x[0] <= b && a <= x[1])); }
                    c.Check(got == want, "query", () => log + "query " + a + ".." + b + "\ngot  " + got + "\nwant " + want); c.Count("range_queries"); if (want != "") { c.Count("range_queries_with_result"); c.See(want); }
                }
            }
            // level of detail ranges as the map controllers build them
            var f = new RangeTree<float, int>(); var fm = new List<Tuple<float, float, int>>(); float top = (float)r.Real(10, 1e5); for (int l = 1; l < 17; ++l) { float a = top * Mathf.Pow(2, -l), b = top * Mathf.Pow(2, 1 - l); f.Add(a, b, l); fm.Add(UtyRx.Tuple.Create(a, b, l)); }
            for (int n = 0; n < 40; ++n) { float x = (float)Math.Pow(2, r.Real(-18, 1)) * top; if (r.Chance(0.2)) x = fm[r.Below(fm.Count)].Item1; var got = Str.Join(" ", f[x].Select(y => y.Value).OrderBy(y => y)); var want = Str.Join(" ", fm.Where(y => y.Item1 <= x && x <= y.Item2).Select(y => y.Item3).OrderBy(y => y)); c.Check(got == want, "query-lod", () => N(x) + " got " + got + " want " + want); }
            c.Check(f.Min == fm.Min(y => y.Item1) && f.Max == fm.Max(y => y.Item2), "bounds-lod", () => f.Min + " " + f.Max);
            c.Samples.Add(log.ToString().Length > 400 ? log.ToString().Substring(0, 400) : log.ToString());
        }

        // ---- decompression ----
        static void Inflate(Ctx c, string corpus)
        {
            foreach (var zip in Directory.GetFiles(corpus, "*.zip").Where((f, i) => i % 8 == c.Case % 8))
            {
                var want = new Dictionary<string, byte[]>(); foreach (var f in Directory.GetFiles(zip + ".d")) want[Path.GetFileName(f)] = File.ReadAllBytes(f); string s = Path.GetFileName(zip);
                try
                {
                    var got = CompressionUtils.Unzip(File.ReadAllBytes(zip)).ToList(); c.Check(got.Count == want.Count, "unzip-count", () => s + " " + got.Count + " files instead of " + want.Count);
                    foreach (var g in got) { byte[] w; string name = g.Key.Replace('\\', '/'); name = name.Substring(name.LastIndexOf('/') + 1); if (!c.Check(want.TryGetValue(name, out w), "unzip-name", () => s + " " + g.Key)) continue; c.Check(w.Length == g.Value.Length && w.SequenceEqual(g.Value), "unzip-bytes", () => s + " " + name + " of " + w.Length + " bytes has " + g.Value.Length); c.Count("unzipped"); c.Count("unzipped_bytes", w.Length); }
                }
                catch (Exception e) { c.Violation("unzip-error", s + " " + e); }
                c.See(s);
            }
            // a damaged archive is refused or decoded to what it held, never to something else
            foreach (var zip in Directory.GetFiles(corpus, "*.zip").Where((f, i) => i % 8 == c.Case % 8).Take(12))
            {
                var bytes = File.ReadAllBytes(zip); if (bytes.Length > 100000) continue; int at = c.R.Below(bytes.Length); bytes[at] ^= (byte)(1 << c.R.Below(8));
                var want = new HashSet<string>(Directory.GetFiles(zip + ".d").Select(f => Convert.ToBase64String(File.ReadAllBytes(f)))); 
                try { foreach (var g in CompressionUtils.Unzip(bytes)) c.Check(want.Contains(Convert.ToBase64String(g.Value)), "damaged-accepted", () => Path.GetFileName(zip) + " byte " + at + " gives " + g.Value.Length + " bytes"); } catch (Exception) { c.Count("damaged_refused"); }
            }
        }

        // ---- the whole client ----
        class World
        {
            public Ctx C; public Rng R; public string Dir; public CompositionRoot Root; public IMapDataStore Store; public IMapDataLibrary Library; public Stylesheet Style; public Dictionary<string, QuadKey> Downloads = new Dictionary<string, QuadKey>();
            public int Grid; public ulong Salt; public StringBuilder Log = new StringBuilder(); public int Observers; public List<List<MapData>> Got = new List<List<MapData>>(); public List<List<Tile>> Done = new List<List<Tile>>(); public List<List<Element>> Found = new List<List<Element>>();
            public World(Ctx c, bool limit)
            {
                C = c; R = c.R; Dir = c.Dir; Salt = R.Next(); Grid = 1 + R.Below(6); Silent.Errors.Clear(); FakeNet.Requests.Clear(); FakeNet.Async = R.Chance(0.5); FakeNet.Handler = Serve;
                Directory.CreateDirectory(Dir + "/index/data"); Directory.CreateDirectory(Dir + "/index/import");
                File.WriteAllText(Dir + "/style.mapcss", "node|z1-16[w],way|z1-16[line] { builder: place; clip: false; }\n");
                var schema = new StringBuilder("Directory\n"); for (int la = -90; la < 90; ++la) for (int lo = -180; lo < 180; lo += 1) schema.Append(Cell(la, lo)).Append(' ').Append(Math.Abs(la * 7 + lo) % 6).Append('\n'); File.WriteAllText(Dir + "/schema.txt", schema.ToString());
                var b = ConfigBuilder.GetDefault().SetIndex(Dir + "/index").SetLocalElevationData(Dir + "/index/data").SetImport(Dir + "/index/import").SetOsmMapData("osm?data=", "({0},{1},{2},{3})", "xml").SetMapzenMapData("mz/{0}/{1}/{2}/{3}?{4}", "all", "json", "key").SetMapzenEleData("ele?json={0}&key={1}", Grid, "ele", "k").SetSrtmEleData("srtm", Dir + "/schema.txt"); b.Add("data/mapzen/limit", limit ? "true" : "false");
                Root = new CompositionRoot(new Container(), b.Build()).RegisterAction((k, _) => k.Register(UtyDepend.Component.For<ITrace>().Use<Silent>())).RegisterAction((k, _) => k.Register(UtyDepend.Component.For<INetworkService>().Use<FakeNet>())).RegisterAction((k, _) => k.Register(UtyDepend.Component.For<IProjection>().Use<CartesianProjection>(new GeoCoordinate(0, 0)))).RegisterAction((k, _) => k.Register(UtyDepend.Component.For<Stylesheet>().Use<Stylesheet>(Dir + "/style.mapcss"))).Setup();
                Store = Root.GetService<IMapDataStore>(); Library = Root.GetService<IMapDataLibrary>(); bool disk = R.Chance(0.4); if (disk) { Store.Register("disk", Dir + "/index/data"); Store.Register("memory"); } else { Store.Register("memory"); Store.Register("disk", Dir + "/index/data"); }
                C.Count(disk ? "persistent_store" : "memory_store"); Style = new Stylesheet(Dir + "/style.mapcss"); Observers = 1 + R.Below(3);
                for (int i = 0; i < Observers; ++i) { var g = new List<MapData>(); var d = new List<Tile>(); var f = new List<Element>(); Got.Add(g); Done.Add(d); Found.Add(f); ((IObservable<MapData>)Store).Subscribe(new Obs<MapData>(x => { lock (g) g.Add(x); })); ((IObservable<Tile>)Store).Subscribe(new Obs<Tile>(x => { lock (d) d.Add(x); })); ((IObservable<Element>)Store).Subscribe(new Obs<Element>(x => { lock (f) f.Add(x); })); }
            }
            public static string Cell(int la, int lo) { return (la >= 0 ? "N" : "S") + Math.Abs(la).ToString("00") + (lo >= 0 ? "E" : "W") + Math.Abs(lo).ToString("000"); }
            public int Height(double la, double lo) { ulong h = ((ulong)(long)Math.Round(la * 1e5) * 0x9E3779B97F4A7C15UL) ^ ((ulong)(long)Math.Round(lo * 1e5) * 0xBF58476D1CE4E5B9UL) ^ Salt; h ^= h >> 29; h *= 0x94D049BB133111EBUL; return (int)((h >> 40) % 4000) - 300; }
            // content of a tile (the download may serve several tiles)
            public List<Tuple<long, GeoCoordinate>> Content(QuadKey q)
            {
                var g = new Rng(Salt ^ (ulong)q.TileX * 1000003 ^ (ulong)q.TileY * 7919 ^ (ulong)q.LevelOfDetail << 50); var r = new List<Tuple<long, GeoCoordinate>>(); int n = 1 + g.Below(6);
                for (int i = 0; i < n; ++i) { var p = Inside(g, q.TileX, q.TileY, q.LevelOfDetail); r.Add(UtyRx.Tuple.Create(((((long)q.LevelOfDetail << 16 | (long)(q.TileX & 0xffff)) << 16 | (long)(q.TileY & 0xffff)) << 8) + i, new GeoCoordinate(Math.Round(p.Latitude, 7), Math.Round(p.Longitude, 7)))); } return r;
            }
            byte[] Serve(string url)
            {
                if (url.StartsWith("ele?json=")) { var s = url.Substring(9); s = s.Substring(0, s.LastIndexOf("&key=")); var json = UtyMap.Unity.Infrastructure.Formats.JSON.Parse(s); var pts = Decode(json["encoded_polyline"].Value); return Encoding.UTF8.GetBytes("{\"encoded_polyline\":\"x\",\"height\":[" + Str.Join(",", pts.Select(p => Height(p.Item1, p.Item2).ToString())) + "]}"); }
                if (url.StartsWith("srtm/")) { var cell = url.Substring(url.LastIndexOf('/') + 1).Replace(".hgt.zip", ""); return Hgt(cell); }
                if (url.StartsWith("mz/")) { var p = url.Split('/', '?'); var q = new QuadKey(int.Parse(p[3]), int.Parse(p[4]), int.Parse(p[2])); var sb = new StringBuilder("{\"pois\":{\"type\":\"FeatureCollection\",\"features\":["); bool first = true; foreach (var t in Tiles(q)) foreach (var e in Content(t)) { sb.Append(first ? "" : ",").Append("{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[" + N(e.Item2.Longitude) + "," + N(e.Item2.Latitude) + "]},\"properties\":{\"id\":" + e.Item1 + ",\"w\":\"n" + e.Item1 + "\"}}"); first = false; } return Encoding.UTF8.GetBytes(sb.Append("]}}").ToString()); }
                // the query gives the box of the tile with some padding
                var m = Uri.UnescapeDataString(url.Substring(url.IndexOf('=') + 1)).Trim('(', ')').Split(',').Select(x => double.Parse(x, CultureInfo.InvariantCulture)).ToArray(); var xml = new StringBuilder("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">\n");
                var lo = GeoUtils.CreateQuadKey(new GeoCoordinate(m[0], m[1]), 16); var hi = GeoUtils.CreateQuadKey(new GeoCoordinate(m[2], m[3]), 16); for (int x = lo.TileX; x <= hi.TileX; ++x) for (int y = hi.TileY; y <= lo.TileY; ++y) foreach (var e in Content(new QuadKey(x, y, 16))) if (e.Item2.Latitude >= m[0] && e.Item2.Latitude <= m[2] && e.Item2.Longitude >= m[1] && e.Item2.Longitude <= m[3]) xml.Append("<node id=\"" + e.Item1 + "\" lat=\"" + N(e.Item2.Latitude) + "\" lon=\"" + N(e.Item2.Longitude) + "\"><tag k=\"w\" v=\"n" + e.Item1 + "\"/></node>\n");
                return Encoding.UTF8.GetBytes(xml.Append("</osm>").ToString());
            }
            // the tiles of the requested levels which are served by one download
            public List<QuadKey> Requested = new List<QuadKey>();
            IEnumerable<QuadKey> Tiles(QuadKey q) { lock (Requested) return Requested.Where(t => t.ToString().StartsWith(q.ToString())).ToList(); }
            static List<UtyRx.Tuple<double, double>> Decode(string s) { var r = new List<UtyRx.Tuple<double, double>>(); int i = 0; long la = 0, lo = 0; while (i < s.Length) { for (int k = 0; k < 2; ++k) { long v = 0; int sh = 0, b; do { b = s[i++] - 63; v |= (long)(b & 0x1f) << sh; sh += 5; } while (b >= 0x20); v = (v & 1) != 0 ? ~(v >> 1) : v >> 1; if (k == 0) la += v; else lo += v; } r.Add(UtyRx.Tuple.Create(la / 1e6, lo / 1e6)); } return r; }
            public int Pixel(string cell, int row, int col) { uint h = 2166136261; foreach (var ch in cell) h = (h ^ ch) * 16777619; h ^= (uint)(row * 1201 + col); h *= 2654435761; return (int)(h >> 20) - 1000; }
            byte[] Hgt(string cell)
            {
                var raw = new byte[1201 * 1201 * 2]; int k = 0; for (int i = 0; i < 1201; ++i) for (int j = 0; j < 1201; ++j) { int v = Pixel(cell, i, j); raw[k++] = (byte)((v >> 8) & 255); raw[k++] = (byte)(v & 255); }
                var ms = new MemoryStream(); using (var z = new DeflateStream(ms, CompressionMode.Compress, true)) z.Write(raw, 0, raw.Length); return Zip(cell + ".hgt", raw, ms.ToArray());
            }
            public void Close() { Root.Dispose(); disconnect(); }
            public Tile Request(QuadKey q, ElevationDataType e, bool wait)
            {
                var t = new Tile(q, Style, new CartesianProjection(GeoUtils.QuadKeyToBoundingBox(q).Center()), e); lock (Requested) if (!Requested.Contains(q)) Requested.Add(q); Log.Append("tile " + q + " " + e + (wait ? "" : " (no wait)") + "; "); int before = Count(Done[0]); Store.OnNext(t);
                if (wait) Wait(() => Count(Done[0]) > before); return t;
            }
            public static int Count<T>(List<T> l) { lock (l) return l.Count; }
            public bool Wait(Func<bool> f, int ms = 20000) { var s = DateTime.UtcNow; while (!f()) { if ((DateTime.UtcNow - s).TotalMilliseconds > ms) return false; Thread.Sleep(1); } return true; }
        }
        static uint[] crcTable; static uint Crc(byte[] d) { if (crcTable == null) { var t = new uint[256]; for (uint i = 0; i < 256; ++i) { uint v = i; for (int k = 0; k < 8; ++k) v = (v & 1) != 0 ? 0xEDB88320 ^ v >> 1 : v >> 1; t[i] = v; } crcTable = t; } uint c = 0xffffffff; foreach (var b in d) c = crcTable[(c ^ b) & 255] ^ c >> 8; return ~c; }
        static byte[] Zip(string name, byte[] raw, byte[] packed)
        {
            var m = new MemoryStream(); var w = new BinaryWriter(m); var n = Encoding.ASCII.GetBytes(name); Action head = () => { w.Write((ushort)20); w.Write((ushort)0); w.Write((ushort)8); w.Write((ushort)0); w.Write((ushort)0x21); w.Write(Crc(raw)); w.Write(packed.Length); w.Write(raw.Length); w.Write((ushort)n.Length); w.Write((ushort)0); };
            w.Write(0x04034b50); head(); w.Write(n); w.Write(packed); int dir = (int)m.Position; w.Write(0x02014b50); w.Write((ushort)20); head(); w.Write((ushort)0); w.Write((ushort)0); w.Write((ushort)0); w.Write(0); w.Write(0); w.Write(n); int len = (int)m.Position - dir; w.Write(0x06054b50); w.Write(0); w.Write((ushort)1); w.Write((ushort)1); w.Write(len); w.Write(dir); w.Write((ushort)0); return m.ToArray();
        }
        static QuadKey RandomTile(Rng r, int lod) { return GeoUtils.CreateQuadKey(new GeoCoordinate(r.Real(-70, 70), r.Real(-179, 179)), lod); }
        static string Show(Element e) { return e.Id + " " + Str.Join(" ", e.Geometry.Select(g => N(g.Latitude) + "," + N(g.Longitude))); }

        static void Tiles(Ctx c)
        {
            var r = c.R; bool limit = c.Case % 40 == 7; var w = new World(c, limit); if (limit) c.Count("limited_requests");
            try
            {
                int lod = r.Chance(0.6) ? 16 : 2 + r.Below(14); var near = RandomTile(r, lod); var pool = new List<QuadKey>(); int size = 1 << lod; for (int i = 0, n = 2 + r.Below(5); i < n; ++i) pool.Add(new QuadKey((near.TileX + r.Below(3)) % size, Math.Min(size - 1, near.TileY + r.Below(3)), lod)); if (r.Chance(0.4)) { var q = pool[0]; pool.Add(new QuadKey(q.TileX ^ size >> 1, r.Chance(0.5) ? q.TileY : size - 1 - q.TileY, lod)); c.Count("pools_with_far_twin"); }
                if (r.Chance(0.4)) { FakeNet.Culture = Thread.CurrentThread.CurrentCulture = new CultureInfo(r.Pick(new[] { "de-DE", "fr-FR", "pt-BR" })); c.Count("comma_culture_tiles"); }
                // everything that is asked for is known to the server from the start
                lock (w.Requested) foreach (var q in pool) if (!w.Requested.Contains(q)) w.Requested.Add(q);
                var asked = new List<Tile>();
                for (int step = 0, n = limit ? 1 : 1 + r.Below(4); step < n; ++step)
                {
                    var ele = r.Chance(0.35) ? ElevationDataType.Grid : ElevationDataType.Flat;
                    if (r.Chance(0.5) && !limit) { asked.Add(w.Request(r.Pick(pool), ele, true)); c.Count("requests"); }
                    else { int k = limit ? 2 : 1 + r.Below(4); if (limit) ele = ElevationDataType.Grid; for (int i = 0; i < k; ++i) { asked.Add(w.Request(r.Pick(pool), ele, false)); c.Count("requests_at_once"); } }
                    if (!c.Check(w.Wait(() => w.Done.All(d => World.Count(d) >= asked.Count)), "not-completed", () => w.Log + "completed " + Str.Join(",", w.Done.Select(d => World.Count(d))) + " of " + asked.Count + " tiles; " + Str.Join("\n", Silent.Errors))) return;
                }
                Thread.Sleep(FakeNet.Async ? 25 : 3);
                for (int o = 0; o < w.Observers; ++o)
                {
                    c.Check(World.Count(w.Done[o]) == asked.Count && asked.All(t => w.Done[o].Count(x => ReferenceEquals(x, t)) == 1), "completed-twice", () => w.Log.ToString());
                    foreach (var t in asked)
                    {
                        List<MapData> mine; lock (w.Got[o]) mine = w.Got[o].Where(x => ReferenceEquals(x.Tile, t)).ToList();
                        var got = new List<string>(); foreach (var m in mine) m.Variant.Match(e => { got.Add(Show(e)); c.Check((e.Tags.Count == 1 || e.Tags.Count == 2 && e.Tags.ContainsKey("feature")) && e.Tags["w"] == "n" + e.Id && e.Styles["builder"] == "place", "element-content", () => w.Log + Show(e) + " tags " + Str.Join(",", e.Tags.Select(x => x.Key + "=" + x.Value)) + " styles " + Str.Join(",", e.Styles.Select(x => x.Key + "=" + x.Value))); double h = w.Library.GetElevation(t.ElevationType, t.QuadKey, e.Geometry[0]); c.Check(e.Heights.Length == 1 && Math.Abs(e.Heights[0] - h) < 1e-9, "element-height", () => w.Log + Show(e) + " at " + N(e.Heights[0]) + " instead of " + N(h)); c.Count("elements"); }, m2 => { c.Violation("mesh", w.Log + m2.Name); });
                        var want = w.Content(t.QuadKey).Select(e => e.Item1 + " " + N(e.Item2.Latitude) + "," + N(e.Item2.Longitude)).OrderBy(x => x).ToList(); got.Sort(string.CompareOrdinal); want.Sort(string.CompareOrdinal);
                        c.Check(got.SequenceEqual(want), "tile-content", () => w.Log + "tile " + t.QuadKey + " observer " + o + "\ngot  " + Str.Join("; ", got) + "\nwant " + Str.Join("; ", want)); c.See(t.QuadKey + Str.Join(";", want));
                        c.Check(w.Library.Exists(t.QuadKey), "loaded-unknown", () => w.Log.ToString());
                    }
                    lock (w.Got[o]) c.Check(w.Got[o].All(x => asked.Any(t => ReferenceEquals(t, x.Tile))), "foreign-tile", () => w.Log.ToString());
                }
                // elevation of the grid points
                foreach (var t in asked.Where(x => x.ElevationType == ElevationDataType.Grid)) { var b = t.BoundingBox; for (int i = 0; i <= w.Grid; ++i) for (int j = 0; j <= w.Grid; ++j) { var p = new GeoCoordinate(b.MinPoint.Latitude + i * (b.MaxPoint.Latitude - b.MinPoint.Latitude) / w.Grid, b.MinPoint.Longitude + j * (b.MaxPoint.Longitude - b.MinPoint.Longitude) / w.Grid); double la = Math.Round(p.Latitude * 1e6) / 1e6, lo = Math.Round(p.Longitude * 1e6) / 1e6, h = w.Library.GetElevation(ElevationDataType.Grid, t.QuadKey, p); if (Math.Abs(la * 1e5 - Math.Floor(la * 1e5) - 0.5) < 1e-3 || Math.Abs(lo * 1e5 - Math.Floor(lo * 1e5) - 0.5) < 1e-3) continue; c.Check(Math.Abs(h - w.Height(la, lo)) < 1e-3, "grid-height", () => w.Log + "grid " + w.Grid + " point " + i + "," + j + " at " + p + " is " + N(h) + " instead of " + w.Height(la, lo)); c.Count("grid_points"); } }
                // one request per file when nothing is asked for at once
                if (!w.Log.ToString().Contains("no wait")) { lock (FakeNet.Requests) c.Check(FakeNet.Requests.Distinct().Count() == FakeNet.Requests.Count, "downloaded-twice", () => w.Log + Str.Join("\n", FakeNet.Requests)); c.Count("sequential_histories"); }
                // search
                if (asked.Count > 0)
                {
                    var t = r.Pick(asked); var e = r.Pick(w.Content(t.QuadKey)); var box = t.BoundingBox; bool miss = r.Chance(0.3); if (miss) box = new BoundingBox(new GeoCoordinate(-MaxLat + 1, -170), new GeoCoordinate(-MaxLat + 1.5, -169)); var range = miss ? new Range<int>(lod, lod) : new Range<int>(Math.Max(1, lod - r.Below(3)), lod + (lod < 16 ? r.Below(2) : 0)); if (range.Minimum != range.Maximum) c.Count("searches_over_levels"); w.Store.OnNext(new MapQuery("", "n" + e.Item1, "", box, range));
                    for (int o = 0; o < w.Observers; ++o) { var got = w.Found[o].Select(Show).ToList(); var want = miss ? new List<string>() : new List<string> { e.Item1 + " " + N(e.Item2.Latitude) + "," + N(e.Item2.Longitude) }; if (!miss || !Covers(box, e.Item2)) c.Check(got.SequenceEqual(want), "search", () => w.Log + "n" + e.Item1 + " got " + Str.Join("; ", got)); c.Count("searches"); }
                }
                // a line over the ground: every point of it has the height of its place
                if (asked.Count > 0 && !limit)
                {
                    var t = r.Pick(asked); var p = new GeoCoordinate[2 + r.Below(5)]; for (int i = 0; i < p.Length; ++i) p[i] = Inside(r, t.QuadKey.TileX, t.QuadKey.TileY, lod); var line = new Element(7, p, new double[p.Length], new Dictionary<string, string> { { "line", "yes" } }, new Dictionary<string, string>()); w.Library.AddTo("memory", line, w.Style, new Range<int>(lod, lod), new Tok()); int mine = 0;
                    var got = new List<MapData>(); w.Library.Get(new Tile(t.QuadKey, w.Style, new CartesianProjection(p[0]), t.ElevationType), new List<IObserver<MapData>> { new Obs<MapData>(got.Add) });
                    foreach (var m in got) m.Variant.Match(x => { if (x.Id != 7 || !x.Tags.ContainsKey("line")) return; ++mine; c.Check(Show(x) == Show(line) && x.Heights.Length == p.Length, "line-points", () => w.Log + Show(x) + " instead of " + Show(line)); for (int i = 0; i < p.Length && i < x.Heights.Length; ++i) { double h = w.Library.GetElevation(t.ElevationType, t.QuadKey, x.Geometry[i]); c.Check(Math.Abs(x.Heights[i] - h) < 1e-9, "line-height", () => w.Log + Show(x) + " point " + i + " at " + N(x.Heights[i]) + " instead of " + N(h)); } }, _ => { });
                    c.Check(mine == 1, "line-delivered", () => w.Log + " " + mine + " times " + Show(line)); c.Count("lines");
                }
                c.Check(Silent.Errors.Count == 0, "errors", () => w.Log + Str.Join("\n", Silent.Errors)); c.Count("observers", w.Observers); c.Samples.Add(w.Log.ToString());
            }
            finally { FakeNet.Culture = Thread.CurrentThread.CurrentCulture = CultureInfo.InvariantCulture; w.Close(); }
        }
        static bool Covers(BoundingBox b, GeoCoordinate p) { return b.MinPoint.Latitude <= p.Latitude && p.Latitude <= b.MaxPoint.Latitude && b.MinPoint.Longitude <= p.Longitude && p.Longitude <= b.MaxPoint.Longitude; }

        // ---- elevation from hgt files ----
        static void Srtm(Ctx c)
        {
            var r = c.R; var w = new World(c, false);
            try
            {
                var p0 = new GeoCoordinate(r.Chance(0.3) ? r.Real(-1, 1) : r.Real(-60, 60), r.Chance(0.3) ? r.Real(-1, 1) : r.Real(-179, 179)); var q = GeoUtils.CreateQuadKey(p0, 16); var b = GeoUtils.QuadKeyToBoundingBox(q); if (Math.Floor(b.MinPoint.Latitude) != Math.Floor(b.MaxPoint.Latitude) || Math.Floor(b.MinPoint.Longitude) != Math.Floor(b.MaxPoint.Longitude)) return;
                var t = w.Request(q, ElevationDataType.Srtm, true); int la = (int)Math.Floor(b.Center().Latitude), lo = (int)Math.Floor(b.Center().Longitude); string cell = World.Cell(la, lo), want = "srtm/" + new[] { "Eurasia", "South_America", "Africa", "North_America", "Australia", "Islands" }[Math.Abs(la * 7 + lo) % 6] + "/" + cell + ".hgt.zip";
                List<string> req; lock (FakeNet.Requests) req = FakeNet.Requests.ToList();
                if (!c.Check(req.Count(x => x == want) == 1 && req.Count(x => x.StartsWith("srtm")) == 1, "srtm-request", () => b + " asks for " + Str.Join(" ", req) + " instead of " + want + "\n" + Str.Join("\n", Silent.Errors))) return;
                if (!c.Check(World.Count(w.Done[0]) == 1, "srtm-not-completed", () => b.ToString() + "\n" + Str.Join("\n", Silent.Errors))) return;
                for (int n = 0; n < 20; ++n)
                {
                    int row = (int)Math.Ceiling((la + 1 - b.MaxPoint.Latitude) * 1200) + r.Below(4), col = (int)Math.Ceiling((b.MinPoint.Longitude - lo) * 1200) + r.Below(4); var p = new GeoCoordinate(la + 1 - row / 1200.0, lo + col / 1200.0); if (p.Latitude < b.MinPoint.Latitude + 1e-9 || p.Longitude > b.MaxPoint.Longitude - 1e-9 || row > 1199 || col > 1199) continue; // samples of the file within the tile
                    double h = w.Library.GetElevation(ElevationDataType.Srtm, q, new GeoCoordinate(p.Latitude + 1e-10, p.Longitude + 1e-10)); c.Check(Math.Abs(h - w.Pixel(cell, row, col)) < 1e-2, "srtm-height", () => cell + " " + row + "," + col + " at " + p + " is " + N(h) + " instead of " + w.Pixel(cell, row, col)); c.Count("srtm_samples");
                }
                foreach (var m in w.Got[0]) m.Variant.Match(e => { c.Check(Math.Abs(e.Heights[0] - w.Library.GetElevation(ElevationDataType.Srtm, q, e.Geometry[0])) < 1e-9, "element-height", () => Show(e)); c.Count("srtm_elements"); }, _ => { });
                w.Request(q, ElevationDataType.Srtm, true); lock (FakeNet.Requests) c.Check(FakeNet.Requests.Count(x => x.StartsWith("srtm")) == 1, "srtm-downloaded-twice", () => b.ToString()); c.Count(la < 0 || lo < 0 ? "srtm_south_or_west" : "srtm_north_east"); c.See(cell + q);
                c.Check(Silent.Errors.Count == 0, "errors", () => Str.Join("\n", Silent.Errors));
            }
            finally { w.Close(); }
        }

        // ---- elements given by the user; the native library has the same tiles ----
        static Element LineAt(Rng r, long id, GeoCoordinate p, QuadKey q)
        {
            var b = GeoUtils.QuadKeyToBoundingBox(q); var v = new List<GeoCoordinate>(); int n = r.Chance(0.3) ? 30 + r.Below(100) : 2 + r.Below(8); double ca = (b.MinPoint.Latitude + b.MaxPoint.Latitude) / 2, co = (b.MinPoint.Longitude + b.MaxPoint.Longitude) / 2;
            for (int i = 0; i < n; ++i) { double k = 0.05 + 0.85 * i / n; v.Add(new GeoCoordinate(p.Latitude + (ca - p.Latitude) * k, p.Longitude + (co - p.Longitude) * k)); }
            var tags = new Dictionary<string, string> { { "line", "l" + id } }; for (int i = r.Below(6); i > 0; --i) tags["key" + i] = "value " + r.Below(1000); return new Element(id, v.ToArray(), new double[n], tags, new Dictionary<string, string>());
        }
        static void Edit(Ctx c)
        {
            var r = c.R; var w = new World(c, false); FakeNet.Handler = _ => { throw new InvalidOperationException("no network"); };
            try
            {
                var editor = w.Root.GetService<IMapDataEditor>(); var library = w.Library;
                for (int n = 0; n < 6; ++n)
                {
                    int lod = 1 + r.Below(16); var p = new GeoCoordinate(r.Real(-84, 84), r.Real(-179.9, 179.9)); var q = GeoUtils.CreateQuadKey(p, lod); var e = new Element(100 + n, new[] { p }, new double[] { 0 }, new Dictionary<string, string> { { "w", "e" + n } }, new Dictionary<string, string>()); bool before = library.Exists(q);
                    if (r.Chance(0.5)) library.AddTo("memory", e, w.Style, new Range<int>(lod, lod), new Tok()); else editor.Add("memory", e, new Range<int>(lod, lod)); c.Check(library.Exists(q), "native-tile", () => p + " at level " + lod + " is not in tile " + q.TileX + "," + q.TileY); c.Count("native_tiles"); c.See(q.ToString());
                    var line = LineAt(r, 200 + n, p, q); if (r.Chance(0.5)) library.AddTo("memory", line, w.Style, new Range<int>(lod, lod), new Tok()); else editor.Add("memory", line, new Range<int>(lod, lod)); int lines = 0;
                    var got = new List<MapData>(); library.Get(new Tile(q, w.Style, new CartesianProjection(p), ElevationDataType.Flat), new List<IObserver<MapData>> { new Obs<MapData>(got.Add) }); int mine = 0; foreach (var m in got) m.Variant.Match(x => { if (x.Id == e.Id) { ++mine; c.Check(x.Geometry.Length == 1 && x.Geometry[0].Latitude == p.Latitude && x.Geometry[0].Longitude == p.Longitude && x.Tags.Count == 1 && x.Tags["w"] == "e" + n, "added-element", () => Show(x) + " instead of " + Show(e)); } if (x.Id == line.Id) { ++lines; c.Check(x.Geometry.Length == line.Geometry.Length && x.Geometry.Select((g, i) => g.Latitude == line.Geometry[i].Latitude && g.Longitude == line.Geometry[i].Longitude).All(same => same) && x.Tags.Count == line.Tags.Count && line.Tags.All(t => x.Tags.ContainsKey(t.Key) && x.Tags[t.Key] == t.Value), "added-line", () => Show(x) + " instead of " + Show(line)); c.Count("added_lines"); } }, _ => { }); c.Check(mine == 1, "added-delivered", () => mine + " times " + Show(e)); c.Check(lines == 1, "added-line-delivered", () => lines + " times " + Show(line));
                }
                c.Check(Silent.Errors.Count == 0, "errors", () => Str.Join("\n", Silent.Errors));
            }
            finally { w.Close(); }
        }

        // ---- meshes, colors, cancelled tiles ----
        static void Meshes(Ctx c)
        {
            var r = c.R; var w = new World(c, false); FakeNet.Handler = _ => { throw new InvalidOperationException("no network"); };
            try
            {
                File.WriteAllText(w.Dir + "/t.txt", "0,100,100\nbackground,0,0,100,100\n"); File.WriteAllText(w.Dir + "/b.mapcss", "@texture url(\"t.txt\");\narea|z16[b] { clip: false; builder: building; building: true; height: eval(\"tag('h')\"); min-height: eval(\"tag('mh')\"); roof-type: flat; roof-height: 0; facade-type: flat; facade-color: gradient(#2040ff); roof-color: gradient(#ff8000); roof-texture-index: 0; roof-texture-type: background; roof-texture-scale: 50; facade-texture-index: 0; facade-texture-type: background; facade-texture-scale: 50; }\nnode|z1-16[w] { builder: place; clip: false; }\n");
                var style = new Stylesheet(w.Dir + "/b.mapcss"); var q = RandomTile(r, 16); var b = GeoUtils.QuadKeyToBoundingBox(q); int n = 1 + r.Below(5); StringBuilder xml = new StringBuilder("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">\n"), ways = new StringBuilder(); var outline = new Dictionary<string, GeoCoordinate[]>(); var tall = new Dictionary<string, double[]>();
                for (int i = 0; i < n; ++i)
                {
                    var at = Inside(r, q.TileX, q.TileY, 16); int k = 3 + r.Below(6), id = 500 + i; double mh = r.Below(3) * 5.17, h = Math.Round(mh + 1 + r.Below(60000) / 1000.0, 3); double size = 0.0001 * (1 + r.Below(5)) * Math.Cos(at.Latitude * Math.PI / 180); var p = new GeoCoordinate[k];
                    for (int j = 0; j < k; ++j) { double t = 2 * Math.PI * j / k; p[j] = new GeoCoordinate(Math.Round(at.Latitude + size * Math.Sin(t), 7), Math.Round(at.Longitude + size * 1.3 * Math.Cos(t), 7)); xml.Append("<node id=\"" + (id * 100 + j) + "\" lat=\"" + N(p[j].Latitude) + "\" lon=\"" + N(p[j].Longitude) + "\"/>\n"); }
                    ways.Append("<way id=\"" + id + "\">"); for (int j = 0; j <= k; ++j) ways.Append("<nd ref=\"" + (id * 100 + j % k) + "\"/>"); ways.Append("<tag k=\"b\" v=\"yes\"/><tag k=\"h\" v=\"" + N(h) + "\"/><tag k=\"mh\" v=\"" + N(mh) + "\"/></way>\n"); outline["building:" + id] = p; tall["building:" + id] = new[] { mh, h };
                }
                File.WriteAllText(w.Dir + "/in.osm.xml", xml.ToString() + ways + "</osm>\n"); w.Store.AddTo("memory", w.Dir + "/in.osm.xml", style, new Range<int>(16, 16), new Tok()).Wait();
                var o = b.Center(); float scale = (float)r.Real(0.1, 3); IProjection proj = r.Chance(0.5) ? (IProjection)new CartesianProjection(o) : new ScaledProjection(new CartesianProjection(o), scale); double ys = proj is ScaledProjection ? scale : 1;
                if (r.Chance(0.3)) { var gone = new Tile(q, style, proj, ElevationDataType.Flat); gone.Dispose(); w.Store.OnNext(gone); w.Wait(() => World.Count(w.Done[0]) > 0); lock (w.Got[0]) c.Check(w.Got[0].Count == 0, "cancelled-tile", () => w.Got[0].Count + " deliveries"); lock (w.Done[0]) w.Done[0].Clear(); c.Count("cancelled_tiles"); }
                var tile = new Tile(q, style, proj, ElevationDataType.Flat); w.Store.OnNext(tile); if (!c.Check(w.Wait(() => World.Count(w.Done[0]) > 0), "not-completed", () => Str.Join("\n", Silent.Errors))) return; var seen = new HashSet<string>(); List<MapData> all; lock (w.Got[0]) all = w.Got[0].Where(x => ReferenceEquals(x.Tile, tile)).ToList();
                foreach (var d in all) d.Variant.Match(e => c.Violation("mesh-element", Show(e)), m =>
                {
                    Func<string> what = () => m.Name + " " + m.Vertices.Length + " vertices"; GeoCoordinate[] p; if (!c.Check(outline.TryGetValue(m.Name, out p) && seen.Add(m.Name), "mesh-name", what)) return; double[] h = tall[m.Name];
                    c.Check(m.Vertices.Length > 0 && m.Colors.Length == m.Vertices.Length && m.Triangles.Length % 3 == 0 && m.Triangles.All(x => x >= 0 && x < m.Vertices.Length), "mesh-shape", what);
                    double far = 0, lo = 1e9, hi = -1e9; var hit = new bool[p.Length]; foreach (var v in m.Vertices) { var g = proj.Project(v); double best = 1e9; for (int j = 0; j < p.Length; ++j) { double dist = Math.Max(Math.Abs(g.Latitude - p[j].Latitude), Math.Abs(g.Longitude - p[j].Longitude)); if (dist < 2e-6) hit[j] = true; best = Math.Min(best, dist); } double y = v.y / ys; lo = Math.Min(lo, y); hi = Math.Max(hi, y); far = Math.Max(far, best); }
                    c.Check(far < 0.001 && hit.All(x => x), "mesh-place", () => what() + " far " + N(far) + " corners " + hit.Count(x => x) + " of " + p.Length); c.Check(Math.Abs(lo - h[0]) < 1e-2 && Math.Abs(hi - h[1]) < 1e-2, "mesh-height", () => what() + " from " + N(lo) + " to " + N(hi) + " instead of " + h[0] + ".." + h[1]);
                    c.Check(m.Colors.All(x => Hue(x, 32, 64, 255) || Hue(x, 255, 128, 0)) && m.Colors.Any(x => Hue(x, 32, 64, 255)) && m.Colors.Any(x => Hue(x, 255, 128, 0)), "mesh-color", () => what() + " " + Str.Join(" ", m.Colors.Select(x => x.r + "," + x.g + "," + x.b + "," + x.a).Distinct())); c.Count("meshes"); c.See(m.Name + m.Vertices[0].x + m.Vertices[0].z);
                });
                c.Check(seen.Count == n, "meshes-missing", () => Str.Join(" ", seen) + " of " + n + "\n" + Str.Join("\n", Silent.Errors));
                for (int i = 0; i < 20; ++i) { uint v = (uint)r.Next(); var k = ColorUtils.FromInt((int)v); c.Check(Hue(k, (int)(v >> 24), (int)(v >> 16 & 255), (int)(v >> 8 & 255)) && Math.Abs(k.a * 255 - (v & 255)) < 0.01, "color", () => v.ToString("x8") + " is " + k.r + "," + k.g + "," + k.b + "," + k.a); var hex = "#" + (v >> 8).ToString(r.Chance(0.5) ? "x6" : "X6"); var kh = ColorUtils.FromUnknown(hex); c.Check(Hue(kh, (int)(v >> 24), (int)(v >> 16 & 255), (int)(v >> 8 & 255)) && kh.a == 1, "color-text", () => hex + " is " + kh.r + "," + kh.g + "," + kh.b); c.Count("colors"); }
                c.Check(Silent.Errors.Count == 0, "errors", () => Str.Join("\n", Silent.Errors));
            }
            finally { w.Close(); }
        }
        static bool Hue(Color k, int r, int g, int b) { return Math.Abs(k.r * 255 - r) < 0.01 && Math.Abs(k.g * 255 - g) < 0.01 && Math.Abs(k.b * 255 - b) < 0.01; }

        // ---- geocoding ----
        // a JSON string in one of its spellings
        static string Written(Rng r, string text, out string shown)
        {
            var b = new StringBuilder(); bool ascii = r.Chance(0.5); foreach (var ch in text) if (ch == '"') b.Append("\\\""); else if (ch == '\\') b.Append("\\\\"); else if (ch == '\n') b.Append("\\n"); else if (ch == '\t') b.Append("\\t"); else if (ch == '/' && r.Chance(0.5)) b.Append("\\/"); else if (ch > 126 && ascii) b.AppendFormat(r.Chance(0.5) ? "\\u{0:x4}" : "\\u{0:X4}", (int)ch); else b.Append(ch);
            shown = text; return b.ToString();
        }
        static void Geocode(Ctx c)
        {
            var r = c.R; FakeNet.Async = false; FakeNet.Requests.Clear(); int n = r.Below(5); if (r.Chance(0.5)) { Thread.CurrentThread.CurrentCulture = new CultureInfo(r.Pick(new[] { "de-DE", "fr-FR", "pt-BR" })); c.Count("comma_culture"); } try {
            var want = new List<string>(); var sb = new StringBuilder("["); Func<double> lat = () => Math.Round(r.Real(-90, 90), 7), lon = () => Math.Round(r.Real(-180, 180), 7); string one = null, oneWant = null;
            for (int i = 0; i < Math.Max(1, n); ++i) { double a = lat(), o = lon(); long id = (long)(r.Next() % 10000000000UL); string shown, name = Written(r, "Place \"" + r.Below(100) + "\" " + r.Pick(new[] { "street", "[a], {b}: c, d", "Stra\u00dfe \u6771\u4eac", "a\\b/c", "tab\there\nline", "x , y" }), out shown); var f = new List<string> { "\"place_id\":\"1\"", "\"osm_id\":" + (r.Chance(0.5) ? "\"" + id + "\"" : id.ToString()), "\"lat\":\"" + N(a) + "\"", "\"lon\":\"" + N(o) + "\"", "\"display_name\":\"" + name + "\"" }; bool boxed = r.Chance(0.8); if (boxed) f.Add("\"boundingbox\":[\"" + N(a - 0.5) + "\",\"" + N(a + 0.25) + "\",\"" + N(o - 1) + "\",\"" + N(o + 2) + "\"]"); if (r.Chance(0.5)) f.Add("\"address\":{\"road\":\"lat\",\"lat\":\"7\",\"osm_id\":\"8\",\"list\":[1,[2,\"}\"],{}]}"); if (r.Chance(0.5)) f.Add("\"extratags\":null"); if (r.Chance(0.5)) f.Add("\"importance\":0.25"); f = f.OrderBy(_ => r.Next()).ToList(); string gap = r.Pick(new[] { "", "", " ", "\n  ", "\r\n\t" });
                string s = "{" + gap + Str.Join("," + gap, f.Select(y => gap == "" ? y : y.Replace("\":\"", "\" : \""))) + gap + "}"; string x = id + " " + N(a) + "," + N(o) + " " + shown + " " + (boxed ? N(a - 0.5) + "," + N(o - 1) + "," + N(a + 0.25) + "," + N(o + 2) : "no box"); if (i == 0) { one = s; oneWant = x; } if (i < n) { sb.Append(i > 0 ? "," : "").Append(s); want.Add(x); } } sb.Append("]");
            FakeNet.Handler = u => Encoding.UTF8.GetBytes(u.Contains("/reverse") ? one : sb.ToString()); var root = new CompositionRoot(new Container(), ConfigBuilder.GetDefault().Build()).RegisterAction((k, _) => k.Register(UtyDepend.Component.For<ITrace>().Use<Silent>())).RegisterAction((k, _) => k.Register(UtyDepend.Component.For<INetworkService>().Use<FakeNet>())).Setup();
            var g = root.GetService<IGeocoder>(); int obs = 1 + r.Below(3); var got = new List<List<string>>(); for (int i = 0; i < obs; ++i) { var l = new List<string>(); got.Add(l); g.Subscribe(new Obs<GeocoderResult>(x => l.Add(x.Element.Id + " " + N(x.Element.Geometry[0].Latitude) + "," + N(x.Element.Geometry[0].Longitude) + " " + x.DisplayName + " " + (x.BoundingBox == null ? "no box" : N(x.BoundingBox.MinPoint.Latitude) + "," + N(x.BoundingBox.MinPoint.Longitude) + "," + N(x.BoundingBox.MaxPoint.Latitude) + "," + N(x.BoundingBox.MaxPoint.Longitude))))); }
            string q = r.Pick(new[] { "Berlin", "Invalidenstra\u00dfe 1 & more", "a b?c=d#e" }); BoundingBox area = null; if (r.Chance(0.6)) { double a = r.Real(-80, 80), o = r.Real(-170, 170); area = new BoundingBox(new GeoCoordinate(a, o), new GeoCoordinate(a + r.Real(0, 3), o + r.Real(0, 3))); c.Count("geocoded_in_box"); } ((IObserver<Tuple<string, BoundingBox>>)g).OnNext(new Tuple<string, BoundingBox>(q, area)); foreach (var l in got) c.Check(l.SequenceEqual(want), "geocode", () => Str.Join("; ", l) + " instead of " + Str.Join("; ", want)); var ps = FakeNet.Requests.Count == 1 ? Params(FakeNet.Requests[0]) : new Dictionary<string, string>(); Func<string, string> par = k => ps.ContainsKey(k) ? ps[k] : ""; c.Check(par("q") == q && par("format") == "json" && (area == null ? !ps.ContainsKey("viewbox") : SameBox(par("viewbox"), area)), "geocode-request", () => area + " " + Str.Join(" ", FakeNet.Requests)); FakeNet.Requests.Clear();
            var at = new GeoCoordinate(lat(), lon()); foreach (var l in got) l.Clear(); ((IObserver<Tuple<GeoCoordinate, float>>)g).OnNext(new Tuple<GeoCoordinate, float>(at, 10)); ps = FakeNet.Requests.Count == 1 ? Params(FakeNet.Requests[0]) : new Dictionary<string, string>(); double pla, plo; c.Check(par("format") == "json" && double.TryParse(par("lat"), NumberStyles.Float, CultureInfo.InvariantCulture, out pla) && double.TryParse(par("lon"), NumberStyles.Float, CultureInfo.InvariantCulture, out plo) && Math.Abs(pla - at.Latitude) < 1e-6 && Math.Abs(plo - at.Longitude) < 1e-6, "reverse-request", () => at + " " + Str.Join(" ", FakeNet.Requests)); foreach (var l in got) c.Check(l.SequenceEqual(new[] { oneWant }), "geocode-reverse", () => Str.Join("; ", l) + " instead of " + oneWant); c.Count("geocoded"); c.See(oneWant);
            root.Dispose();
            } finally { Thread.CurrentThread.CurrentCulture = CultureInfo.InvariantCulture; }
        }
        static Dictionary<string, string> Params(string url) { var d = new Dictionary<string, string>(); foreach (var p in url.Substring(url.IndexOf('?') + 1).Split('&')) { int i = p.IndexOf('='); if (i > 0) d[p.Substring(0, i)] = Uri.UnescapeDataString(p.Substring(i + 1)); } return d; }
        static bool SameBox(string s, BoundingBox b) { var p = s.Split(','); double v; var want = new[] { b.MinPoint.Longitude, b.MinPoint.Latitude, b.MaxPoint.Longitude, b.MaxPoint.Latitude }; if (p.Length != 4) return false; for (int i = 0; i < 4; ++i) if (!double.TryParse(p[i], NumberStyles.Float, CultureInfo.InvariantCulture, out v) || Math.Abs(v - want[i]) > 1e-4) return false; return true; }

        // ---- geocoding by the stored elements ----
        static void Address(Ctx c)
        {
            var r = c.R; var w = new World(c, false); FakeNet.Handler = _ => { throw new InvalidOperationException("no network"); };
            try
            {
                string[] keys = { "addr:country", "addr:city", "addr:suburb", "addr:state", "addr:province", "addr:district", "addr:postcode", "addr:place", "addr:street", "addr:housenumber", "addr:name" };
                var at = new GeoCoordinate(r.Real(-75, 75), r.Real(-179, 179)); double side = r.Real(100, 900), deg = side / 2 / 111320.0; var v = new List<Element>(); var near = new HashSet<long>(); var show = new Dictionary<long, string>(); string street = "strasse" + r.Below(1000), town = "town" + r.Below(1000);
                for (int i = 1 + r.Below(8); i > 0; --i)
                {
                    bool close = r.Chance(0.6); double da = r.Real(-0.8, 0.8), dn = r.Real(-0.8, 0.8); if (!close) { if (r.Chance(0.5)) da = r.Chance(0.5) ? 1.3 : -1.3; else dn = r.Chance(0.5) ? 1.3 : -1.3; }
                    var tags = new Dictionary<string, string> { { "w", "x" } }; var order = keys.OrderBy(_ => r.Next()).ToArray(); foreach (var k in order) if (r.Chance(k == "addr:street" || k == "addr:housenumber" ? 0.7 : 0.3)) tags[k] = k == "addr:street" ? (r.Chance(0.7) ? street : "weg" + i) : k == "addr:housenumber" ? r.Below(200).ToString() : k == "addr:city" ? (r.Chance(0.5) ? town : "ort" + i) : "v" + r.Below(50) + (r.Chance(0.2) ? " \u00fc " + i : "");
                    var e = new Element(1000 + i, new[] { new GeoCoordinate(at.Latitude + da * deg, at.Longitude + dn * deg / Math.Cos(at.Latitude * Math.PI / 180)) }, new double[1], tags, new Dictionary<string, string>()); v.Add(e); if (close) near.Add(e.Id); show[e.Id] = Str.Join(", ", keys.Where(k => tags.ContainsKey(k)).Select(k => tags[k])); w.Library.AddTo("memory", e, w.Style, new Range<int>(16, 16), new Tok());
                }
                var g = new UtyMapGeocoder(w.Store); var got = new List<List<GeocoderResult>>(); for (int i = 1 + r.Below(3); i > 0; --i) { var l = new List<GeocoderResult>(); got.Add(l); g.Subscribe(new Obs<GeocoderResult>(x => { lock (l) l.Add(x); })); }
                for (int k = 0; k < 4; ++k)
                {
                    foreach (var l in got) l.Clear(); bool reverse = r.Chance(0.5); string text = r.Pick(new[] { street, town, street + " " + town, "nothing" }); var terms = text.Split(' '); if (reverse) ((IObserver<Tuple<GeoCoordinate, float>>)g).OnNext(new Tuple<GeoCoordinate, float>(at, (float)side)); else ((IObserver<Tuple<string, BoundingBox>>)g).OnNext(new Tuple<string, BoundingBox>(text, new BoundingBox(new GeoCoordinate(at.Latitude - deg, at.Longitude - deg / Math.Cos(at.Latitude * Math.PI / 180)), new GeoCoordinate(at.Latitude + deg, at.Longitude + deg / Math.Cos(at.Latitude * Math.PI / 180)))));
                    var want = v.Where(e => near.Contains(e.Id) && (reverse ? e.Tags.ContainsKey("addr:street") && e.Tags.ContainsKey("addr:housenumber") : terms.Any(t => e.Tags.Values.Contains(t)))).Select(e => e.Id).OrderBy(x => x).ToList();
                    foreach (var l in got) { c.Check(l.Select(x => x.Element.Id).OrderBy(x => x).SequenceEqual(want), "address-found", () => (reverse ? "at " + at : text) + ": " + Str.Join(" ", l.Select(x => x.Element.Id)) + " instead of " + Str.Join(" ", want) + " of " + Str.Join("; ", v.Select(Show))); foreach (var x in l) { string name; c.Check(show.TryGetValue(x.Element.Id, out name) && x.DisplayName == name, "address-name", () => x.DisplayName + " instead of " + name); c.Count("addresses"); c.See(x.DisplayName); } }
                }
                c.Check(Silent.Errors.Count == 0, "errors", () => Str.Join("\n", Silent.Errors));
            }
            finally { w.Close(); }
        }

        // ---- animations ----
        class Rec : UtyMap.Unity.Animations.TransformAnimation
        {
            public List<float> Times = new List<float>(); public int Ends; public double Left; public string Name; public List<string> Log;
            public Rec(UtyMap.Unity.Animations.Time.ITimeInterpolator i, double dur, bool loop) : base(null, i, TimeSpan.FromSeconds(dur), loop) { Finished += (o, e) => { if (ReferenceEquals(o, this)) ++Ends; if (Log != null) Log.Add(Name); }; }
            protected override void UpdateTransform(Transform t, float time) { Times.Add(time); }
        }
        class Shown : UtyMap.Unity.Animations.Animator
        {
            public UtyMap.Unity.Animations.Animation Next; public List<float> Frames = new List<float>();
            protected override void OnAnimationUpdate(float dt) { Frames.Add(dt); }
            public override void AnimateTo(GeoCoordinate at, float zoom, TimeSpan d, UtyMap.Unity.Animations.Time.ITimeInterpolator i) { SetAnimation(Next); Start(); }
            public void Put(UtyMap.Unity.Animations.Animation a) { SetAnimation(a); }
        }
        static UtyMap.Unity.Animations.Time.ITimeInterpolator TimeKind(Rng r, out string name, out double bend)
        {
            float k = r.Chance(0.5) ? 1 : (float)r.Real(0.6, 4); bend = 0;
            switch (r.Below(4)) { case 0: name = "linear"; return new UtyMap.Unity.Animations.Time.LinearInterpolator(); case 1: name = "accelerate " + k; bend = -1; return k == 1 && r.Chance(0.5) ? new UtyMap.Unity.Animations.Time.AccelerateInterpolator() : new UtyMap.Unity.Animations.Time.AccelerateInterpolator(k); case 2: name = "decelerate " + k; bend = 1; return k == 1 && r.Chance(0.5) ? new UtyMap.Unity.Animations.Time.DecelerateInterpolator() : new UtyMap.Unity.Animations.Time.DecelerateInterpolator(k); default: name = "both"; bend = 2; return new UtyMap.Unity.Animations.Time.AccelerateDecelerateInterpolator(); }
        }
        static float Frame(Rng r, int kind) { return kind == 0 ? (float)r.Real(0.005, 0.05) : kind == 1 ? 0.02f : kind == 2 ? (float)r.Real(0.1, 1.5) : r.Chance(0.1) ? (float)r.Real(0.5, 4) : r.Chance(0.1) ? 0 : (float)r.Real(0.01, 0.2); }
        static double Span(Rng r) { return r.Chance(0.1) ? 0 : Math.Round(r.Chance(0.2) ? r.Real(0.001, 0.05) : r.Real(0.1, 4), 3); }        // a TimeSpan made of seconds has whole milliseconds
        static double Loose(double bend) { return bend == 1 ? 1e-2 : 0; }
        // drives one animation alone: its fractions follow the clock and it ends at the target
        static void Alone(Ctx c)
        {
            var r = c.R; string kind; double bend; var ti = TimeKind(r, out kind, out bend); double dur = Span(r); bool loop = dur > 0 && r.Chance(0.25); var a = new Rec(ti, dur, loop); Func<string> what = () => kind + " of " + N(dur) + " s" + (loop ? " looped " : " ") + Str.Join(" ", a.Times.Skip(Math.Max(0, a.Times.Count - 6)).Select(x => N(x)));
            for (int i = 0; i <= 40; ++i) { float x = i / 40f, y = ti.GetTime(x), z = ti.GetTime(Math.Min(1, x + 0.01f)); c.Check(y >= -1e-5 && y <= 1 + 1e-5 && z >= y - 1e-5 && (i > 0 || Math.Abs(y) < 1e-5) && (i < 40 || Math.Abs(y - 1) < 1e-5) && (bend != 0 || Math.Abs(y - x) < 1e-5), "time-curve", () => kind + " at " + N(x) + " is " + N(y)); if (x > 0.1 && x < 0.9 && Math.Abs(x - 0.5) > 0.05) c.Check(bend == 0 || (bend == 2 ? x < 0.5 ? y < x : y > x : bend < 0 ? y < x : y > x), "time-shape", () => kind + " at " + N(x) + " is " + N(y)); }
            c.Check(!a.IsRunning && a.Times.Count == 0, "animation-early", what); int runs = 1 + r.Below(3), ends = 0;
            for (int run = 0; run < runs; ++run)
            {
                a.Start(); c.Check(a.IsRunning && a.Ends == ends, "animation-not-started", what); int style = r.Below(4); double sum = 0, frac = 0, zero = 0, over = 0, reach = loop ? r.Real(1, 5) * dur : 1e9; bool toZero = true, toRest = true; bool cut = loop || r.Chance(0.2); double stopAt = loop ? reach : cut ? r.Real(0, 1) * dur : 1e9;
                for (int n = 0; n < 3000 && a.IsRunning; ++n)
                {
                    if (sum > stopAt) { a.Stop(); c.Check(!a.IsRunning && a.Ends == ends + 1, "animation-not-stopped", what); a.Stop(); c.Check(a.Ends == ends + 1, "animation-stopped-twice", what); break; }
                    if (r.Chance(0.05)) { a.Start(); c.Check(a.IsRunning, "animation-restarted", what); }
                    float dt = Frame(r, style); if (dur > 20 * dt && n > 200) dt = (float)(dur / 10); int before = a.Times.Count; a.OnUpdate(dt); sum += dt; c.Count("frames");
                    if (!c.Check(a.Times.Count <= before + 1 && a.Times.All(x => x >= -1e-4 && x <= 1 + 1e-4), "animation-beyond", what)) return;
                    if (dur == 0) { c.Check(!a.IsRunning && a.Times.Count == before + 1, "instant-animation", what); break; }
                    frac += dt / dur;
                    if (loop)
                    {   // what follows the end starts at zero or takes what is left of the frame: one of them throughout
                        if (!c.Check(a.IsRunning && a.Times.Count == before + 1, "loop-ended", what)) return; double last = a.Times[a.Times.Count - 1], step = dt / dur; zero += step; over += step; if (zero > 1 + 1e-4) { zero = 0; c.Count("loops"); } else if (zero > 1 - 1e-4) zero = last < 0.5 ? 0 : zero; double o = over - Math.Floor(over); toZero &= Math.Abs(last - ti.GetTime((float)Math.Min(1, zero))) < 5e-3 + Loose(bend); toRest &= Math.Abs(last - ti.GetTime((float)o)) < 5e-3 + Loose(bend) || Math.Min(o, 1 - o) < 1e-3; if (!c.Check(toZero || toRest, "animation-off-clock", () => what() + " at " + N(zero) + " or " + N(o))) return; continue;
                    }
                    if (frac < 1 - 1e-4) c.Check(a.IsRunning && a.Times.Count == before + 1 && Math.Abs(a.Times[a.Times.Count - 1] - ti.GetTime((float)frac)) < 2e-3 + Loose(bend), "animation-off-clock", () => what() + " at " + N(frac) + (a.IsRunning ? "" : " stopped"));
                    else if (frac > 1 + 1e-4) c.Check(!a.IsRunning, "animation-not-ended", what);
                }
                if (!loop && !cut) { c.Check(!a.IsRunning && a.Times.Count > 0 && Math.Abs(a.Times[a.Times.Count - 1] - 1) < 1e-3, "target-not-reached", what); c.Count("targets_reached"); }
                c.Check(!a.IsRunning && a.Ends == ++ends, "animation-end-events", () => what() + " ended " + a.Ends + " times of " + ends);
            }
            c.See(kind + N(dur) + a.Times.Count);
        }
        static UtyMap.Unity.Animations.Animation Group(Rng r, int depth, List<Rec> all, List<KeyValuePair<UtyMap.Unity.Animations.Animation, List<string>>> groups, List<string> log, out double length)
        {
            var v = new List<UtyMap.Unity.Animations.Animation>(); var names = new List<string>(); length = 0;
            for (int n = 1 + r.Below(4); n > 0; --n)
            {
                double len; if (depth > 0 && r.Chance(0.3)) { v.Add(Group(r, depth - 1, all, groups, log, out len)); names.AddRange(groups[groups.Count - 1].Value); }
                else { string kind; double bend; len = Span(r); var a = new Rec(TimeKind(r, out kind, out bend), len, false) { Name = "a" + all.Count, Log = log, Left = len }; all.Add(a); v.Add(a); names.Add(a.Name); }
                length = Math.Max(length, len);
            }
            var g = new UtyMap.Unity.Animations.CompositeAnimation(v); names.Add("g" + groups.Count); string me = names[names.Count - 1]; g.Finished += (o, e) => log.Add(me); groups.Add(new KeyValuePair<UtyMap.Unity.Animations.Animation, List<string>>(g, names)); return g;
        }
        static void Together(Ctx c)
        {
            var r = c.R; var all = new List<Rec>(); var groups = new List<KeyValuePair<UtyMap.Unity.Animations.Animation, List<string>>>(); var log = new List<string>(); double len; var g = Group(r, 2, all, groups, log, out len); Func<string> what = () => N(len) + " s: " + Str.Join(" ", all.Select(x => x.Name + ":" + N(x.Left) + (x.Times.Count > 0 ? "@" + N(x.Times[x.Times.Count - 1]) : ""))) + " ends " + Str.Join(" ", log);
            for (int run = 1 + r.Below(2); run > 0; --run)
            {
                log.Clear(); foreach (var a in all) a.Times.Clear(); g.Start(); c.Check(g.IsRunning && all.All(x => x.IsRunning) && log.Count == 0, "group-not-started", what); int style = r.Below(4); double sum = 0, stopAt = r.Chance(0.3) ? r.Real(0, 1) * len : 1e9; bool cut = false;
                for (int n = 0; n < 4000 && g.IsRunning; ++n)
                {
                    if (sum > stopAt) { cut = true; g.Stop(); break; }
                    float dt = Math.Max(1e-3f, Frame(r, style)); if (n > 300) dt = 0.5f; var counts = all.Select(x => x.Times.Count).ToArray(); var was = all.Select(x => x.IsRunning).ToArray(); g.OnUpdate(dt); sum += dt; c.Count("group_frames");
                    for (int i = 0; i < all.Count; ++i) c.Check(was[i] ? all[i].Times.Count == counts[i] + 1 : all[i].Times.Count == counts[i], "part-updates", () => what() + " part " + i + " after " + N(sum)); // once per frame until it ends
                    for (int i = 0; i < all.Count; ++i) if (Math.Abs(sum - all[i].Left) > 1e-3 * (1 + sum)) c.Check(all[i].IsRunning == sum < all[i].Left && (sum < all[i].Left || Math.Abs(all[i].Times[all[i].Times.Count - 1] - 1) < 1e-3), "part-off-clock", () => what() + " part " + i + " after " + N(sum));
                    if (Math.Abs(sum - len) > 1e-3 * (1 + sum) && sum < len) c.Check(g.IsRunning, "group-ended-early", () => what() + " after " + N(sum)); if (sum > len * 1.001 + 1e-2 + dt) c.Check(!g.IsRunning, "group-not-ended", () => what() + " after " + N(sum));
                }
                c.Check(!g.IsRunning && all.All(x => !x.IsRunning) && groups.All(x => !x.Key.IsRunning), "group-left-running", what);
                c.Check(log.Count == log.Distinct().Count() && log.Count == all.Count + groups.Count, "group-end-events", () => what() + " of " + (all.Count + groups.Count)); if (!cut) { foreach (var x in groups) { int at = log.IndexOf(x.Value[x.Value.Count - 1]); c.Check(x.Value.All(y => log.IndexOf(y) <= at), "group-ended-before-part", what); } c.Count("groups_finished"); } else c.Count("groups_stopped");
                var done = all.Select(x => x.Times.Count).ToArray(); g.Stop(); c.Check(log.Count == all.Count + groups.Count && all.Select(x => x.Times.Count).SequenceEqual(done), "group-stopped-twice", what);
            }
            c.See(what());
        }
        static void Animators(Ctx c)
        {
            var r = c.R; var s = new Shown(); var made = new List<Rec>(); Rec now = null; double passed = 0, bent = 0; UtyMap.Unity.Animations.Time.ITimeInterpolator curve = null; var hist = new List<string>(); Func<string> what = () => Str.Join(" ", hist.Skip(Math.Max(0, hist.Count - 12)));
            for (int n = 0; n < 60; ++n)
            {
                var counts = made.Select(x => x.Times.Count).ToArray(); var ends = made.Select(x => x.Ends).ToArray(); int frames = s.Frames.Count; bool was = now != null && now.IsRunning;
                switch (r.Below(8))
                {
                    case 0: case 1: { string kind; double bend; var old = now; double len = Span(r); curve = TimeKind(r, out kind, out bend); now = new Rec(curve, len, false) { Left = len }; bent = bend; passed = 0; made.Add(now); bool start = r.Chance(0.7); hist.Add(start ? "to" : "put"); if (start) { s.Next = now; s.AnimateTo(new GeoCoordinate(1, 2), 3, TimeSpan.Zero, null); } else s.Put(now); c.Check((old == null || !old.IsRunning && old.Ends == ends[made.IndexOf(old)] + (was ? 1 : 0)) && now.IsRunning == start && s.IsRunningAnimation == start, "animator-switch", what); c.Count("switches"); break; }
                    case 2: s.Cancel(); hist.Add("cancel"); c.Check(!s.IsRunningAnimation && (now == null || !now.IsRunning && now.Ends == ends[made.Count - 1] + (was ? 1 : 0)), "animator-cancel", what); break;
                    case 3: if (!was) passed = 0; s.Start(); hist.Add("start"); c.Check(now == null ? !s.IsRunningAnimation : s.IsRunningAnimation && now.IsRunning, "animator-start", what); break;
                    default:
                        float dt = Frame(r, r.Below(4)); s.Update(dt); hist.Add("update " + N(dt)); c.Count("animator_frames"); c.Check(s.IsRunningAnimation == (now != null && now.IsRunning), "animator-state", what); if (was) { passed += dt; if (passed < now.Left * (1 - 1e-4)) c.Check(now.IsRunning && Math.Abs(now.Times[now.Times.Count - 1] - curve.GetTime((float)(passed / now.Left))) < 2e-3 + Loose(bent), "animator-off-clock", what); else if (passed > now.Left * (1 + 1e-4)) c.Check(!now.IsRunning, "animator-not-ended", what); } c.Check(s.Frames.Count == frames + (was ? 1 : 0) && (!was || s.Frames[frames] == dt), "animator-frame", what);
                        for (int i = 0; i < made.Count; ++i) c.Check(made[i].Times.Count == counts[i] + (was && ReferenceEquals(made[i], now) ? 1 : 0), "animator-updates", () => what() + " animation " + i + " of " + made.Count); break;
                }
                c.Check(made.Count(x => x.IsRunning) <= 1, "animators-two", what);
            }
            c.See(Str.Join(" ", hist));
        }
        static bool Near(Vector3 a, double[] b, double e) { return Math.Abs(a.x - b[0]) < e && Math.Abs(a.y - b[1]) < e && Math.Abs(a.z - b[2]) < e; }
        static void Paths(Ctx c)
        {
            var r = c.R; int n = r.Chance(0.3) ? 2 : r.Chance(0.3) ? 3 : 3 * (1 + r.Below(5)) + 1; double size = r.Pick(new[] { 1.0, 100, 5000 }); var p = new double[n][]; for (int i = 0; i < n; ++i) p[i] = new[] { r.Real(-size, size), r.Real(-size, size), r.Real(-size, size) }; var pts = p.Select(x => new Vector3((float)x[0], (float)x[1], (float)x[2])).ToArray(); UtyMap.Unity.Animations.Path.IPathInterpolator path; if (n == 2) path = new UtyMap.Unity.Animations.Path.LinearInterpolator(pts); else path = new UtyMap.Unity.Animations.Path.SplineInterpolator(pts);
            int pieces = n < 4 ? 1 : n / 3, per = n == 2 ? 1 : n == 3 ? 2 : 3;
            Func<double, double[]> at = t => { t = Math.Max(0, Math.Min(1, t)) * pieces; int k = Math.Min(pieces - 1, (int)t); t -= k; var w = Enumerable.Range(k * per, per + 1).Select(i => (double[])p[i].Clone()).ToArray(); for (int m = per; m > 0; --m) for (int i = 0; i < m; ++i) for (int d = 0; d < 3; ++d) w[i][d] += (w[i + 1][d] - w[i][d]) * t; return w[0]; };
            var values = new List<double> { 0, 1, 0.5, 1e-6, 1 - 1e-6, -0.1, 1.1 }; for (int i = 0; i <= pieces; ++i) values.Add((double)i / pieces); for (int i = 0; i < 30; ++i) values.Add(r.Real(0, 1));
            foreach (var t in values)
            {
                var g = path.GetPoint((float)t); var want = at((float)t); c.Check(Near(g, want, size * 2e-5 * pieces), "path-point", () => n + " points at " + N(t) + ": " + N(g.x) + "," + N(g.y) + "," + N(g.z) + " instead of " + Str.Join(",", want.Select(N))); c.Count("path_points");
                if (t < 0 || t > 1) continue; double lo = Math.Max(0, t - 1e-5), hi = Math.Min(1, t + 1e-5); var u = at(lo); var v = at(hi); double f = (t * pieces) % 1; if (pieces > 1 && (f < 1e-3 || f > 0.999) && t > 1e-3 && t < 0.999) continue; var dv = new[] { v[0] - u[0], v[1] - u[1], v[2] - u[2] }; double l = Math.Sqrt(dv[0] * dv[0] + dv[1] * dv[1] + dv[2] * dv[2]); if (l < 1e-6 * size) continue; for (int i = 0; i < 3; ++i) dv[i] /= l; var di = path.GetDirection((float)t); c.Check(Near(di, dv, 5e-3), "path-direction", () => n + " points at " + N(t) + ": " + N(di.x) + "," + N(di.y) + "," + N(di.z) + " instead of " + Str.Join(",", dv.Select(N))); c.Count("path_directions");
            }
            c.See(Str.Join(" ", p[0].Select(N)) + n);
        }
        static void Anim(Ctx c) { Alone(c); Together(c); Animators(c); Paths(c); }

        static int Main(string[] a)
        {
            // suite out seed from to step scratch corpus
            Thread.CurrentThread.CurrentCulture = CultureInfo.InvariantCulture; Scheduler.MainThread = Scheduler.CurrentThread;
            string suite = a[0]; ulong seed = ulong.Parse(a[2]); var all = new Ctx { Suite = suite };
            for (int i = int.Parse(a[3]); i < int.Parse(a[4]); i += int.Parse(a[5]))
            {
                ulong h = seed * 0x9E3779B97F4A7C15UL + (ulong)i; foreach (var ch in suite) h = (h ^ ch) * 1099511628211UL; all.R = new Rng(h); all.Case = i; all.Dir = a[6] + "/c" + i; Directory.CreateDirectory(all.Dir); all.Count("cases:" + suite);
                try { switch (suite) { case "geo": Geo(all); break; case "ranges": Ranges(all); break; case "inflate": Inflate(all, a[7]); break; case "tiles": Tiles(all); break; case "srtm": Srtm(all); break; case "edit": Edit(all); break; case "geocode": Geocode(all); break; case "meshes": Meshes(all); break; case "anim": Anim(all); break; case "address": Address(all); break; default: throw new Exception("suite"); } }
                catch (Exception e) { all.Violation("exception:" + e.GetType().Name, e.ToString()); }
                try { Directory.Delete(all.Dir, true); } catch (IOException) { }
                File.WriteAllText(a[1], all.Result() + "\n");
            }
            File.WriteAllText(a[1] + ".ok", ""); Console.Out.Flush(); Environment.Exit(0); return 0;
        }
    }
}
