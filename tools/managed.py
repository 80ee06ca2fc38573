#!/usr/bin/env python3
"""C24, C25: builds the managed client library and its harness with mcs and runs the suites under mono."""
import argparse, json, os, random, re, shutil, subprocess, sys, zipfile, zlib, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

LIB = os.path.join(B.REPO, "unity/library")
SUITES = {"geo": (60, 3000), "ranges": (800, 40000), "inflate": (8, 160), "tiles": (240, 6000), "srtm": (40, 600), "edit": (80, 2000), "geocode": (120, 2000), "meshes": (120, 3000), "address": (80, 2000), "anim": (12000, 300000)}


def compile_all(d, native=True):
    pk = os.path.join(LIB, "packages")
    for f in os.listdir(pk):
        if f.endswith(".dll"):
            shutil.copyfile(os.path.join(pk, f), os.path.join(d, f))
    refs = ["-r:" + os.path.join(d, f) for f in ("UnityEngine.dll", "UnityEditor.dll", "UtyDepend.dll", "UtyRx.dll")] + ["-nostdlib", "-noconfig", "-lib:/usr/lib/mono/2.0-api"] + ["-r:/usr/lib/mono/2.0-api/" + f for f in ("mscorlib.dll", "System.dll", "System.Core.dll")]          # what the projects target
    proj = open(os.path.join(LIB, "UtyMap.Unity/UtyMap.Unity.csproj"), encoding="utf-8-sig").read()
    src = [os.path.join(LIB, "UtyMap.Unity", s.replace("\\", "/")) for s in re.findall(r'Compile Include="([^"]+)"', proj)]
    env = dict(os.environ, LC_ALL="C.UTF-8")
    def mcs(*a):
        r = subprocess.run(["mcs", "-nologo", "-warn:0", "-debug"] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if r.returncode:
            raise SystemExit("mcs failed\n" + r.stdout.decode(errors="replace")[-4000:])
    dll = os.path.join(d, "UtyMap.Unity.dll")
    mcs("-t:library", "-out:" + dll, *refs, *src)
    exe = os.path.join(d, "UtyMap.Unity.Tests.exe")        # the name has access to internals
    mcs("-t:exe", "-out:" + exe, "-r:" + dll, *refs, os.path.join(B.VERIF, "src/managed/Client.cs"))
    if native: B.shared("plain", os.path.join(d, "libUtyMap.Shared.so"))
    return exe


def blob(r):
    k = r.randrange(8); n = r.choice([0, 1, 2, 5, 100, 1000, 5000, 40000, 70000, 200000])
    if k == 0: return bytes(r.getrandbits(8) for _ in range(min(n, 20000)))
    if k == 1: return bytes([r.getrandbits(8)]) * n
    if k == 2: return (" ".join(r.choice(["way", "node", "relation", "building", "42", "\n"]) for _ in range(n // 5)) ).encode()
    if k == 3: return bytes((i * i >> 3) & 255 for i in range(n))
    if k == 4: return struct.pack(">%dh" % (n // 2), *[int(500 + 100 * ((i % 601) / 601.0)) for i in range(n // 2)])
    if k == 5: w = bytes(r.getrandbits(8) for _ in range(r.choice([1, 3, 17, 258, 259, 300]))); return (w * (n // len(w) + 1))[:n]
    if k == 6: w = bytes(r.getrandbits(8) for _ in range(min(n, 30000))); return w + bytes(min(n, 2000)) + w          # matches far away
    return bytes(r.choice(b"abcdefgh") for _ in range(min(n, 30000)))


def deflate(r, data):
    level, wbits, mem, strategy = r.randrange(10), -r.randrange(9, 16), r.randrange(1, 10), r.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FILTERED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED])
    if wbits == -8: wbits = -9
    o = zlib.compressobj(level, zlib.DEFLATED, wbits, mem, strategy); out = b""; i = 0
    while i < len(data):
        k = r.choice([len(data), 10, 1000, 30000]); out += o.compress(data[i:i + k]); i += k
        if r.random() < 0.3: out += o.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
    return out + o.flush()


def archive(r, path):
    names, parts, cent = {}, b"", b""
    os.makedirs(path + ".d")
    for i in range(r.choice([1, 1, 1, 2, 5])):
        data = blob(r); name = "%s%d.%s" % (r.choice(["f", "N52E013", "a_long-name"]), i, r.choice(["hgt", "bin"])); full = (r.choice(["", "", "dir/"]) + name).encode()
        stored = r.random() < 0.15; packed = data if stored else deflate(r, data); extra = os.urandom(0) if r.random() < 0.6 else struct.pack("<HH", 0x5455, 5) + b"\x01abcd"
        h = struct.pack("<HHHHHIII", 20, 0, 0 if stored else 8, 0x6000, 0x4a21, zlib.crc32(data), len(packed), len(data))
        off = len(parts); parts += b"PK\x03\x04" + h + struct.pack("<HH", len(full), len(extra)) + full + extra + packed
        com = b"" if r.random() < 0.7 else b"comment"
        cent += b"PK\x01\x02" + struct.pack("<H", 20) + h + struct.pack("<HHHHHII", len(full), len(extra), len(com), 0, 0, 0, off) + full + extra + com
        names[name] = data; open(path + ".d/" + name, "wb").write(data)
    n = len(names); com = b"" if r.random() < 0.7 else b"the archive's comment " * r.randrange(1, 15)
    end = b"PK\x05\x06" + struct.pack("<HHHHIIH", 0, 0, n, n, len(cent), len(parts), len(com)) + com
    z = parts + cent + end
    if len(z) < 98:
        shutil.rmtree(path + ".d"); return
    open(path, "wb").write(z)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick"); ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--suite", default=""); ap.add_argument("--case", type=int, default=-1)
    a = ap.parse_args()
    os.makedirs(a.out, exist_ok=True)
    work = os.path.join(a.out, "work"); os.makedirs(work)
    exe = compile_all(work, a.suite != "anim")
    corpus = os.path.join(work, "corpus"); os.makedirs(corpus); r = random.Random(a.seed)
    for i in range(0 if a.suite == "anim" else int(400 * a.scale) if a.tier == "quick" else 3000):
        archive(r, os.path.join(corpus, "%04d.zip" % i))
    env = dict(os.environ, LC_ALL="C.UTF-8", MONO_PATH=work, LD_LIBRARY_PATH=work, MONO_ENV_OPTIONS="", MONO_REGISTRY_PATH=os.path.join(work, "reg"), HOME=work, XDG_CONFIG_HOME=work)
    jobs = []; par = max(1, min(8, os.cpu_count() or 1)); bad = []
    for s, (q, t) in SUITES.items():
        if (s not in a.suite.split(",")) if a.suite else s == "anim": continue          # animations have a property of their own
        n = max(1, int((q if a.tier == "quick" else t) * a.scale)); n = max(n, 8) if s == "inflate" else n
        lo, hi = (a.case, a.case + 1) if a.case >= 0 else (0, n)
        for w in range(min(par, hi - lo)):
            jobs.append((s, w, lo + w, hi))
    from concurrent.futures import ThreadPoolExecutor
    def one(j):
        s, w, lo, hi = j; f = os.path.join(a.out, "res.%s.%d.jsonl" % (s, w)); tmp = os.path.join(work, "%s.%d" % (s, w)); os.makedirs(tmp)
        try:
            p = subprocess.run(["mono", "--debug", exe, s, f, str(a.seed), str(lo), str(hi), str(par), tmp, corpus], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400 if a.tier == "quick" else 3000)
            rc, txt = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, txt = "time", (e.stdout or b"").decode(errors="replace")
        if not os.path.exists(f + ".ok"):
            bad.append("%s %d..%d: exit %s\n%s" % (s, lo, hi, rc, txt[-2500:]))
            return
        os.remove(f + ".ok")
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, jobs))
    shutil.rmtree(work, ignore_errors=True)
    if bad:
        # a process that died is an answer: the client must survive its inputs
        with open(os.path.join(a.out, "res.dead.jsonl"), "w") as f:
            f.write(json.dumps(dict(counters={}, distinct=[], samples=[], inconclusive=[], violations=[dict(suite=b.split()[0], case=-1, key="process-died:" + b.split()[0], detail=b) for b in bad])) + "\n")
    open(os.path.join(a.out, "done"), "w").write("complete\n")


if __name__ == "__main__":
    main()
