#!/usr/bin/env python3
"""Builds the code under test (/repo/core) and the drivers of /verif/src, per sanitizer flavour.

Objects are cached by content (ccache, direct+preprocessor mode), so a stale object can
never be picked up whatever the time stamps of the tree are.  Nothing is written to /repo.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "_build")
CORE = os.path.join(REPO, "core")

COMMON = ["-g1", "-fno-omit-frame-pointer", "-w", "-include", "string", "-include", "sstream",
          "-DHAS_BOOST", "-DPBF_SUPPORTED_ENABLED", "-DNDEBUG", "-fPIC", "-DUTYMAP_VERIF_HOOKS"]
FLAVOURS = {
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
             "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS", "-DVERIF_ASAN"],
    "tsan": ["-O1", "-fsanitize=thread", "-DVERIF_TSAN"],
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
}
# third party code is still compiled with address checking, but the well known benign
# arithmetic idioms in it (hash shifts, triangle's pointer tagging) are not judged
THIRD_PARTY_UB_OFF = ["-fno-sanitize=undefined", "-fno-sanitize=float-cast-overflow"]


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(OUT, "ccache")
    e["CCACHE_BASEDIR"] = "/"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_SLOPPINESS"] = "time_macros"
    e["CCACHE_COMPILERCHECK"] = "content"
    e["LC_ALL"] = "C.UTF-8"
    return e


def sources():
    txt = open(os.path.join(CORE, "src/CMakeLists.txt")).read()
    txt = re.sub(r"#.*", "", txt)
    res = []
    for tok in re.findall(r"[^\s()\"]+\.(?:cpp|cc|c)\b", txt):
        p = tok.replace("${LIB_SOURCE}", CORE + "/lib").replace("${MAIN_SOURCE}", CORE + "/src")
        p = p.replace("${CMAKE_CURRENT_SOURCE_DIR}", CORE + "/src").replace("${PROJECT_SOURCE_DIR}", CORE)
        if "$" in p:
            continue
        if not os.path.isabs(p):
            p = os.path.join(CORE, "src", p)
        if p not in res and os.path.exists(p):
            res.append(p)
    return res


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout


def protos():
    d = os.path.join(OUT, "proto")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(CORE, "src/formats/osm/pbf")
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    run(["protoc", "-I", src, "--cpp_out=" + tmp, src + "/fileformat.proto", src + "/osmformat.proto"])
    for f in os.listdir(tmp):
        a, b = os.path.join(tmp, f), os.path.join(d, f)
        if not os.path.exists(b) or open(a, "rb").read() != open(b, "rb").read():
            shutil.copyfile(a, b)
    shutil.rmtree(tmp)
    return d


def compile_one(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    is_c = src.endswith(".c"); own = src.startswith(VERIF + "/src")
    cc = ["ccache", "gcc" if is_c else "g++"]
    if shutil.which("ccache") is None:
        cc = cc[1:]
    fl = list(flags)
    if is_c:
        fl = [f for i, f in enumerate(fl) if not (f == "-include" or (i > 0 and fl[i - 1] == "-include"))]
    else:
        fl = ["-std=c++17" if own else "-std=c++11"] + fl
    run(cc + fl + ["-c", src, "-o", obj])
    return obj


def includes():
    return ["-I" + CORE + "/src", "-I" + CORE + "/lib", "-I" + CORE + "/shared",
            "-I" + os.path.join(OUT, "proto"), "-I" + os.path.join(VERIF, "src")]


def build(flavour, drivers):
    """Builds the given drivers; returns {driver: path}."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        pd = protos()
        flags = COMMON + FLAVOURS[flavour] + includes()
        odir = os.path.join(OUT, flavour, "obj")
        jobs = []
        def oname(p):
            return os.path.join(odir, hashlib.sha1(p.encode()).hexdigest()[:8] + "_" + os.path.basename(p) + ".o")
        lib = []
        for s in sources():
            fl = flags + (THIRD_PARTY_UB_OFF if "/core/lib/" in s else [])
            jobs.append((s, oname(s), fl)); lib.append(oname(s))
        for s in ("fileformat.pb.cc", "osmformat.pb.cc"):
            p = os.path.join(pd, s)
            jobs.append((p, oname(p), flags + THIRD_PARTY_UB_OFF)); lib.append(oname(p))
        shared = os.path.join(CORE, "shared/ExportLib.cpp")
        jobs.append((shared, oname(shared), flags)); lib.append(oname(shared))
        dobj = {}
        for d in drivers:
            p = os.path.join(VERIF, "src", d + ".cpp")
            dobj[d] = oname(p)
            jobs.append((p, dobj[d], flags))
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) if "Parser" not in j[0] else -10**9)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: compile_one(*j), jobs))
        res = {}
        san = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize")]
        def link(d):
            exe = os.path.join(OUT, flavour, d)
            run(["g++"] + san + ["-o", exe + ".tmp", dobj[d]] + lib + ["-lprotobuf", "-lz", "-lpthread"])
            os.replace(exe + ".tmp", exe)
            return d, exe
        with ThreadPoolExecutor(8) as ex:
            for d, exe in ex.map(link, drivers):
                res[d] = exe
        return res


def shared(flavour, path):
    """Links the native client library."""
    build(flavour, [])
    odir = os.path.join(OUT, flavour, "obj")
    def oname(p):
        return os.path.join(odir, hashlib.sha1(p.encode()).hexdigest()[:8] + "_" + os.path.basename(p) + ".o")
    objs = [oname(s) for s in sources()] + [oname(os.path.join(OUT, "proto", s)) for s in ("fileformat.pb.cc", "osmformat.pb.cc")] + [oname(os.path.join(CORE, "shared/ExportLib.cpp"))]
    run(["g++", "-shared", "-o", path] + objs + ["-lprotobuf", "-lz", "-lpthread"])


if __name__ == "__main__":
    for a in sys.argv[1:]:
        fl, ds = a.split(":")
        print(build(fl, [x for x in ds.split(",") if x]))
