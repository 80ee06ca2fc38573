#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]

Builds the drivers of the property from /repo's working tree, runs them, and judges what the
monitors recorded.  Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def san_key(log):
    """A stable key for a sanitizer report / signal: kind and first function of the code under test."""
    kind = "signal"
    m = re.search(r"(AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([\w-]+)", log)
    if m:
        kind = m.group(2)
    else:
        m = re.search(r"runtime error: ([^\n]*)", log)
        if m:
            kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|[-+0-9.e]+", "", m.group(1).lower()))[:50].strip("-")
        elif "Assertion" in log:
            kind = "assert"
        elif "terminate called" in log:
            kind = "terminate"
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S*/\S+?):\d+", log):
        if "/core/src/" in m.group(2) or "/core/shared/" in m.group(2) or "/core/lib/" in m.group(2):
            fn = m.group(1)
            break
    fn = re.sub(r"\(.*", "", fn)
    fn = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", fn)).split("::")[-1]
    fn = re.sub(r"\W+", "_", fn)
    return "crash:%s:%s" % (kind, fn)


def run_env(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=6000:max_allocation_size_mb=3000:"
                         "handle_abort=1:detect_stack_use_after_return=0:check_initialization_order=1:malloc_context_size=12")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["LC_ALL"] = "C"
    e.update(extra or {})
    return e


def tsan_reports(outdir):
    res = {}
    for f in glob.glob(outdir + "/tsan.*"):
        txt = open(f, errors="replace").read()
        for blk in txt.split("==================\n"):
            m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
            if not m:
                continue
            kind = m.group(1).strip().replace(" ", "-")
            fns = []
            # first frame of the code under test in each of the two stacks
            for part in re.split(r"\n\s*\n", blk)[:3]:
                for mm in re.finditer(r"#\d+ (.+?) (\S*/\S+?):\d+", part):
                    if "/core/src/" in mm.group(2) or "/core/shared/" in mm.group(2) or "/core/lib/" in mm.group(2):
                        f2 = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"\(.*", "", mm.group(1))))
                        fns.append("::".join(f2.split("::")[-2:]))
                        break
            key = "race:%s:%s" % (kind, "|".join(sorted(set(fns))))
            key = re.sub(r"[^\w:|~-]+", "_", key)
            res.setdefault(key, blk[:6000])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, cfg = a.prop, CHECKS[a.prop]
    t0 = time.time()
    base = os.path.join(B.OUT, "run", "%s.%d" % (pid, os.getpid()))
    replaydir = os.path.join(B.OUT, "replay", pid)
    shutil.rmtree(replaydir, ignore_errors=True)
    os.makedirs(replaydir)
    violations, inconclusive, counters, distinct, samples = [], [], {}, set(), []
    errors = []
    runs = [r for r in cfg["runs"]]
    try:
        for n, r in enumerate(runs):
            flavour, driver, args = r["flavour"], r["driver"], list(r.get("args", []))
            if flavour == "script":
                out = os.path.join(base, str(n)); os.makedirs(out)
                rc = subprocess.run([sys.executable, os.path.join(VERIF, "tools", driver), "--out", out, "--seed", str(a.seed), "--tier", a.tier, "--scale", str(a.scale)] + args,
                                    env=run_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=cfg.get("timeout", 3000))
                cmd = "python3 %s/tools/%s --out OUT --seed %d --tier %s" % (VERIF, driver, a.seed, a.tier)
                if rc.returncode != 0 or not os.path.exists(out + "/done"):
                    errors.append("%s: exit %d\n%s" % (driver, rc.returncode, rc.stdout.decode(errors="replace")[-3000:]))
                env2 = run_env()
            else:
                exe = B.build(flavour, [driver])[driver]
                out = os.path.join(base, str(n)); os.makedirs(out)
                env2 = run_env(r.get("env"))
                if flavour == "tsan":
                    env2["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:log_path=%s/tsan:history_size=5:second_deadlock_stack=1" % out
                cmdv = [exe, "--out", out, "--seed", str(a.seed), "--tier", a.tier, "--scale", str(a.scale)] + args
                # address space layouts TSan cannot handle are avoided
                if flavour == "tsan":
                    cmdv = ["setarch", os.uname().machine, "-R"] + cmdv if subprocess.run(["setarch", os.uname().machine, "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0 else cmdv
                rc = subprocess.run(cmdv, env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                cmd = " ".join([exe, "--out", "/tmp/replay-out", "--seed", str(a.seed), "--tier", a.tier] + args)
                if rc.returncode != 0 or not os.path.exists(out + "/done"):
                    errors.append("driver %s: exit %d\n%s" % (driver, rc.returncode, rc.stdout.decode(errors="replace")[-3000:]))
            for f in glob.glob(out + "/res.*.jsonl"):
                for l in open(f):
                    d = json.loads(l)
                    for k, v in d["counters"].items():
                        counters[k] = counters.get(k, 0) + v
                    distinct.update(d["distinct"])
                    for s in d["samples"]:
                        if len(samples) < 12 and s not in samples:
                            samples.append(s)
                    inconclusive += d["inconclusive"]
                    for v in d["violations"]:
                        v["cmd"] = cmd; v["flavour"] = flavour
                        violations.append(v)
            if os.path.exists(out + "/crashes.jsonl"):
                for l in open(out + "/crashes.jsonl"):
                    d = json.loads(l)
                    one = [exe, "--out", out + "/again", "--seed", str(a.seed), "--tier", a.tier] + args + ["--suite", d["suite"], "--case", str(d["case"])]
                    hang = d["kind"] == "hang"
                    killed = (not hang) and (d["status"] & 0x7f) == 9
                    if hang or killed:
                        try:
                            rr = subprocess.run(one, env=env2, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=240)
                            if rr.returncode in (0, 1):
                                inconclusive.append("%s %s#%d did not repeat" % (d["kind"], d["suite"], d["case"]))
                                continue
                            d["log"] = rr.stderr.decode(errors="replace")
                            key = san_key(d["log"])
                        except subprocess.TimeoutExpired:
                            key = "hang:" + d["suite"]
                    else:
                        key = san_key(d["log"])
                    violations.append(dict(suite=d["suite"], case=d["case"], key=key, detail=d["log"], cmd=cmd, flavour=flavour))
            if flavour == "tsan":
                for key, blk in tsan_reports(out).items():
                    violations.append(dict(suite="tsan", case=-1, key=key, detail=blk, cmd=cmd, flavour=flavour))
    except Exception as e:
        errors.append("%s: %s" % (type(e).__name__, e))
    finally:
        if not a.keep:
            shutil.rmtree(base, ignore_errors=True)

    # group by key; the first case of a key is its witness
    groups = {}
    for v in violations:
        groups.setdefault(v["key"], []).append(v)
    known = known_findings(pid)
    bad = 0
    seen_known = set()
    for key, vs in sorted(groups.items()):
        kf = [k for k in known if re.fullmatch(k[0], key)]
        if kf:
            for k in kf:
                seen_known.add(k)
            continue
        bad += 1
        path = os.path.join(replaydir, "%d.txt" % bad)
        with open(path, "w") as f:
            v = vs[0]
            f.write("property %s\nkey %s (%d cases)\nsuite %s case %s\nreplay: %s --suite %s --case %s\n\n%s\n" %
                    (pid, key, len(vs), v["suite"], v["case"], v["cmd"], v["suite"], v["case"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key=%s cases=%d first: suite=%s case=%s" % (key, len(vs), v["suite"], v["case"]))
    for k in known:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
        else:
            print("note: listed finding not observed in this run: %s" % (k[1],))
    evals = sum(v for k, v in counters.items() if k.startswith("cases:"))
    missing = [c for c in cfg.get("require", []) if counters.get(c, 0) == 0]
    wall = time.time() - t0
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=cfg.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=cfg["rule"], samples=samples[:6],
                            observed={k: v for k, v in sorted(counters.items())}, inconclusive=inconclusive[:20],
                            runs=[dict(flavour=r["flavour"], driver=r["driver"]) for r in runs]),
              assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=bad)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, tmp[:-4])
    print("%s tier=%s seed=%d: %d cases, %d distinct, %d inconclusive, %d violation keys, %.1fs" %
          (pid, a.tier, a.seed, evals, len(distinct), len(inconclusive), bad, wall))
    if bad:
        return 1
    if errors:
        print("ERROR: no answer\n" + "\n".join(errors)[-6000:])
        return 2
    if missing or evals == 0 or len(distinct) == 0:
        print("ERROR: the monitors observed nothing for: %s" % (missing or "everything"))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
