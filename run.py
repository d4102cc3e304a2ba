#!/usr/bin/env python3
"""Builds the harnesses of one property from /repo's working tree, explores, confirms by replay, reports.

usage: run.py ID [--tier quick|thorough] [--replay FILE] [--only-spec NAME]
exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: no answer (build or tool failure)
"""
import hashlib, json, os, re, subprocess, sys, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, LIB_SOURCES_GLOB

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def tree_hash():
    h = hashlib.sha256()
    for base in ("include", "src"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

CXX = "g++"
BASE = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
        "-fno-sanitize=nonnull-attribute,pointer-overflow,float-divide-by-zero,vptr,builtin", "-fno-sanitize-recover=all", "-w", "-pipe",
        "-DSPARROW_USE_DATE_POLYFILL", "-DSPARROW_STATIC_LIB"]

def key_of(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def build(pid, cfg):
    """returns list of (name, binary) or raises RuntimeError"""
    out = os.path.join(HERE, "build"); os.makedirs(out, exist_ok=True)
    th = tree_hash()
    common = b"".join(open(os.path.join(HERE, "harness/common", f), "rb").read() for f in sorted(os.listdir(os.path.join(HERE, "harness/common"))))
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness/common")]
    jobs = {}
    def obj(src, extra, dep):
        k = key_of(open(src, "rb").read(), " ".join(BASE + extra), dep, src)
        o = os.path.join(out, os.path.basename(src).replace(".cpp", "") + "-" + k + ".o")
        jobs[o] = [CXX] + BASE + extra + inc + ["-c", src, "-o", o + ".tmp%d" % os.getpid()]
        return o
    binaries = []
    vpo = obj(os.path.join(HERE, "harness/common/vp.cpp"), [], key_of(common))
    libo = []
    if any(h.get("lib", True) for h in cfg["harness"]):
        import glob
        for s in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
            libo.append(obj(s, [], th))
    for h in cfg["harness"]:
        parts = h.get("parts", [{}])
        for i, p in enumerate(parts):
            xo = [obj(os.path.join(HERE, "harness/common", x), [], key_of(th, common)) for x in h.get("extra", [])]
            o = obj(os.path.join(HERE, "harness", h["src"]), ["-D" + d for d in h.get("defs", []) + p.get("defs", [])], key_of(th, common))
            binaries.append((h["src"].replace(".cpp", "") + ("-%d" % i if len(parts) > 1 else ""), [o, vpo] + xo + (libo if h.get("lib", True) else []), h))
    todo = [o for o in jobs if not os.path.exists(o)]
    # longest first: harnesses, then library files
    todo.sort(key=lambda o: 0 if "/harness/" in jobs[o][-3] and "common" not in jobs[o][-3] else 1)
    def comp(o):
        r = sh(jobs[o])
        if r.returncode == 0: os.replace(jobs[o][-1], o)
        return o, r
    with cf.ThreadPoolExecutor(8) as ex:
        for o, r in ex.map(comp, todo):
            if r.returncode != 0:
                raise RuntimeError("compilation failed: %s\n%s" % (" ".join(jobs[o]), "\n".join([l[:300] for l in r.stdout.splitlines() if "error" in l][:12] or [r.stdout[-3000:]])))
    res = []
    for name, objs, h in binaries:
        b = os.path.join(out, pid + "-" + name + "-" + key_of(*objs))
        if not os.path.exists(b):
            r = sh([CXX, "-fsanitize=address,undefined", "-o", b + ".tmp%d" % os.getpid()] + objs + ["-ldate-tz", "-lpthread"])
            if r.returncode != 0: raise RuntimeError("link failed\n" + r.stdout[-4000:])
            os.replace(b + ".tmp%d" % os.getpid(), b)
        res.append((name, b, h))
    return res

def known_findings(pid):
    fn = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: res.append((m.group(2), m.group(3)))
    return res

def main():
    t0 = time.time()
    a = sys.argv[1:]; pid = a[0]
    if pid == "--setup":
        r = sh([CXX, "--version"]); print(r.stdout.splitlines()[0]); return r.returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--only-spec") + 1] if "--only-spec" in a else None
    cfg = CHECKS[pid]
    try: bins = build(pid, cfg)
    except RuntimeError as e:
        print("NO-ANSWER property=%s: %s" % (pid, e)); return 2
    if "--replay" in a:
        rp = a[a.index("--replay") + 1]
        hn = next((l.split(None, 1)[1].strip() for l in open(rp) if l.startswith("harness ")), None)
        for name, b, h in bins:
            if hn in (None, name): r = sh([b, "--replay", rp], timeout=600); print(r.stdout); return 1 if r.returncode else 0
        return 2
    tb = time.time()
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    cap = cfg.get("cap", {}).get(tier, 300 if tier == "quick" else 780)
    runs, tables = [], []
    for name, b, h in bins:
        tf = os.path.join(HERE, "build", "%s-%s.table" % (pid, name)); tables.append(tf)
        with open(tf, "wb") as f: f.truncate(8 << (23 if tier == "quick" else 26))
        n = h.get("shards", 8)
        for i in range(n): runs.append((name, b, i, n))
    def go(x):
        name, b, i, n = x
        tag = "%s-%s-%d" % (pid, name, i)
        rp, st = os.path.join(rdir, tag + ".replay"), os.path.join(HERE, "build", tag + ".stats.json")
        for f in (rp, st):
            if os.path.exists(f): os.remove(f)
        cmd = [b, "--shard", "%d/%d" % (i, n), "--replay-out", rp, "--stats", st, "--table", os.path.join(HERE, "build", "%s-%s.table" % (pid, name)), "--max-seconds", str(cap)]
        if tier == "thorough": cmd.append("--thorough")
        if only: cmd += ["--spec", only]
        try: r = sh(cmd, timeout=cap + 100)
        except subprocess.TimeoutExpired as e:
            return x, None, rp, None, "timeout"
        stats = json.load(open(st)) if os.path.exists(st) else None
        return x, r.returncode, rp, stats, r.stdout
    viol, broken, tot, specs, covers, capped = [], [], {}, {}, {}, False
    with cf.ThreadPoolExecutor(8) as ex:
        for x, rc, rp, st, outp in ex.map(go, runs):
            name = x[0]
            if rc == 3: 
                with open(rp, "a") as f: f.write("harness %s\n" % name)
                viol.append((name, x[1], rp, outp)); continue
            if rc != 0 or st is None:
                broken.append((name, rc, outp[-3000:] if outp else "")); continue
            capped |= st["capped"]
            for k in ("executions", "completed", "transitions", "states", "pruned", "checks"): tot[k] = tot.get(k, 0) + st[k]
            tot["max_choices"] = max(tot.get("max_choices", 0), st["max_choices"])
            for k, v in st["covers"].items(): covers[k] = covers.get(k, 0) + v
            for k, v in st["specs"].items():
                d = specs.setdefault(name + ":" + k, {"executions": 0, "transitions": 0, "states": 0, "pruned": 0, "completed": 0, "stateful": v["stateful"], "sample": "", "bin": x[1]})
                for q in ("executions", "transitions", "states", "pruned", "completed"): d[q] += v[q]
                if len(v["sample"]) > len(d["sample"]): d["sample"] = v["sample"]
    for tf in tables: os.remove(tf)
    # samples: replay a few explored paths with tracing on
    samples = []
    for k, d in sorted(specs.items()):
        if not d["sample"] or len(samples) >= 6: continue
        tmp = os.path.join(HERE, "build", pid + ".sample.%d" % os.getpid())
        open(tmp, "w").write("spec %s\nthorough %d\nchoices %s\n" % (k.split(":", 1)[1], tier == "thorough", d["sample"]))
        try: r = sh([d["bin"], "--replay", tmp], timeout=60)
        except subprocess.TimeoutExpired: continue
        finally: os.remove(tmp)
        tr = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")]
        samples.append({"program": k, "choices": d["sample"].strip(), "trace": tr[:40]})
    for d in specs.values(): d.pop("bin", None); d.pop("sample", None)
    distinct = sum(d["states"] if d["stateful"] else d["completed"] for d in specs.values())
    kf = known_findings(pid)
    level = cfg.get("level", "model_checking")
    cov = {"states": distinct, "transitions": tot.get("transitions", 0), "traces_validated_against_impl": tot.get("executions", 0),
           "rule": cfg["rule"], "assertions_evaluated": tot.get("checks", 0), "longest_choice_sequence": tot.get("max_choices", 0),
           "paths_cut_by_state_matching": tot.get("pruned", 0), "situations_reached": covers, "explored_programs": specs,
           "samples": samples, "exhaustive": (not capped) and not broken and not viol}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    rc = 0
    if viol:
        viol.sort(key=lambda v: (os.path.getsize(v[2]) if os.path.exists(v[2]) else 1 << 30))
        name, b, rp, outp = viol[0]
        try: r = sh([b, "--replay", rp], timeout=120); conf = "reproduced by replay" if r.returncode != 0 else "NOT reproduced by replay (memory layout dependent)"; trace = r.stdout
        except Exception as e: conf, trace = "replay did not finish", ""
        print("---- first failing execution (%s; %s)" % (name, conf)); ls = (trace or outp).splitlines(); show = [l for l in ls if re.match(r"  [^ 0-9|=#]|VP-FAIL|SUMMARY|.*runtime error", l)] + [l for l in ls if re.match(r" +#\d+ ", l)][:14]
        print("\n".join(l[:400] for l in show))
        print("----")
        ev["coverage"]["failing_replay"] = rp
        print("VIOLATION property=%s replay=%s" % (pid, rp)); rc = 1
    elif broken:
        print("NO-ANSWER property=%s: %s" % (pid, broken[0])); rc = 2
    else:
        miss = [c for c in cfg.get("must_cover", []) if not covers.get(c)]
        if miss: print("NO-ANSWER property=%s: situations never reached: %s" % (pid, miss)); rc = 2
        kf_hit = [k[3:] for k in covers if k.startswith("KF:")]
        for kid, what in kf:
            if kid in kf_hit: print("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, what))
        unl = [k for k in kf_hit if k not in [x[0] for x in kf]]
        if unl and rc == 0:
            rp = os.path.join(rdir, pid + "-finding.txt"); open(rp, "w").write("unlisted finding %s\n" % unl)
            print("VIOLATION property=%s replay=%s" % (pid, rp)); rc = 1
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("property=%s tier=%s states=%d transitions=%d executions=%d assertions=%d capped=%s build=%.1fs total=%.1fs exit=%d" % (
        pid, tier, distinct, tot.get("transitions", 0), tot.get("executions", 0), tot.get("checks", 0), capped, tb - t0, time.time() - t0, rc))
    return rc
sys.exit(main())
