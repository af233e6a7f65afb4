#!/usr/bin/env python3
"""run.py <property> <quick|thorough> [--replay FILE] : build from /repo's working tree and decide one property.

Exit 0 held on everything explored / 1 with a VIOLATION line / 2 error of the check."""
import sys, os, json, hashlib, subprocess, time, tempfile, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS   # noqa: E402

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:20]
def rd(p):
    with open(p, "rb") as f: return f.read()

def compile_all(jobs):
    """jobs: list of (argv, out). Compile those whose output is absent, in parallel."""
    def one(j):
        argv, out = j
        if os.path.exists(out): return None
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(argv + ["-o", tmp])
        if r.returncode: return (argv, r.stdout.decode("utf8", "replace"))
        os.replace(tmp, out); return None
    with ThreadPoolExecutor(8) as ex:
        for e in ex.map(one, jobs):
            if e:
                print("BUILD ERROR: %s\n%s" % (" ".join(e[0]), e[1][-6000:])); sys.exit(2)

def lib_objects(variant):
    v = VARIANTS[variant]
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    hdr = b"".join(rd(p) for p in sorted(glob.glob(REPO + "/src/**/*.hpp", recursive=True) + glob.glob(REPO + "/src/**/*.h", recursive=True)))
    hh = h(hdr)
    jobs, outs = [], []
    for s in srcs:
        flags = ["-std=c++11", "-DHAS_RES_NINIT", "-w", "-I" + REPO, "-I" + REPO + "/src"] + v["lib"]
        key = h(variant, v["cc"], " ".join(flags), hh, rd(s), s)
        out = os.path.join(BUILD, "%s-%s-%s.o" % (variant, os.path.basename(s)[:-4], key))
        jobs.append(([v["cc"]] + flags + ["-c", s], out)); outs.append(out)
    return jobs, outs, hh

def harness_objects(variant, files, repohash, extra):
    v = VARIANTS[variant]
    hdr = b"".join(rd(p) for p in sorted(glob.glob(HERE + "/mc/*.hpp")))
    jobs, outs = [], []
    for f in files:
        p = os.path.join(HERE, "mc", f) if not f.startswith("/") else f
        flags = ["-std=c++17", "-Wall", "-Wno-unused-function", "-Wno-deprecated-declarations", "-DHAS_RES_NINIT", "-I" + HERE + "/mc", "-I" + REPO, "-I" + REPO + "/src"] + (v["harness"] if f != "baton.cpp" else ["-O2", "-g1"]) + extra
        key = h(variant, v["cc"], " ".join(flags), hdr, repohash if f not in ("mc.cpp", "env.cpp") else "", rd(p))
        out = os.path.join(BUILD, "h-%s-%s-%s.o" % (variant, os.path.basename(f).replace(".cpp", ""), key))
        jobs.append(([v["cc"]] + flags + ["-c", p], out)); outs.append(out)
    return jobs, outs

def build(unit):
    """unit: {variant, files, extra?, link?, lib?}; returns the executable path"""
    os.makedirs(BUILD, exist_ok=True)
    variant = unit["variant"]; v = VARIANTS[variant]
    lj, lo, hh = lib_objects(variant)
    hj, ho = harness_objects(variant, unit["files"], hh, unit.get("extra", []))
    compile_all(lj + hj)
    objs = lo + ho if v.get("libfirst") else ho + lo
    exe = os.path.join(BUILD, "x-%s-%s" % (unit["name"], h(" ".join(objs), " ".join(unit.get("link", [])))))
    compile_all([([v["cc"]] + objs + v["link"] + unit.get("link", []) + ["-lssl", "-lcrypto", "-lsodium", "-lresolv", "-lpthread", "-ldl"], exe)])
    return exe

def build_tool(unit, tool):
    """the dkimtool executable with the seams linked in"""
    variant = tool["variant"]; v = VARIANTS[variant]
    lj, lo, hh = lib_objects(variant)
    srcs = sorted(glob.glob(REPO + "/tools/src/*.cpp"))
    jobs, outs = list(lj), []
    for s in srcs:
        flags = ["-std=c++11", "-DHAS_RES_NINIT", "-w", "-I" + REPO, "-I" + REPO + "/src"] + v["lib"]
        out = os.path.join(BUILD, "t-%s-%s.o" % (os.path.basename(s)[:-4], h(variant, " ".join(flags), hh, rd(s))))
        jobs.append(([v["cc"]] + flags + ["-c", s], out)); outs.append(out)
    hj, ho = harness_objects(variant, tool["files"], hh, [])
    compile_all(jobs + hj)
    objs = outs + ho + lo
    exe = os.path.join(BUILD, "x-%s-%s" % (tool["name"], h(" ".join(objs))))
    compile_all([([v["cc"]] + objs + v["link"] + ["-lssl", "-lcrypto", "-lsodium", "-lresolv", "-lpthread", "-ldl"], exe)])
    return exe

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def prune_build():
    """keep the object cache small"""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        if sum(os.path.getsize(f) for f in fs) > 3 << 30:
            for f in sorted(fs, key=os.path.getmtime)[: len(fs) * 2 // 3]: os.unlink(f)
    except OSError: pass

def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        for p, c in CHECKS.items():
            for u in c["units"]:
                build(u)
                if "tool" in u: build_tool(u, u["tool"])
        print("setup: built %d checks" % len(CHECKS)); return 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]; t0 = time.time()
    prune_build()
    known = known_findings(prop)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"), "assumptions": chk.get("assumptions", []), "violations": 0}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "executions": 0, "samples": [], "exhaustive": True, "phases": [], "bounds": chk.get("bounds", "")}
    rc = 0; hit = {}
    total_budget = 3600.0 * 3 if tier == "thorough" else 420.0
    for u in chk["units"]:
        if u.get("tier") == "thorough" and tier != "thorough": continue
        exe = build(u)
        tmp = tempfile.mkdtemp(prefix="mc-%s-" % prop)
        try:
            out = os.path.join(tmp, "out.json")
            cmd = [exe, "--tier", tier, "--out", out, "--replays", os.path.join(HERE, "replays"), "--tmp", tmp, "--budget", str(u.get("budget", {}).get(tier, total_budget)), "--workers", "8"]
            for k, _ in known: cmd += ["--known", k]
            i = 3
            while i < len(sys.argv): cmd.append(os.path.abspath(sys.argv[i]) if sys.argv[i - 1] == "--replay" else sys.argv[i]); i += 1
            env = dict(os.environ, VERIF_TMP=tmp)
            if "tool" in u: env["VERIF_TOOL"] = build_tool(u, u["tool"])
            if "ASAN_OPTIONS" in env: del env["ASAN_OPTIONS"]
            sys.stdout.flush()
            r = subprocess.run(cmd, env=env, cwd=tmp)
            if "--replay" in sys.argv:
                if r.returncode == 2 and u is not chk["units"][-1]: continue
                return r.returncode
            if r.returncode not in (0, 1): print("ERROR: %s exited with %d" % (u["name"], r.returncode)); rc = 2
            if r.returncode == 1: rc = max(rc, 1)
            if os.path.exists(out):
                j = json.load(open(out))
                ev["violations"] += j["violations"]; cov["executions"] += j["executions"]
                for k in j["known"]:
                    e = hit.setdefault(k["key"], [0, k["example"]]); e[0] += k["count"]
                for p in j["phases"]:
                    p["unit"] = u["name"]
                    for f in ("states", "transitions", "traces_validated_against_impl"): cov[f] += p[f]
                    cov["exhaustive"] = cov["exhaustive"] and p["exhaustive"]
                    cov["samples"] += ["%s: %s" % (p["phase"], s) for s in p["samples"][:2]]
                    cov["phases"].append(p)
            elif rc == 0: rc = 2
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if rc: break
    for k, text in known:
        if k in hit: print("KNOWN-FINDING: property=%s key=%s %s (%d executions)" % (prop, k, text, hit[k][0]))
        elif rc == 0: print("note: listed finding %s was not observed in this run" % k)
    cov["known_findings_observed"] = [{"key": k, "executions": v[0], "example": v[1][:400]} for k, v in hit.items()]
    ev["coverage"] = cov; ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if "--phase" not in sys.argv:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: executions=%d states=%d transitions=%d validated=%d exhaustive=%s rc=%d %.1fs" % (prop, tier, cov["executions"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"], rc, time.time() - t0))
    return rc

if __name__ == "__main__": sys.exit(main())
