#!/usr/bin/env python3
"""Mutation testing of the checks (development aid, not a check).
mutate.py gen  : makes mutants of /repo/src and /repo/tools/src, keeps those that compile and pass the tests -> /tmp/mut/alive.json
mutate.py run [file-substring] : runs the checks in /tmp/vw (a copy of /verif) against each, until one raises an alarm -> /tmp/mut/result.txt"""
import re, os, sys, json, subprocess, glob, hashlib, shutil, time, random
from concurrent.futures import ThreadPoolExecutor
R = "/repo"; M = "/tmp/mut"
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
CH = {"Signatory.cpp": "C21 C01 C24 C04 C02 C14 C27 C16 C26 C28 C15 C29", "Validatory.cpp": "C26 C04 C11 C23 C03 C02 C12 C14 C27 C16 C13 C29", "MailParser.cpp": "C08 C16 C14 C04 C13 C05",
  "Canonicalization.cpp": "C06 C05 C07 C16 C02 C26 C14 C28 C13", "TagList.cpp": "C09 C10 C03 C13", "Util.cpp": "C21 C22 C23 C01 C28 C15 C29", "Base64.cpp": "C17 C15 C13 C29", "Tokenizer.cpp": "C20 C19 C06 C13",
  "Signature.cpp": "C10 C24 C07 C23 C14 C11 C13", "PublicKey.cpp": "C11 C14 C23 C13 C29", "Resolver.cpp": "C12 C13 C23 C29", "SignatoryOptions.cpp": "C22 C21 C01 C27 C14 C29", "EncodedWord.cpp": "C18 C13 C29",
  "QuotedPrintable.cpp": "C17 C18 C10 C13", "main.cpp": "C25", "Validatory.hpp": "C26 C14", "Signature.hpp": "C10 C14", "PublicKey.hpp": "C11 C14 C29", "SignatoryOptions.hpp": "C22 C01 C29", "TagList.hpp": "C09 C10"}
def mutants(path):
    src = open(path, encoding="latin1").read().split("\n"); out = []; inc = False
    for n, l in enumerate(src):
        s = l.strip()
        if "/*" in s: inc = True
        if inc:
            if "*/" in s: inc = False
            continue
        if not s or s.startswith(("//", "#", "using", "* ", "printf(\"[")): continue
        code = l.split("//")[0]
        def add(new, d):
            if new != l: out.append((n, d, new))
        for a, b in ((" == ", " != "), (" != ", " == "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "), (" + 1", ""), (" - 1", ""), (" + 1", " + 2"), ("true", "false"), ("false", "true"),
                     (" += ", " = "), ("++", "--"), ("--", "++"), ("break;", "continue;"), ("continue;", "break;"), (".begin()", ".end()"), ("rbegin", "begin"), ("back()", "front()"), ("front()", "back()"), ("find_last_not_of", "find_first_not_of"), ("rfind", "find"), ("'\\t'", "'\\v'"), ("'\\r'", "'\\v'"), ("!", ""), (".empty()", ".size() == 1"), ("DKIM_A_SHA1", "DKIM_A_SHA256"), ("RELAXED", "SIMPLE")):
            for m in re.finditer(re.escape(a), code):
                if a == "!" and code[m.end():m.end()+1] == "=": continue
                if a == "++" and "for (" in code and ";" in code[:m.start()]: continue
                add(l[:m.start()] + b + l[m.end():], "%s->%s" % (a.strip(), b.strip()))
        for m in re.finditer(r" < (?!<)", code): add(l[:m.start()] + " <= " + l[m.end():], "<-><=")
        for m in re.finditer(r" > ", code): add(l[:m.start()] + " >= " + l[m.end():], ">->>=")
        for m in re.finditer(r"(?<![\w'\"x\\])(\d+)(?![\w'\"])", code):
            v = int(m.group(1)); add(l[:m.start()] + str(v + 1) + l[m.end():], "%d->%d" % (v, v + 1))
            if v > 1: add(l[:m.start()] + str(v - 1) + l[m.end():], "%d->%d" % (v, v - 1))
        for m in re.finditer(r"'(\\x[0-9A-Fa-f]{2}|[^\\'])'", code):
            c = m.group(1); v = int(c[2:], 16) if c[0] == "\\" else ord(c)
            add(l[:m.start()] + "'\\x%02x'" % ((v + 1) & 127) + l[m.end():], "chr %s+1" % c)
        for m in re.finditer(r'"([^"\\]+)"', code):
            t = m.group(1)
            if len(t) < 16 and "%" not in t and "Format" not in code: add(l[:m.start()] + '"' + t[:-1] + '"' + l[m.end():], 'str "%s" short' % t)
            if len(t) < 16 and "%" not in t and t.lower() != t.upper(): add(l[:m.start()] + '"' + t.swapcase() + '"' + l[m.end():], 'str "%s" case' % t)
        # drop a conjunct/disjunct on one line
        m = re.match(r"^(\s*(?:else )?if \()(.*)(\)\s*)$", code)
        if m:
            add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate if"); add(m.group(1) + "false" + m.group(3), "if false"); add(m.group(1) + "true" + m.group(3), "if true")
            for op in (" && ", " || "):
                ps = m.group(2).split(op)
                if len(ps) > 1:
                    for i in range(len(ps)):
                        add(m.group(1) + op.join(ps[:i] + ps[i+1:]) + m.group(3), "drop %s" % ps[i].strip())
        if s.endswith(";") and not s.startswith(("return", "std::", "size_t", "bool", "int ", "}", "unsigned", "case", "const", "RSA*", "BIO", "EVP_PKEY*", "auto", "TagList", "char", "time_t", "string", "break", "continue", "throw", "typedef", "DKIM::TagList", "private", "public", "class", "struct", "enum", "static", "extern", "virtual", "void")) and s.count("(") == s.count(")"):
            add(re.match(r"\s*", l).group(0) + ";", "delete: " + s[:50])
        if s.startswith("throw") and s.endswith(";"): add(re.match(r"\s*", l).group(0) + ";", "delete: " + s[:60])
    return src, out
def gen():
    os.makedirs(M, exist_ok=True)
    o = M + "/obj"; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    srcs = sorted(glob.glob(R + "/src/*.cpp")); tests = sorted(glob.glob(R + "/tests/src/**/*Test.cpp", recursive=True))
    base = ["g++", "-std=c++11", "-O1", "-w", "-DHAS_RES_NINIT", "-I" + R, "-I" + R + "/src", "-c"]
    jobs = [base + [s, "-o", o + "/" + os.path.basename(s) + ".o"] for s in srcs + tests + ["/opt/vp/case_main.cpp"]]
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(sh, jobs): assert r.returncode == 0, r.stdout
    to = [o + "/" + os.path.basename(t) + ".o" for t in tests] + [o + "/case_main.cpp.o"]
    suites = [os.path.basename(t).split(".")[0] for t in tests]
    stable = json.load(open("/opt/vp/BASELINE.json")); stable = stable.get("passed") or stable.get("stable") or stable
    libs = ["-lcppunit", "-lssl", "-lcrypto", "-lsodium", "-lresolv"]
    all_m = []
    for s in srcs + [R + "/tools/src/main.cpp"]:
        src, ms = mutants(s); seen = set()
        for n, d, new in ms:
            t = "\n".join(src[:n] + [new] + src[n+1:])
            k = hashlib.sha256(t.encode("latin1")).hexdigest()[:12]
            if k in seen: continue
            seen.add(k); all_m.append({"f": os.path.relpath(s, R), "n": n + 1, "d": d, "old": src[n].strip(), "new": new.strip(), "k": k, "text": t})
    print(len(all_m), "mutants"); sys.stdout.flush()
    exe0 = M + "/base"; r = sh(["g++", "-o", exe0] + [o + "/" + os.path.basename(s) + ".o" for s in srcs] + to + libs); assert r.returncode == 0, r.stdout
    names = [x for x in sh([exe0, "list"] + suites, cwd=R).stdout.decode().split("\n") if x]
    good = [x for x in names if sh([exe0, "run", x] + suites, cwd=R + "/tests").returncode == 0]; print(len(good), "tests")
    def one(m):
        d = M + "/w/" + m["k"]; os.makedirs(d, exist_ok=True)
        try:
            p = d + "/" + os.path.basename(m["f"]); open(p, "w", encoding="latin1").write(m["text"])
            if sh(["timeout", "60"] + base + ["-I" + R + "/" + os.path.dirname(m["f"]), p, "-o", d + "/m.o"]).returncode: return None
            if m["f"].startswith("tools"): return m
            if sh(["g++", "-o", d + "/x", d + "/m.o"] + [o + "/" + os.path.basename(s) + ".o" for s in srcs if os.path.basename(s) != os.path.basename(m["f"])] + to + libs).returncode: return None
            for x in good:
                if sh(["timeout", "5", d + "/x", "run", x] + suites, cwd=R + "/tests").returncode: return None
            return m
        finally: shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex: alive = [m for m in ex.map(one, all_m) if m]
    json.dump(alive, open(M + "/alive.json", "w")); print(len(alive), "compile and pass the tests")
def run(filt):
    alive = json.load(open(M + "/alive.json")); W = M + "/repo"; shutil.rmtree(W, ignore_errors=True); shutil.copytree(R, W, symlinks=True, ignore=shutil.ignore_patterns(".git", "_build"))
    done = set(l.split()[0] for l in open(M + "/result.txt")) if os.path.exists(M + "/result.txt") else set()
    random.Random(5).shuffle(alive)
    log = open(M + "/result.txt", "a")
    for m in alive:
        if m["k"] in done or (filt and filt not in m["f"]): continue
        open(W + "/" + m["f"], "w", encoding="latin1").write(m["text"]); got = None; t0 = time.time()
        try:
            for c in CH[os.path.basename(m["f"])].split():
                if os.environ.get("SKIP") and c in os.environ["SKIP"]: continue
                try: r = subprocess.run(["timeout", "-k", "5", "600", "python3", "run.py", c, "quick"], cwd="/tmp/vw", env=dict(os.environ, VERIF_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                except Exception as e: got = "ERR"; break
                if r.returncode == 1: got = c; break
                if r.returncode != 0: got = "rc%d:%s" % (r.returncode, c); break
        finally: shutil.copy(R + "/" + m["f"], W + "/" + m["f"])
        log.write("%s %-9s %s:%d %s | %s | %s  %.0fs\n" % (m["k"], got or "SURVIVED", m["f"], m["n"], m["d"], m["old"], m["new"], time.time() - t0)); log.flush()
if sys.argv[1] == "gen": gen()
else: run(sys.argv[2] if len(sys.argv) > 2 else "")
