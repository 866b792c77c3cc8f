#!/usr/bin/env python3
"""Decide one property of SuRF on /repo's current working tree.

  check.py PROPERTY [--tier quick|thorough] [--repo DIR]

1. translate the C++ (clang AST) to Verus text, mechanically, and attach the contracts;
2. let Verus discharge every obligation of the modules the property's functions live in;
3. vacuity guard: the same text with `assert(false)` at every exit must fail (quick: in the root functions, thorough: in every function of the closure);
4. run the bounded differential search on the real code (compiled from /repo with ASan/UBSan);
5. report: exit 0, or exit 1 with a VIOLATION line; write evidence/<id>.json.
"""
import argparse, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "extract"))
sys.path.insert(0, HERE)
import translate as T
import cxxast, frames
import props as PR

CXX = ["g++", "-std=c++14", "-O1", "-g1", "-mpopcnt", "-msse4.2", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all", "-w", "-UNDEBUG"]
TSAN = ["clang++", "-std=c++14", "-O1", "-g1", "-mpopcnt", "-msse4.2", "-fsanitize=thread", "-w", "-UNDEBUG"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1",
           TSAN_OPTIONS="halt_on_error=1:second_deadlock_stack=0")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- the real code, executed
class Driver:
    def __init__(self, repo, work, threads=False):
        self.repo, self.work = repo, work
        self.cxx = TSAN if threads else CXX
        self.exe = os.path.join(work, "driver")
        self.err = None
        self.t = threading.Thread(target=self.build)
        self.t.start()

    def build(self):
        def one(src, inc, obj, res):
            p = sh(self.cxx + ["-I" + os.path.join(self.repo, inc), "-I" + os.path.join(HERE, "replay"), "-c",
                          os.path.join(HERE, "replay", src), "-o", obj])
            res.append(None if p.returncode == 0 else p.stderr[-3000:])
        objs = [os.path.join(self.work, n) for n in ("driver.o", "bloom.o")]
        r = [[], []]
        ts = [threading.Thread(target=one, args=("driver.cpp", "include", objs[0], r[0])),
              threading.Thread(target=one, args=("bloom.cpp", "bench", objs[1], r[1]))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for x in r:
            if x[0]:
                self.err = x[0]
                return
        p = sh(self.cxx + objs + ["-lpthread", "-o", self.exe])
        if p.returncode:
            self.err = p.stderr[-3000:]

    def run(self, prop, secs, seed, nproc, out):
        self.t.join()
        if self.err:
            return {"error": self.err, "cases": 0, "evals": 0, "fail": None}
        try:
            p = sh([self.exe, prop, str(secs), str(seed), str(nproc), out], env=ENV, timeout=secs + 300)
        except subprocess.TimeoutExpired:
            return {"error": "search did not end", "cases": 0, "evals": 0, "fail": None}
        r = {"error": None, "cases": 0, "evals": 0, "fail": None}
        m = re.search(r"CASES (\d+) EVALS (\d+)", p.stdout)
        if m:
            r["cases"], r["evals"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"FAILING-CASE (\d+) (.*)", p.stdout, re.S)
        if m:
            r["fail"] = (int(m.group(1)), m.group(2).strip())
            r["stderr"] = p.stderr[-6000:]
        elif not r["cases"] or p.returncode != 0:
            r["error"] = "search ended with %d: %s" % (p.returncode, (p.stdout + p.stderr)[-800:])
        return r

    def sample(self, prop, seed):
        try:
            p = sh([self.exe, prop, "--case", str(seed)], env=ENV, timeout=60)
            return p.stdout.strip()[:400]
        except Exception as e:
            return str(e)[:200]


# ---------------------------------------------------------------- the proof
class Proof:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        self.ast = cxxast.dump(repo)
        self.drop = set()
        self.skip = set()        # files of contracts/ left out
        self.undecided = []      # (function, reason)

    def translate(self, name):
        f = os.path.join(self.work, name)
        m = T.translate(self.repo, os.path.join(HERE, "contracts"), f, drop=self.drop, ast_text=self.ast, skip=self.skip)
        return f, m

    def verus(self, gen, mods, extra=(), timeout=700, multi="4"):
        cmd = ["verus", gen, "--crate-type=bin", "--output-json", "--time-expanded", "--multiple-errors", multi,
               "--num-threads", "8"]
        for x in mods:
            cmd += ["--verify-module", x]
        cmd += list(extra)
        t = time.time()
        try:
            p = sh(cmd, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"cmd": cmd, "timeout": True, "json": None, "err": "", "wall": time.time() - t}
        i = p.stdout.find("{")
        try:
            j = json.loads(p.stdout[i:]) if i >= 0 else None
        except ValueError:
            j = None
        return {"cmd": cmd, "json": j, "err": p.stderr, "rc": p.returncode, "wall": time.time() - t, "timeout": False}

    def closure(self, meta, roots):
        seen, todo = set(), [r for r in roots if r in meta["functions"]]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for c in meta["functions"][k]["calls"]:
                if c in meta["functions"]:
                    todo.append(c)
        return seen


def parse_errors(err):
    """rustc-style blocks: [(kind, message, [lines], text)]"""
    blocks = re.split(r"\n(?=error|warning|note: )", "\n" + err)
    res = []
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n", 1)[0]
        if head.startswith("error: aborting"):
            continue
        lines = [int(x) for x in re.findall(r"gen\w*\.rs:(\d+):", b)]
        more = [int(x) for x in re.findall(r"^\s*(\d+) \|", b, re.M)]
        res.append((head, lines, more, b))
    return res


VERIF_MSG = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
             "possible ", "not all errors", "decreases not satisfied", "possible division", "recommendation", "loop invariant",
             "cannot show", "index", "unable to prove", "precondition")


def is_verif_error(head):
    h = head.lower()
    if re.match(r"error\[e\d+\]", h):
        return False
    return any(m in h for m in VERIF_MSG) or "rlimit" in h or "resource limit" in h or "not satisfied" in h


def fn_at(meta, line):
    for k, f in meta["functions"].items():
        if "out_start" in f and f["out_start"] <= line <= f["out_end"]:
            return k
    return None


def lib_at(meta, line):
    best = None
    for k, a in meta["libs"].items():
        if a <= line and line < min([f["out_start"] for f in meta["functions"].values() if "out_start" in f] or [1 << 30]):
            if best is None or a > meta["libs"][best]:
                best = k
    return best


def restructured(f):
    """is the function built differently enough for its proof text not to fit?"""
    a, b = f.get("base_shape"), f.get("shape")
    if a is None or a == b:
        return False
    key = lambda s: [x for x in s.split() if x in ("for", "while", "do", "range", "decl", "switch")]
    return key(a) != key(b) or bool(f["anchored"])


CLIENTS = {"clients", "clients_bloom", "clients_threads"}     # compositions of public functions, checked for the properties that name them
PROOF_SECS = 560     # a check has 900 s in all


def owner_of(meta, e):
    """the function (or library module) an error belongs to"""
    head, lines, more, text = e
    for ln in lines + more:
        k = fn_at(meta, ln)
        if k:
            return k
    for ln in lines[:1]:
        return lib_at(meta, ln)
    return None


def prove(prop, cfg, repo, work, log, search=None):
    """-> dict: verified, failed {fn: [text]}, undecided [(fn, why)], fns, ..."""
    R = {"verified": 0, "errors": 0, "failed": {}, "undecided": [], "fns": [], "uncontracted": [], "smt_ms": 0,
         "cmd": "", "vacuity": None, "wall": 0.0, "ok": False, "trusted": [], "notes": [], "reruns": 0}
    if not cfg["roots"]:
        return R
    t0 = time.time()
    end = t0 + PROOF_SECS
    try:
        P = Proof(repo, work)
    except cxxast.ExtractError as e:
        R["undecided"].append(("(extraction)", str(e)[:400]))
        return R
    if cfg.get("threads"):
        bad, R["framed"] = frames.Frames(cxxast.load(P.ast)).check(cfg["roots"])
        R["frame"] = {k: ["frame: only arguments, the receiver and locals are written: " + x for x in v] for k, v in bad.items()}
        R["failed"].update(R["frame"])
    res = meta = None
    P.skip |= CLIENTS - {cfg.get("clients")}
    for attempt in range(5):
        try:
            gen, meta = P.translate("gen.rs")
        except Exception as e:
            R["undecided"].append(("(translation)", repr(e)[:400]))
            return R
        roots = [r for r in cfg["roots"]]
        for r in roots:
            if r not in meta["functions"]:
                R["undecided"].append((r, "the function is gone or has another signature"))
        fns = P.closure(meta, roots)
        mods = sorted({meta["functions"][k]["module"] for k in fns})
        libs = sorted(meta["libs"])
        res = P.verus(gen, mods + libs, timeout=max(60, end - time.time()))
        if res["timeout"]:
            R["undecided"].append(("(all)", "verifier did not end in time"))
            return R
        rejected = [e for e in parse_errors(res["err"]) if not is_verif_error(e[0])]
        if res["json"] and res["json"].get("verification-results", {}).get("verified") is not None \
                and not res["json"]["verification-results"].get("encountered-vir-error") and not rejected:
            break
        # the front end rejects something: drop the functions it names and try again
        bad = set()
        for (head, lines, more, text) in rejected:
            for ln in lines[:1]:
                k = fn_at(meta, ln)
                if k:
                    bad.add(k)
                elif lib_at(meta, ln) in CLIENTS - P.skip:
                    bad.add(lib_at(meta, ln))
        bad -= P.drop
        log.append(res["err"][-3000:])
        if not bad:
            R["undecided"].append(("(front end)", res["err"][-500:]))
            return R
        P.drop |= bad
        P.skip |= bad & CLIENTS
        for k in bad:
            R["undecided"].append((k, "rejected by the verifier front end"))
    else:
        R["undecided"].append(("(front end)", "too many rejections"))
        return R
    vr = res["json"]["verification-results"]
    R["cmd"] = " ".join(a.replace(work, "build/" + prop) for a in res["cmd"])
    errs = parse_errors(res["err"])
    R["verified"], R["errors"] = vr["verified"], vr["errors"]
    # what failed or ran out of resources gets two more runs, with more resources and another solver seed;
    # a function that passes one of them is proved
    # (no need for them when the real code has been seen to fail)
    for seed in (11, 23):
        if not errs or (search and search()["fail"]):
            break
        owner = {}
        for e in errs:
            k = owner_of(meta, e)
            if k is not None and is_verif_error(e[0]):
                owner.setdefault(k, []).append(e)
        again = {k for k in owner if k in meta["functions"] or k in meta["libs"]}
        if not again or time.time() > end - 30:
            break
        m2 = sorted({meta["functions"][k]["module"] if k in meta["functions"] else k for k in again})
        extra = ["--rlimit", "60", "--smt-option", "smt.random_seed=%d" % seed]
        r2 = P.verus(gen, m2, extra=extra, timeout=max(30, min(250, end - time.time())))
        R["reruns"] += 1
        if r2["timeout"] or not r2["json"]:
            break
        errs2 = parse_errors(r2["err"])
        if not errs2 and r2.get("rc") != 0:
            break
        new = {}
        for e in errs2:
            new.setdefault(owner_of(meta, e), []).append(e)
        passed = {k for k in again if k not in new}
        if None in new:
            break
        errs = [e for e in errs if owner_of(meta, e) not in passed]
        # a definite failure in a run with more resources replaces "out of resources"
        errs = [e for e in errs if owner_of(meta, e) not in again] + [e for k in again - passed for e in new[k]]
        R["verified"] += len(passed)
        R["errors"] = max(0, R["errors"] - len(passed))
    try:
        tm = res["json"]["times-ms"]["smt"]
        R["smt_ms"] = tm.get("smt-run", tm.get("total", 0))
    except (KeyError, TypeError):
        pass
    for (head, lines, more, text) in errs:
        # the error belongs to the function whose body the failing exit/statement is in
        ks = [fn_at(meta, ln) for ln in lines + more]
        ks = [x for x in ks if x]
        k = ks[0] if ks else None
        if not is_verif_error(head):
            R["undecided"].append((k or "(library)", head[:300]))
            continue
        if not ks:
            R["undecided"].append(("(lemma)", text[:600]))
            continue
        if "rlimit" in text or "Resource limit" in text:
            R["undecided"].append((k, "resource limit"))
            continue
        R["failed"].setdefault(k, []).append(text)
    for k in sorted(fns):
        f = meta["functions"][k]
        st = f["status"]
        if st == "translated":
            R["fns"].append(k)
        elif st == "unsupported" and f["reason"] == "trusted":
            R["trusted"].append(k)
        elif st == "uncontracted":
            if f["baseline"]:
                R["uncontracted"].append(k)
            else:
                R["undecided"].append((k, "new helper without a contract"))
        else:
            R["undecided"].append((k, "%s: %s" % (st, f["reason"])))
        if f.get("undetermined"):
            R["undecided"].append((k, "not recognised as a function of its arguments alone"))
        for b in f.get("unattached", []):
            R["undecided"].append((k, "proof text not attached: " + b))
    # which failures are definite
    for k in list(R["failed"]):
        if k in R.get("frame", {}):
            continue
        f = meta["functions"][k]
        if k not in fns:
            del R["failed"][k]
            continue
        why = None
        if f.get("unattached"):
            why = "loop or statement structure differs from the one the proof text was written for"
        elif f.get("nloops") is not None and f.get("base_nloops") is not None and f["nloops"] != f["base_nloops"]:
            why = "number of loops changed"
        elif restructured(f):
            why = "statements restructured; the proof text may not fit any more"
        else:
            for c in f.get("inlined", []):
                if not meta["functions"].get(c, {}).get("baseline"):
                    why = "the new helper %s was inlined" % c
            for c in f["calls"]:
                g = meta["functions"].get(c)
                if g and g.get("undetermined"):
                    why = "%s is not recognised as a function of its arguments" % c
                if g and g["status"] == "uncontracted" and not g["baseline"]:
                    why = "calls the new helper %s" % c
                elif g and g["status"] in ("unsupported", "omitted") and g["reason"] != "trusted":
                    why = "calls %s, which is outside the translation" % c
        if why:
            R["undecided"].append((k, "%s; %s" % (why, R["failed"][k][0].split("\n")[0])))
            del R["failed"][k]
    R["meta"] = meta
    R["notes"] = meta["notes"]
    R["probe"] = lambda deep: vacuity(P, gen, meta, [k for k in fns if meta["functions"][k]["status"] == "translated" and (deep or k in roots)])
    R["ok"] = not R["failed"] and not R["undecided"]
    R["wall"] = time.time() - t0
    return R


def vacuity(P, gen, meta, fns):
    """with assert(false) at each exit, each function must fail"""
    mods = sorted({meta["functions"][k]["module"] for k in fns})
    src = open(gen).read().split("\n")
    for k in fns:
        f = meta["functions"][k]
        a, b = f["out_start"] - 1, f["out_end"] - 1
        # body starts at the first line that is exactly "    {" after the signature
        i = a
        while i <= b and src[i] != "    {":
            i += 1
        done = False
        for j in range(i + 1, b):
            m = re.match(r"^(\s*)return\b.*;", src[j])
            if m:
                src[j] = "proof { assert(false); } " + src[j].strip()
                done = True
        last = src[b - 1].strip()
        if last in ("this", "sv") or re.match(r"^\w+$", last):
            src[b - 1] = "proof { assert(false); } " + last
            done = True
        elif not last.startswith("proof { assert(false)"):
            # falls off the end (or ends in an if/else whose branches all return)
            if not re.search(r"->", src[a + 1]) and not re.search(r"->", "\n".join(src[a:i])):
                src[b - 1] = src[b - 1] + " proof { assert(false); }"
                done = True
        if not done:
            src[i] = src[i] + " proof { assert(false); }"
    # the other functions of these modules are left out of this run
    for k, f in meta["functions"].items():
        if f.get("module") in mods and f["status"] == "translated" and "out_start" in f:
            how = "spinoff_prover" if k in fns else "external_body"
            for j in range(f["out_start"] - 1, f["out_end"]):
                if re.match(r"^\s*(pub )?fn ", src[j]):
                    src[j] = re.sub(r"(pub )?fn ", r"#[verifier::%s] \g<0>" % how, src[j], count=1)
                    break
    g2 = os.path.join(P.work, "gen_vac.rs")
    open(g2, "w").write("\n".join(src))
    r = P.verus(g2, mods, extra=["--rlimit", "2"], multi="0", timeout=200)
    if r["timeout"] or not r["json"]:
        return {"vacuous": [], "checked": 0, "error": (r["err"] or "timeout")[-500:]}
    failed = set()
    for (head, lines, more, text) in parse_errors(r["err"]):
        for ln in lines + more:
            k = fn_at(meta, ln)
            if k:
                failed.add(k)
    return {"vacuous": sorted(set(fns) - failed), "checked": len(fns), "error": None}


def trusted_base(gen, meta):
    """every assumption left in the text Verus read"""
    src = open(gen).read().split("\n")
    res = []
    for i, l in enumerate(src):
        if l.strip().startswith("#[verifier::external_body]") or re.search(r"\b(assume|admit)\s*\(", l) or "assume_specification" in l or "axiom" in l:
            if re.search(r"\b(assume|admit)\s*\(", l):
                res.append("line %d: %s" % (i + 1, l.strip()))
                continue
            for j in range(i + 1, min(i + 6, len(src))):
                m = re.search(r"\b(fn|struct) (\w+)", src[j])
                if m:
                    k = fn_at(meta, j + 1)
                    if k is None:
                        res.append("primitive " + m.group(2))
                    break
    prims = sorted(set(re.findall(r"^pub fn ((?:popcountll|clzll|ctzll|ctz32|bswap64|mm_|mem_[gpz]|new_array|str_|vec_|u64_le_bytes)\w*)", "\n".join(src), re.M)))
    res.append("C++ builtins, intrinsics and library operations meet the contracts of their counterparts in contracts/prelude.rs (each contract "
               "is shown satisfiable by a verified body): " + ", ".join(prims))
    return sorted(set(res))


# ---------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--seconds", type=float, default=None)
    a = ap.parse_args()
    t0 = time.time()
    prop, cfg = a.prop, PR.PROPS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    work = os.path.join(HERE, "build", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "build", "replay"), exist_ok=True)
    replay = os.path.join(HERE, "build", "replay", "%s-%d.txt" % (prop, seed))
    log = []
    d = Driver(a.repo, work, cfg.get("threads", False))
    np = os.cpu_count() or 4
    secs = a.seconds if a.seconds is not None else cfg.get("quick", 12) if tier == "quick" else cfg.get("thorough", 600)
    longer = cfg.get("suspect", 75) if tier == "quick" and a.seconds is None else secs
    found = []

    def search():
        # a failed or undecided proof asks for a longer search
        if not found:
            found.append(d.run(prop, longer, seed, np, replay))
        return found[0]
    R = prove(prop, cfg, a.repo, work, log, search)
    if R["failed"] or R["undecided"]:
        secs = longer
    vt = None
    if R["ok"] and cfg["roots"] and cfg.get("vacuity", True):
        def probe():
            R["vacuity"] = R["probe"](tier == "thorough")
        vt = threading.Thread(target=probe)
        vt.start()
    S = found[0] if found else search() if secs == longer else d.run(prop, secs, seed, np, replay)
    if vt:
        vt.join()
        for k in (R["vacuity"] or {}).get("vacuous", []):
            R["undecided"].append((k, "vacuous: assert(false) is provable at every exit"))
            R["ok"] = False
    known = PR.known_findings(prop)
    violations = 0
    line = None
    if S["fail"]:
        violations = 1
        with open(replay, "a") as o:
            o.write("\nreplay: cd /verif && python3 check.py %s --replay-case %d\n" % (prop, S["fail"][0]))
            o.write("flags: %s\n%s\n" % (" ".join(d.cxx), S.get("stderr", "")))
            for k, v in R["failed"].items():
                o.write("\nfailed obligation in %s:\n%s\n" % (k, "\n".join(v)))
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif R["failed"]:
        violations = 1
        with open(replay, "w") as o:
            o.write("property %s: obligations that the verifier accepted on the pinned tree fail now\n" % prop)
            o.write("no failing input found by the search (%d cases, %d evaluations)\n" % (S["cases"], S["evals"]))
            o.write("checker: %s\n" % R["cmd"])
            for k, v in R["failed"].items():
                o.write("\nfailed obligation in %s:\n%s\n" % (k, "\n".join(v)))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    write_evidence(prop, cfg, tier, seed, R, S, d, violations, time.time() - t0, work)
    print("property %s (%s)" % (prop, tier))
    if cfg["roots"]:
        print("  proof: %d obligations' functions verified, %d errors; %d functions under contract in the closure, "
              "%d without contract; %.1fs" % (R["verified"], R["errors"], len(R["fns"]), len(R["uncontracted"]), R["wall"]))
        for k, w in R["undecided"][:20]:
            print("  undecided: %s: %s" % (k, w.split("\n")[0][:200]))
        for k in R["failed"]:
            print("  FAILED obligation in %s: %s" % (k, R["failed"][k][0].split("\n")[0]))
        if R["vacuity"]:
            print("  vacuity guard: %d functions probed, %d vacuous" % (R["vacuity"]["checked"], len(R["vacuity"]["vacuous"])))
    print("  bounded search on the real code: %d cases, %d evaluations, %ss%s" %
          (S["cases"], S["evals"], secs, "; ERROR " + S["error"] if S["error"] else ""))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if line:
        if S["fail"]:
            print("  failing case %d: %s" % (S["fail"][0], S["fail"][1][:500]))
        print(line)
        sys.exit(1)
    if S["error"] and not S["cases"] and not (R["ok"] and cfg["roots"]):
        print("ERROR: neither proof nor search gave an answer: %s" % S["error"][:1000])
        sys.exit(3)
    sys.exit(0)


def write_evidence(prop, cfg, tier, seed, R, S, d, violations, wall, work):
    cov = {}
    level = cfg["level"]
    if level == "proof" and not (R["ok"] or R["failed"]):
        level = "exploration"    # this run did not decide every obligation
    cov["evaluations"] = S["evals"]
    cov["distinct_nontrivial"] = S["cases"]
    cov["rule"] = ("bounded stand-in: each case is a freshly drawn key set/structure and configuration (replay/gen.hpp) run "
                   "against the reference oracle (replay/oracle.hpp) on the code of /repo under %s; every case has at least "
                   "one key or bit; evaluations counts the individual comparisons. Never counted as proved.") % ("ThreadSanitizer" if cfg.get("threads") else "ASan+UBSan")
    cov["samples"] = [d.sample(prop, (seed * 1000003 + 1) * 64)] if not S["error"] else ["(search did not run)"]
    if cfg["roots"]:
        cov["obligations"] = R["verified"] + R["errors"]
        cov["discharged"] = R["verified"]
        cov["checker_cmd"] = R["cmd"] or "verus (not reached)"
        gen = os.path.join(work, "gen.rs")
        cov["trusted_base"] = trusted_base(gen, R["meta"]) if R.get("meta") else []
        cov["functions_under_contract"] = R["fns"]
        cov["functions_without_contract"] = R["uncontracted"]
        if cfg.get("clients"):
            cov["clients"] = re.findall(r"^(?:#\S+ )?pub fn (\w+)", open(os.path.join(HERE, "contracts", cfg["clients"] + ".rs")).read(), re.M)
        cov["functions_with_trusted_contract"] = R["trusted"]
        cov["failed_obligations"] = {k: [x.split("\n")[0] for x in v] for k, v in R["failed"].items()}
        cov["undecided"] = [[k, w[:300]] for k, w in R["undecided"]]
        cov["back_end"] = "Verus 0.2026.09.13 / Z3 (bundled)"
        cov["solver_ms"] = R["smt_ms"]
        cov["vacuity_guard"] = R["vacuity"]
        cov["translation_notes"] = R["notes"]
    if level == "other":
        cov["explanation"] = cfg["note"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": PR.ASSUMPTIONS + cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)


if __name__ == "__main__":
    if "--replay-case" in sys.argv:
        i = sys.argv.index("--replay-case")
        prop, case = sys.argv[1], sys.argv[i + 1]
        w = os.path.join(HERE, "build", "replay-" + prop)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        d = Driver("/repo", w, PR.PROPS[prop].get("threads", False))
        d.t.join()
        if d.err:
            sys.exit(d.err)
        os.execve(d.exe, [d.exe, prop, "--case", case], ENV)
    main()
