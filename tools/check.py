#!/usr/bin/env python3
"""Runs one property check: rebuilds the symbolic encoding from /repo's current sources, explores it, asks the SMT
solver, replays counterexamples against the native build, writes evidence/<id>.json."""
import argparse, concurrent.futures, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import PROPS  # noqa: E402

INC = ["nmpc_ddp/include", "nmpc_fmpc/include", "nmpc_cgmres/include"]
SYMFLAGS = ["-std=c++17", "-O1", "-w", "-DSYMX", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
NATFLAGS = ["-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS"]

TOKEN = re.compile(r'''
 (?P<skip>//[^\n]*|/\*.*?\*/|R"\((?:.|\n)*?\)"|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|^[ \t]*\#(?:\\\n|[^\n])*)
 |(?P<id>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<num>(?:0[xX][0-9a-fA-F']+|(?:[0-9][0-9']*\.?[0-9']*|\.[0-9][0-9']*)(?:[eE][+-]?[0-9]+)?)[A-Za-z_]*)
''', re.X | re.S | re.M)


def retype(text):
    """floating-point literals become symbolic-scalar constants, so that `auto x = 0.5` keeps the retyped scalar"""
    def f(m):
        n = m.group("num")
        if n is None:
            return m.group(0)
        if re.fullmatch(r"(?:[0-9][0-9']*\.[0-9']*|\.[0-9][0-9']*)(?:[eE][+-]?[0-9]+)?|[0-9][0-9']*[eE][+-]?[0-9]+", n):
            return "(::symx::real(%s))" % n
        return n
    return TOKEN.sub(f, text)


def copy_sources(dst):
    files = []
    for d in INC + ["nmpc_cgmres/src"]:
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for x in fs:
                p = os.path.join(root, x)
                rel = os.path.relpath(p, REPO)
                o = os.path.join(dst, rel)
                os.makedirs(os.path.dirname(o), exist_ok=True)
                s = open(p, encoding="utf-8", errors="replace").read()
                if x.endswith((".h", ".hpp", ".cpp", ".cc", ".hh", ".ipp")):
                    s = retype(s)
                open(o, "w").write(s)
                files.append(rel)
    return sorted(files)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def src_list(base):
    return sorted(glob.glob(os.path.join(base, "nmpc_cgmres/src/*.cpp")))


def gen_unit(work, base, name):
    """cgmres is a compiled library: harnesses include its sources through this generated file"""
    p = os.path.join(work, name)
    os.makedirs(p, exist_ok=True)
    with open(os.path.join(p, "cgmres_sources.inc"), "w") as f:
        for s in src_list(base):
            f.write('#include "%s"\n' % s)
    return p


def native_build(prop, work, fill):
    out = os.path.join(work, "native" + ("_fill" if fill else ""))
    lock = out + ".lock"
    import fcntl
    with open(lock, "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        if not os.path.exists(out):
            g = gen_unit(work, REPO, "gen_native")
            cmd = ["g++"] + NATFLAGS + (["-DREPLAY_FILL", "-fsanitize=null"] if False else (["-DREPLAY_FILL"] if fill else []))
            cmd += ["-I" + os.path.join(VERIF, "engine"), "-I" + g, "-I/usr/include/eigen3"]
            cmd += ["-I" + os.path.join(REPO, d) for d in INC]
            cmd += [os.path.join(VERIF, "harness", PROPS[prop]["harness"] + ".cpp"), "-o", out + ".tmp"]
            r = run(cmd)
            if r.returncode:
                sys.stderr.write("native build failed\n" + r.stdout[-3000:])
                return None
            os.rename(out + ".tmp", out)
    return out


def do_replay(prop, work, model, fill):
    """exit status 1: the violation shows in the native build of the real code"""
    exe = native_build(prop, work, fill)
    if exe is None:
        return 3
    try:
        r = run([exe, model], timeout=60)
    except subprocess.TimeoutExpired:
        open(model + ".out", "w").write("REPLAY-TIMEOUT\n")
        return 1 if "termination" in open(model).read() else 3
    open(model + ".out", "w").write(r.stdout[-4000:])
    if r.returncode == 1 or r.returncode < 0:
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay", help="replay a model file and exit")
    ap.add_argument("--fill", action="store_true")
    ap.add_argument("--work")
    ap.add_argument("--case")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--qlog", action="store_true")
    a = ap.parse_args()
    if a.replay:
        work = a.work or tempfile.mkdtemp(prefix="nmpcv_")
        rc = do_replay(a.prop, work, a.replay, a.fill)
        if not a.work:
            print(open(a.replay + ".out").read())
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(rc)
    P = PROPS[a.prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier
    work = tempfile.mkdtemp(prefix="nmpcv_%s_" % a.prop)
    try:
        rc = check(a, P, work, seed, tier, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work:", work)
    sys.exit(rc)


def check(a, P, work, seed, tier, t0):
    src = os.path.join(work, "src")
    files = copy_sources(src)
    gen = gen_unit(work, src, "gen")
    inc = ["-I" + os.path.join(VERIF, "engine"), "-I" + gen, "-I/usr/include/eigen3"] + ["-I" + os.path.join(src, d) for d in INC]
    eng = subprocess.Popen(["g++", "-std=c++17", "-O2", "-w", "-c", os.path.join(VERIF, "engine/symx.cpp"), "-o",
                            os.path.join(work, "symx.o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    h = run(["g++"] + SYMFLAGS + inc + ["-c", os.path.join(VERIF, "harness", P["harness"] + ".cpp"), "-o",
                                        os.path.join(work, "h.o")])
    eo, _ = eng.communicate()
    if h.returncode or eng.returncode:
        print("UNDECIDED: the encoding of the current sources could not be built")
        print((h.stdout or "")[-4000:], (eo or "")[-2000:])
        return 2
    exe = os.path.join(work, "sym")
    l = run(["g++", os.path.join(work, "h.o"), os.path.join(work, "symx.o"), "-o", exe, "-lgmpxx", "-lgmp", "-lpthread"])
    if l.returncode:
        print("UNDECIDED: link failed\n" + l.stdout[-3000:])
        return 2
    t_build = time.time() - t0
    cases = run([exe, "--list"]).stdout.split()
    pref = P.get("prefix")
    if pref:
        cases = [c for c in cases if c.split(".")[0] in pref]
    if a.case:
        cases = [c for c in cases if c == a.case]
    elif tier == "quick":
        cases = [c for c in cases if not c.startswith("t_") and ".t_" not in c]
    budget = P.get("budget", 60) if tier == "quick" else P.get("thorough_budget", 1200)
    replay_cmd = "%s %s %s --work %s --replay" % (sys.executable, os.path.abspath(__file__), a.prop, work)
    deadline = t0 + (640 if tier == "quick" else 10 ** 9)
    logs = os.path.join(work, "log")
    os.makedirs(logs)

    def one(c):
        left = deadline - time.time()
        if left < 3:
            return c, {"case": c, "skipped": True}
        b = min(budget, left)
        st = os.path.join(logs, re.sub(r"\W", "_", c) + ".json")
        cmd = [exe, "--case", c, "--stats", st, "--out", logs, "--replay-cmd", replay_cmd, "--budget", "%.0f" % b,
               "--seed", str(seed)]
        if tier == "thorough":
            cmd += ["--goal-ms", "30000", "--feas-ms", "1500"]
        cmd += P.get("opts", [])
        if a.qlog:
            cmd += ["--qlog", os.path.join(logs, re.sub(r"\W", "_", c) + ".qlog")]

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        try:
            p = run(cmd, timeout=b + 150, preexec_fn=lim)
        except subprocess.TimeoutExpired:
            return c, {"case": c, "timeout": True}
        try:
            d = json.load(open(st))
        except Exception:
            return c, {"case": c, "crashed": p.returncode, "out": p.stdout[-500:]}
        if os.environ.get("VERIF_VERBOSE"):
            print("%-28s paths %5d goals %6d undec %d unrep %d %s %.1fs %s" % (c, d["paths"], d["goals"], d["goals_undecided"],
                  d["unreproduced"], "complete" if d["complete"] else "PARTIAL", d["wall_s"], d["violation"]), flush=True)
            if p.stdout.strip():
                print(p.stdout[-500:])
        return c, d

    res = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(one, c) for c in cases]
        for f in concurrent.futures.as_completed(futs):
            c, d = f.result()
            res[c] = d
    viol = [(c, d) for c, d in sorted(res.items()) if d.get("violation")]
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    known = []
    kf = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == a.prop and k["state"] == "known"]
    reported, suppressed = [], []
    for c, d in viol:
        hit = [k for k in known if k.get("label") == d["violation"] and re.fullmatch(k.get("case", ".*"), c)]
        (suppressed if hit else reported).append((c, d))
    rep_dir = os.path.join(ev_dir, "replay", a.prop)
    if reported:
        shutil.rmtree(rep_dir, ignore_errors=True)
        os.makedirs(rep_dir)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    out_paths = []
    for c, d in reported:
        m = os.path.join(rep_dir, re.sub(r"\W", "_", c) + ".model")
        if d.get("violation_file") and os.path.exists(d["violation_file"]):
            shutil.copy(d["violation_file"], m)
            if os.path.exists(d["violation_file"] + ".out"):
                shutil.copy(d["violation_file"] + ".out", m + ".out")
        out_paths.append(m)
    write_evidence(a, P, res, seed, tier, t0, t_build, files, reported, ev_dir)
    bad = [c for c, d in res.items() if "goals" not in d]
    for c, d in reported:
        print("violated: case=%s: %s" % (c, d["violation"]))
    if reported:
        print("VIOLATION property=%s replay=%s" % (a.prop, out_paths[0]))
        print("  (rerun: python3 %s %s --replay %s)" % (os.path.abspath(__file__), a.prop, out_paths[0]))
        return 1
    inc_ = [c for c, d in res.items() if not d.get("complete")]
    und = sum(d.get("goals_undecided", 0) for d in res.values())
    unr = sum(d.get("unreproduced", 0) for d in res.values())
    print("%s: %d cases (%d explored completely), %d paths, %d goals, %d undecided, %d unreproduced, %.0f s" % (
        a.prop, len(res), len(res) - len(inc_), sum(d.get("paths", 0) for d in res.values()),
        sum(d.get("goals", 0) for d in res.values()), und, unr, time.time() - t0))
    if inc_:
        print("  not complete within the time budget:", ", ".join(sorted(inc_)))
    if bad:
        print("  no result:", [(c, res[c]) for c in bad])
    if len(bad) == len(res):
        return 2
    return 0


def write_evidence(a, P, res, seed, tier, t0, t_build, files, reported, ev_dir):
    ok = [d for d in res.values() if "goals" in d]

    def s(k):
        return sum(d.get(k, 0) for d in ok)
    labels, covers, confirmed, stages, counters = {}, {}, set(), {}, {}
    for d in ok:
        for src, dst in ((d["labels"], labels), (d["covers"], covers), (d["stages"], stages), (d["counters"], counters)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        confirmed |= set(d["covers_confirmed"])
    cov = {
        "explanation": "Symbolic execution of the functions below from /repo's current source (scalar type retyped to "
                       "a symbolic real), every branch decided or forked with the SMT solver, every assertion decided "
                       "for all values of the symbolic inputs on the path: 'closed_by_normalisation' are goals whose "
                       "negation is unsatisfiable already in rational-function normal form, the rest are SMT queries.",
        "functions_encoded": P["functions"],
        "source_files": files,
        "bounds": P["bounds"],
        "outside_bounds": P.get("outside", "IEEE rounding, overflow and signed zero; larger dimensions and horizons; more iterations"),
        "cases": {c: ({"complete": d["complete"], "paths": d["paths"], "goals": d["goals"], "proved": d["goals_proved"],
                       "undecided": d["goals_undecided"], "unreproduced": d["unreproduced"], "queries": d["queries"],
                       "solver_s": round(d["solver_s"], 2), "wall_s": round(d["wall_s"], 2)} if "goals" in d else d)
                  for c, d in sorted(res.items())},
        "evaluations": s("paths"),
        "distinct_nontrivial": s("paths"),
        "rule": "one evaluation = one feasible symbolic path of the real code, standing for all inputs that follow it; paths are distinct by construction (different decision vectors)",
        "goals": s("goals"),
        "goals_proved": s("goals_proved"),
        "goals_closed_by_normalisation": s("goals_closed_by_normalisation"),
        "goals_undecided": s("goals_undecided"),
        "undecided_labels": sorted({x for d in ok for x in d["undecided"]}),
        "counterexamples_not_reproduced": s("unreproduced"),
        "unreproduced_labels": sorted({x for d in ok for x in d["unreproduced_labels"]}),
        "decisions": s("decisions"),
        "decisions_implied_by_sign_analysis": s("implied_by_sign"),
        "decisions_implied_by_solver": s("implied_by_solver"),
        "queries": s("queries"),
        "queries_sat": s("q_sat"),
        "queries_unsat": s("q_unsat"),
        "queries_unknown": s("q_unknown"),
        "solver_seconds": round(s("solver_s"), 2),
        "solver": "z3 5.3.2 (z3-new), cvc5 1.1.2 as fallback",
        "build_seconds": round(t_build, 1),
        "goal_labels": labels,
        "reachability_witnesses": covers,
        "reachability_confirmed_by_solver": sorted(confirmed),
        "stages": stages,
        "counters": counters,
        "samples": [x for d in ok for x in d["samples"]][:12] or list(labels.items())[:6],
        "exhaustive": all(d.get("complete") for d in res.values()) and s("goals_undecided") == 0,
    }
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": P.get("assumptions", []) + [
              "exact real arithmetic with IEEE NaN/infinity specials; rounding and overflow are not modelled",
              "problem callbacks are functions of their arguments (deterministic)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    with open(os.path.join(ev_dir, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
