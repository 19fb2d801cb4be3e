#!/usr/bin/env python3
"""Runs the runtime monitors of one property against /repo's working tree.

usage: run.py <property>            (VERIF_SEED, VERIF_TIER from the environment)
       run.py --replay <file>       re-executes a recorded violation
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check could not decide.
"""
import json, os, re, shutil, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402
from reduce import reduced_copy  # noqa: E402

JOBS = min(8, os.cpu_count() or 8)
BASE = ["-std=c++11", "-g1", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO, "-I" + H]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
ENV = dict(os.environ,
           ASAN_OPTIONS="exitcode=86:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=6000:handle_abort=1:detect_stack_use_after_return=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=86:second_deadlock_stack=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=86", LC_ALL="C")
SYM = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
if SYM:
    ENV["ASAN_SYMBOLIZER_PATH"] = SYM


def log(*a):
    print(*a, flush=True)


def build(unit, outdir):
    """Compile one unit from /repo's headers; clang with ASan+UBSan first, g++ if clang rejects the tree."""
    exe = os.path.join(outdir, unit["name"])
    src = os.path.join(H, unit["src"])
    defs = ["-D%s" % d for d in unit.get("defs", [])]
    opt = [unit.get("opt", "-O1")]
    san = unit.get("san", SAN)
    errs = []
    for cxx in (["clang++"], ["g++"]):
        if unit.get("cxx") and cxx[0] != unit["cxx"]:
            continue
        cmd = cxx + BASE + opt + san + defs + unit.get("flags", []) + [src, "-o", exe] + unit.get("libs", [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired:
            errs.append("%s: timeout" % cxx[0])
            continue
        if p.returncode == 0:
            return exe, None
        errs.append(cxx[0] + ": " + p.stdout.decode(errors="replace")[-3000:])
    return None, "\n".join(errs)


def build_reduced(unit, outdir):
    """Blank the statements of the harness that do not compile against the tree; returns (exe, removed, harness copy) or None."""
    hd = os.path.join(outdir, "harness_" + unit["name"])
    exe = os.path.join(outdir, unit["name"])
    defs = ["-D%s" % d for d in unit.get("defs", [])]
    base = [b for b in BASE if b != "-I" + H]

    def syntax(d, src):
        return ["clang++"] + base + ["-I" + d] + defs + unit.get("flags", []) + ["-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics", src]

    def compile_with(repo, out):
        cmd = ["clang++"] + [("-I" + repo) if b == "-I" + REPO else b for b in base] + ["-I" + hd, unit.get("opt", "-O1")] + unit.get("san", SAN) + defs + unit.get("flags", []) + [os.path.join(hd, unit["src"]), "-o", out] + unit.get("libs", [])
        return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600).returncode == 0
    try:
        removed = reduced_copy(H, hd, syntax, unit["src"], time.time() + 240)
        if not removed or not compile_with(REPO, exe):
            return None
    except subprocess.TimeoutExpired:
        return None
    return exe, removed, compile_with


def reference_tree(outdir):
    """Reference copy of the library's headers (only used to confirm what reduced units report)."""
    d = os.path.join(outdir, "reference")
    os.makedirs(d, exist_ok=True)
    subprocess.run(["tar", "xJf", os.path.join(HERE, "reference.tar.xz"), "-C", d], check=True)
    return d


def crash_signature(out):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", out)
    kind = None
    if m:
        kind = "asan:" + m.group(1)
    if not kind:
        m = re.search(r"runtime error: ([^\n]*)", out)
        if m:
            kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:80].strip()
    if not kind:
        m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid (?:read|write|free)|Mismatched free|Source and destination|Syscall param|Process terminating)", out)
        if m:
            kind = "memcheck:" + m.group(1)
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", out)
        if m:
            kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"Assertion .(.*?). failed", out)
        if m:
            kind = "assert:" + m.group(1)[:80]
    if not kind:
        kind = "crash"
    where = re.search(r"/repo/(viennagrid/[\w/.]+)", out[max(0, out.find("ERROR"), out.find("WARNING: Thread")):])
    return kind + ("@" + where.group(1) if where else "")


def run_range(exe, unit, prop, seed, first, count, outdir, tag):
    """Runs cases [first, first+count); returns (stats list, violations list)."""
    stats, viols = [], []
    end = first + count
    crashes = retries = 0
    while first < end:
        prog = os.path.join(outdir, "%s.%s.progress" % (unit["name"], tag))
        scratch = os.path.join(outdir, "scratch.%s.%s" % (unit["name"], tag))
        os.makedirs(scratch, exist_ok=True)
        cmd = unit.get("wrap", []) + [exe, unit.get("as", prop), str(seed), str(first), str(end - first), prog, scratch, str(unit.get("case_timeout", 120))]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=unit.get("timeout", 3000), cwd=scratch)
        except subprocess.TimeoutExpired:
            return stats, viols + [dict(sig="no-answer", case=-1, detail="unit exceeded its time", unit=unit["name"], fatal=True)]
        out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        if "FATAL: ThreadSanitizer" in err and retries < 20:
            retries += 1  # the address space was laid out in a way the run time cannot use
            continue
        shutil.rmtree(scratch, ignore_errors=True)
        for l in out.splitlines():
            if l.startswith("FAIL\t"):
                _, sig, case, detail = (l.split("\t", 3) + [""])[:4]
                viols.append(dict(sig=sig, case=int(case), detail=detail[:4000], unit=unit["name"]))
            elif l.startswith("STATS\t"):
                stats.append(json.loads(l[6:]))
        if p.returncode in (0, 1) and any(l.startswith("STATS\t") for l in out.splitlines()):
            break
        try:
            case = int(open(prog).read().split()[0])
        except Exception:
            case = first
        if p.returncode == 87:
            # a watchdog expiry: confirm with the case alone and a much larger allowance
            try:
                p2 = subprocess.run(unit.get("wrap", []) + [exe, unit.get("as", prop), str(seed), str(case), "1", prog, scratch, "300"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=400, cwd=outdir)
                hung = p2.returncode == 87
            except subprocess.TimeoutExpired:
                hung = True
            if hung:
                viols.append(dict(sig="hang", case=case, detail="no progress within 300 s", unit=unit["name"]))
        else:
            viols.append(dict(sig=crash_signature(err + out), case=case, detail=(err[-6000:] or "exit %s" % p.returncode), unit=unit["name"], rc=p.returncode))
        crashes += 1
        if crashes >= 4:
            break
        first = case + 1
    return stats, viols


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def known_match(prop, v, known):
    for k in known.get("findings", []):
        if k["property"] != prop or k["signature"] != v["sig"]:
            continue
        if k.get("unit") and not re.fullmatch(k["unit"], v["unit"]):
            continue
        if k.get("detail") and not re.search(k["detail"], v["detail"]):
            continue
        return k
    return None


def confirm(viols, reduced, spec, prop, seed, outdir):
    """Keeps a violation seen by a reduced unit only if the same reduced harness does not report it on the reference library."""
    out, ref, exes, done = [], None, {}, set()
    for v in viols:
        if v["unit"] not in reduced:
            out.append(v)
            continue
        if (v["unit"], v["sig"]) in done:
            continue
        done.add((v["unit"], v["sig"]))
        n = v["unit"]
        u = [x for x in spec["units"] if x["name"] == n][0]
        if n not in exes:
            ref = ref or reference_tree(outdir)
            e = os.path.join(outdir, n + ".reference")
            exes[n] = e if reduced[n][2](ref, e) else None
        if not exes[n]:
            continue
        _, rv = run_range(exes[n], u, prop, seed, v["case"], 1, outdir, "ref")
        if not any(x["sig"] == v["sig"] for x in rv):
            out.append(v)
    return out


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    spec = PROPS[prop]
    t0 = time.time()
    outdir = os.path.join(HERE, "build", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    units = [u for u in spec["units"] if tier == "thorough" or not u.get("thorough_only")]
    only = os.environ.get("VERIF_UNIT")
    if only:
        units = [u for u in units if re.fullmatch(only, u["name"])]
    errors, stats, viols, reduced = [], [], [], {}
    lock = threading.Lock()
    pool = ThreadPoolExecutor(JOBS)

    def shard(exe, u, first, count, tag):
        s, v = run_range(exe, u, prop, seed, first, count, outdir, tag)
        with lock:
            stats.extend((u["name"], x) for x in s)
            viols.extend(v)

    def one(u):
        exe, err = build(u, outdir)
        if err:
            red = build_reduced(u, outdir)
            with lock:
                if red:
                    reduced[u["name"]] = red
                else:
                    errors.append((u["name"], err))
            if not red:
                return []
            exe = red[0]
        n = u["quick"] if tier == "quick" else u.get("thorough", u["quick"] * 20)
        n = max(1, int(n * scale))
        k = u.get("shards", 1) if tier == "quick" else u.get("tshards", 4)
        step = (n + k - 1) // k
        futs = []
        for i, f in enumerate(range(0, n, step)):
            futs.append(pool.submit(shard, exe, u, f, min(step, n - f), str(i)))
        return futs

    # heavy units first so that the last compile does not dominate
    futs = [pool.submit(one, u) for u in sorted(units, key=lambda u: -u.get("weight", 1))]
    for f in futs:
        for g in f.result():
            g.result()
    pool.shutdown()

    known = load_known()
    new, seen_known = [], {}
    for v in viols:
        k = known_match(prop, v, known)
        if k:
            seen_known[k["what"]] = k
        else:
            new.append(v)
    undecided = [v for v in new if v.get("fatal")]
    new = [v for v in new if not v.get("fatal")]
    if reduced:
        new = confirm(new, reduced, spec, prop, seed, outdir)
    wall = time.time() - t0

    cases = sum(s["cases"] for _, s in stats)
    checks = sum(s["checks"] for _, s in stats)
    states, events, per_unit, samples = set(), {}, {}, []
    for n, s in stats:
        states.update((n, h) for h in s["states"])
        pu = per_unit.setdefault(n, {"cases": 0, "checks": 0, "distinct": 0})
        pu["cases"] += s["cases"]; pu["checks"] += s["checks"]; pu["distinct"] += len(s["states"])
        for k, c in s["events"].items():
            events[k] = events.get(k, 0) + c
    byunit = {}
    for n, s in stats:
        byunit.setdefault(n, []).extend(s["samples"])
    for n in sorted(byunit):
        for x in byunit[n][:1]:
            samples.append("%s: %s" % (n, x[:700]))
    missing = [e for e in spec.get("need", []) if not events.get(e)]
    level = spec.get("level", "exploration")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(wall, 2), violations=len(new),
              coverage=dict(evaluations=cases, distinct_nontrivial=len(states), rule=spec["rule"], samples=samples[:12] or ["none"],
                            oracle_checks=checks, reduced_units={n: r[1] for n, r in reduced.items()}, events=events, units=per_unit, monitors=spec.get("monitors", ["ASan", "UBSan", "libstdc++ assertions", "library assert()", "reference-model oracle"])),
              assumptions=spec.get("assumptions", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s seed=%d: %d cases, %d oracle checks, %d distinct states, %d event kinds, %.1f s" % (prop, tier, seed, cases, checks, len(states), len(events), wall))
    for w in seen_known:
        log("KNOWN-FINDING: property=%s %s" % (prop, w))
    for n, r in sorted(reduced.items()):
        log("NOTE: unit %s does not build against the current tree; continued without: %s" % (n, "; ".join(r[1])[:2000]))
    rc = 0
    if new:
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for v in new:
            if v["sig"] in shown:
                continue
            shown.add(v["sig"])
            fn = os.path.join(rd, "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", v["unit"] + "-" + v["sig"])[:90], v["case"]))
            json.dump(dict(property=prop, seed=seed, tier=tier, **v), open(fn, "w"), indent=1)
            log("violated: unit=%s case=%d %s: %s" % (v["unit"], v["case"], v["sig"], v["detail"][:600]))
            log("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(fn, HERE)))
        rc = 1
    elif errors or undecided or (missing and not only and not reduced):
        for n, e in errors:
            log("UNDECIDED: unit %s does not build against the current tree:\n%s" % (n, e[:3000]))
        for v in undecided:
            log("UNDECIDED: unit %s: %s" % (v["unit"], v["detail"]))
        if missing and not reduced:
            log("UNDECIDED: the monitors observed none of: %s" % ", ".join(missing))
        rc = 2
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(outdir, ignore_errors=True)
    return rc


def replay(path):
    v = json.load(open(path))
    spec = PROPS[v["property"]]
    u = [x for x in spec["units"] if x["name"] == v["unit"]][0]
    outdir = os.path.join(HERE, "build", "replay")
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    exe, err = build(u, outdir)
    if err:
        red = build_reduced(u, outdir)
        if not red:
            log(err)
            return 2
        exe = red[0]
    st, vi = run_range(exe, u, v["property"], v["seed"], v["case"], 1, outdir, "r")
    for x in vi:
        log("violated: unit=%s case=%d %s:\n%s" % (x["unit"], x["case"], x["sig"], x["detail"]))
        log("VIOLATION property=%s replay=%s" % (v["property"], path))
    return 1 if vi else 0


if __name__ == "__main__":
    sys.exit(main())
