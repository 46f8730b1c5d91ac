#!/usr/bin/env python3
"""Build the monitors of one property from /repo's working tree, run them, judge what they saw.

usage: check.py P01 [--tier quick|thorough] [--seed N] [--replay FILE] [--only SECTION]

exit 0: the property held on everything observed (or only listed findings were seen)
exit 1: a violation that known_findings.json does not list
"""
import argparse, concurrent.futures as cf, fnmatch, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
import props  # noqa: E402

SRC_DIRS = ["components", "mfemExtension", "evolution", "driver", "solver", "math"]
DEAD = {"mfemExtension/LinearForm_IBFI", "mfemExtension/BilinearForm_IBFI"}

COMMON = ("-std=c++17 -w -DSHOW_TIMER_INFORMATION -I{root}/shim -I{repo}/src -I{repo}/src/maxwell "
          "-I/usr/include/eigen3 -I{root}/harness").format(root=ROOT, repo=REPO)
CLANG_POISON = "-ftrivial-auto-var-init=pattern"
UB = "bounds,signed-integer-overflow,float-cast-overflow,integer-divide-by-zero,shift,return,bool,enum,vla-bound,unreachable,null,alignment,pointer-overflow"
CONFIGS = {
    "asan": ("clang++", "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address %s -I%s/shim/serial" % (CLANG_POISON, ROOT), "-fsanitize=address"),
    "san": ("clang++", "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,%s -fno-sanitize-recover=all %s -I%s/shim/serial" % (UB, CLANG_POISON, ROOT), "-fsanitize=address,%s" % UB),
    "plain": ("clang++", "-O1 -gline-tables-only %s -I%s/shim/serial" % (CLANG_POISON, ROOT), ""),
    "tsan": ("g++", "-O1 -g1 -fopenmp -DSEMBA_DGTD_ENABLE_OPENMP -fsanitize=thread -ftrivial-auto-var-init=pattern", "-fsanitize=thread"),
}


def log(*a):
    print(*a, flush=True)


def all_sources():
    out = []
    for d in SRC_DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, "src", d, "**", "*.cpp"), recursive=True)):
            r = os.path.relpath(f, os.path.join(REPO, "src"))[:-4]
            if r not in DEAD:
                out.append(r)
    return out


def ninja_text(h, everything):
    cfg = h.get("cfg", "asan")
    cxx, cflags, ldflags = CONFIGS[cfg]
    srcs = h.get("sources", "all")
    allsrc = all_sources()
    if srcs == "all" or everything:
        skip = set(h.get("skip", ["components/SIBCPoleResidueFitting"]))
        use = [s for s in allsrc if s not in skip]
    else:
        use = [s for s in allsrc if s in srcs or any(fnmatch.fnmatch(s, x) for x in srcs)]
    extra = h.get("flags", "")
    tag = cfg + ("-" + h["tag"] if h.get("tag") else "")
    d = os.path.join(BUILD, tag)
    shim = h.get("shim", ["mfem_la", "mfem_fe", "mfem_mesh", "mfem_par", "mfem_mpi"])
    lines = ["builddir = %s" % d,
             "rule cc", "  command = %s %s %s %s $xflags -MMD -MF $out.d -c $in -o $out" % (cxx, COMMON, cflags, extra), "  depfile = $out.d", "  deps = gcc",
             "rule ar", "  command = rm -f $out && ar rcs $out $in",
             "rule ld", "  command = %s -o $out $in %s -lpthread -ldl" % (cxx, ldflags)]
    robj, objs = [], []
    for s in use:
        o = os.path.join(d, "repo", s.replace("/", "_") + ".o")
        lines.append("build %s: cc %s" % (o, os.path.join(REPO, "src", s + ".cpp")))
        robj.append(o)
    for s in shim + h.get("support", []):
        f = os.path.join(ROOT, "shim", s + ".cpp")
        if not os.path.exists(f):
            f = os.path.join(ROOT, "harness", s + ".cpp")
        o = os.path.join(d, "shim", s + ".o")
        lines.append("build %s: cc %s" % (o, f))
        objs.append(o)
    name = os.path.splitext(os.path.basename(h["src"]))[0]
    ho = os.path.join(d, "h_%s.o" % name)
    lines.append("build %s: cc %s" % (ho, os.path.join(ROOT, "harness", h["src"])))
    if h.get("hflags"):
        lines.append("  xflags = %s" % h["hflags"])
    exe = os.path.join(d, name)
    return lines, robj, ho, objs, exe, d, name


def build(h, everything=False):
    lines, robj, ho, objs, exe, d, name = ninja_text(h, everything)
    os.makedirs(d, exist_ok=True)
    nf = os.path.join(d, "build-%s.ninja" % name)
    with open(nf, "w") as f:
        f.write("\n".join(lines) + "\n")
    t = time.time()
    r = subprocess.run(["ninja", "-k", "0", "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    out = r.stdout
    missing = [o for o in [ho] + objs if not os.path.exists(o)]
    if missing:
        return None, out, time.time() - t
    # repository objects go through an archive, so that an unrelated broken file does not matter
    ok = [o for o in robj if os.path.exists(o)]
    if r.returncode != 0:  # drop stale objects of sources that no longer compile
        bad = set(re.findall(r"^FAILED: (?:\[[^\]]*\] )?(\S+)", out, re.M))
        ok = [o for o in ok if o not in bad]
    ar = os.path.join(d, name + ".a")
    if os.path.exists(ar):
        os.remove(ar)
    subprocess.run(["ar", "rcs", ar] + ok, check=True) if ok else None
    cxx, _, ld = CONFIGS[h.get("cfg", "asan")]
    cmd = [cxx, "-o", exe, ho] + ([ar] if ok else []) + objs + ([ar] if ok else []) + objs[:0] + ld.split() + h.get("libs", []) + ["-lpthread"]
    r2 = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r2.returncode != 0:
        if not everything and h.get("sources", "all") != "all":
            return build(h, True)
        return None, out + r2.stdout, time.time() - t
    return exe, out, time.time() - t


NOBODY = 65534


def open_to_others(path, need):
    """Whether an unprivileged user can reach path."""
    st = os.stat(path)
    if (st.st_mode & need) != need:
        return False
    while path != "/":
        path = os.path.dirname(path)
        if not os.stat(path).st_mode & 0o001:
            return False
    return True


def become_nobody():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def can_drop(_cache=[]):
    if not _cache:
        try:
            _cache.append(os.geteuid() == 0 and subprocess.run(["/bin/true"], preexec_fn=become_nobody).returncode == 0)
        except Exception:
            _cache.append(False)
    return _cache[0]


def make_scratch(pid):
    """Scratch folder for the monitored programs, which run as an unprivileged user that owns nothing else."""
    base = BUILD if not can_drop() or open_to_others(BUILD, 0o001) else None
    d = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=base)
    os.chmod(d, 0o711)
    return d


def run_section(exe, h, sec, tier, seed, scratch):
    wd = tempfile.mkdtemp(prefix="sec-", dir=scratch)
    rep, lab, logf = os.path.join(wd, "report.json"), os.path.join(wd, "label.txt"), os.path.join(wd, "log.txt")
    cwd = os.path.join(wd, "cwd")
    os.mkdir(cwd)
    drop = can_drop()
    if drop:
        for q in (wd, cwd):
            os.chown(q, NOBODY, NOBODY)
        if not open_to_others(exe, 0o005):
            cp = os.path.join(scratch, os.path.basename(exe))
            if not os.path.exists(cp):
                shutil.copy(exe, cp)
                os.chmod(cp, 0o755)
            exe = cp
    env = dict(os.environ)
    env.update(h.get("env", {}))
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:max_malloc_fill_size=1048576:malloc_fill_byte=255:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1")
    env.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:abort_on_error=1")
    env.setdefault("TSAN_OPTIONS", "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=5")
    env["VERIF_REPO_DIR"] = REPO
    env["TMPDIR"] = wd
    env["HOME"] = wd
    cpu = h.get("cpu", 240 if tier == "quick" else 3000)
    wall = h.get("wall", 480 if tier == "quick" else 3400)

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if drop:
            become_nobody()

    t = time.time()
    hang = None
    cmd = h.get("wrapper", []) + [exe, "--section", sec, "--seed", str(seed), "--tier", tier, "--report", rep, "--label", lab]
    with open(logf, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT, env=env, preexec_fn=pre)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            hang = "wall"
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    if rc is not None and -rc in (signal.SIGXCPU,):
        hang = "cpu"
    if rc is not None and -rc == signal.SIGKILL and time.time() - t > cpu * 0.9:
        hang = "cpu"
    tail = ""
    with open(logf, "rb") as f:
        data = f.read().decode("utf8", "replace")
    label = open(lab).read() if os.path.exists(lab) else ""
    res = {"section": sec, "wall": time.time() - t, "rc": rc, "violations": [], "report": None, "inconclusive": None}
    tsan = re.findall(r"WARNING: ThreadSanitizer: ([^\n(]*)", data)
    if rc == 0 or (rc == 66 and os.path.exists(rep)):
        try:
            res["report"] = json.load(open(rep))
            res["violations"] = list(res["report"]["violations"])
        except Exception as e:
            res["inconclusive"] = "unreadable report: %s" % e
        if tsan:
            frames = re.findall(r"#0 (\S+)", data)
            res["violations"].append({"key": "race:" + tsan[0].strip(), "detail": "; ".join(frames[:4]), "label": label, "count": len(tsan)})
    elif hang == "wall":
        res["inconclusive"] = "no answer within %d s of wall time (case %s)" % (wall, label)
    elif hang == "cpu":
        res["violations"] = [{"key": "hang:%s:%s" % (sec, label), "detail": "no end after %d s of CPU time" % cpu, "label": label, "count": 1}]
    elif rc is not None and -rc == signal.SIGKILL:
        res["inconclusive"] = "killed from outside"
    else:
        m = re.search(r"(SUMMARY: \w+: [^\n]*|SHIM-MEMORY-VIOLATION: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*\n[^\n]*|ERROR: AddressSanitizer: [^\n]*)", data)
        ms = re.search(r"SHIM-MEMORY-VIOLATION: [^\n]*", data)
        what = (ms or m).group(0) if (ms or m) else "signal/exit %s" % rc
        kind = "memory" if ("Sanitizer" in what or "SHIM-MEMORY" in what or "runtime error" in what) else "crash"
        i = data.find(what)
        tail = data[i:i + 3000]
        res["violations"] = [{"key": "%s:%s:%s" % (kind, sec, label), "detail": what, "label": label, "count": 1, "log": tail}]
    shutil.rmtree(wd, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    spec = props.PROPS[pid]
    only = None
    if a.replay:
        rp = json.load(open(a.replay))
        a.seed, a.tier, only = rp["seed"], rp["tier"], (rp["harness"], rp["section"])
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    scratch = make_scratch(pid)
    jobs, notes, results, build_s = [], [], [], 0.0
    try:
        for h in spec["harnesses"]:
            if h.get("thorough_only") and a.tier != "thorough":
                continue
            if only and only[0] != h["src"]:
                continue
            exe, out, dt = build(h)
            build_s += dt
            if exe is None:
                notes.append("INCONCLUSIVE: %s does not build against this tree" % h["src"])
                log(notes[-1])
                log(out[-3000:])
                continue
            secs = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout.split()
            for s in secs:
                if (only and only[1] != s) or (a.only and a.only != s):
                    continue
                if s.startswith("deep_") and a.tier != "thorough":
                    continue
                jobs.append((exe, h, s))
        log("built in %.1f s, %d sections" % (build_s, len(jobs)))

        def one(j):
            exe, h, s = j
            r = run_section(exe, h, s, a.tier, a.seed, scratch)
            if r["inconclusive"]:
                r = run_section(exe, h, s, a.tier, a.seed, scratch)
            r["harness"] = h["src"]
            return r

        width = max(h.get("width", 8) if False else h.get("width", 8) for h in spec["harnesses"]) if spec["harnesses"] else 8
        with cf.ThreadPoolExecutor(width) as ex:
            results = list(ex.map(one, jobs))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    mine = [k for k in known["findings"] if k["property"] == pid]
    seen_known, new, nviol = {}, [], 0
    ev, events, distinct, samples, worst = 0, {}, {}, [], {}
    for r in results:
        if r["inconclusive"]:
            notes.append("INCONCLUSIVE: section %s: %s" % (r["section"], r["inconclusive"]))
            log(notes[-1])
        rep = r["report"]
        if rep:
            ev += rep["evaluations"]
            for k, (n, d) in rep["events"].items():
                events[k] = events.get(k, 0) + n
                distinct[k] = distinct.get(k, 0) + d
            samples += rep["samples"][:6]
            for k, w in rep["worst"].items():
                worst[k] = max(worst.get(k, 0), w)
            if a.v:
                log("  %-28s %6.1fs evals %d events %s" % (r["section"], r["wall"], rep["evaluations"], {k: v for k, v in rep["events"].items()}))
        for v in r["violations"]:
            nviol += 1
            hit = next((k for k in mine if fnmatch.fnmatchcase(v["key"], k["key"])), None)
            if hit:
                seen_known.setdefault(hit["id"], (hit, v))
            else:
                new.append((r, v))
    if a.v:
        for k in sorted(worst):
            log("  worst/tol %-40s %.3g" % (k, worst[k]))
    for hit, v in seen_known.values():
        log("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
    printed = set()
    for i, (r, v) in enumerate(new):
        if v["key"] in printed:
            continue
        printed.add(v["key"])
        path = os.path.join(ROOT, "evidence", "replay", "%s-%d.json" % (pid, len(printed)))
        json.dump({"property": pid, "seed": a.seed, "tier": a.tier, "harness": r["harness"], "section": r["section"], "key": v["key"], "label": v["label"],
                   "detail": v["detail"], "log": v.get("log", ""), "how": "check.py %s --replay %s" % (pid, path)}, open(path, "w"), indent=1)
        log("  %s: %s [%s] x%d" % (v["key"], v["detail"][:600], v["label"][:300], v["count"]))
        if a.v and v.get("log"):
            log(v["log"])
        log("VIOLATION property=%s replay=%s" % (pid, path))
    evidence = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": spec.get("level", "exploration"),
        "coverage": {"evaluations": ev, "distinct_nontrivial": sum(distinct.values()), "rule": spec["rule"], "samples": samples[:40],
                     "events": events, "distinct_by_event": distinct, "worst_error_over_tolerance": {k: round(w, 4) for k, w in sorted(worst.items())[:60]},
                     "sections": [{"name": r["section"], "wall_s": round(r["wall"], 2), "completed": r["report"] is not None} for r in results], "notes": notes,
                     "known_findings_seen": sorted(seen_known),
                     "violation_list": [{"key": v["key"], "detail": v["detail"][:1000], "label": v["label"], "section": r["section"]} for r, v in new]},
        "assumptions": spec.get("assumptions", []) + props.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    json.dump(evidence, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    log("%s %s: %d evaluations, %d distinct observed states, %d violations (%d listed findings), %.1f s" % (pid, a.tier, ev, sum(distinct.values()), nviol, len(seen_known), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
