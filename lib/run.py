#!/usr/bin/env python3
"""Runs the check of one property: builds /repo's working tree and the check's
harnesses with sanitizers, runs them, decides, writes evidence.

usage: run.py ID          (VERIF_SEED, VERIF_TIER from the environment)
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
import checks

CXX = "g++"
BASE = ["-std=c++17", "-fno-rtti", "-w", "-g1", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-pipe"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
}
ENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks=1:allocator_may_return_null=1:"
                    "max_allocation_size_mb=512:detect_stack_use_after_return=1:"
                    "alloc_dealloc_mismatch=1:strict_string_checks=1:handle_abort=1:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=0:halt_on_error=0:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
    "LSAN_OPTIONS": "exitcode=99",
}
JOBS = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


class Build:
    """Objects of /repo/src per sanitizer, compiled in parallel."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.libs = {}

    def cflags(self, san, shim):
        return BASE + SAN[san] + ["-I" + os.path.join(REPO, "src")] + (
            ["-I" + os.path.join(VERIF, "shim")] if shim else [])

    def start_lib(self, san, shim):
        key = (san, shim)
        if key in self.libs:
            return
        srcs = []
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            srcs += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
        d = os.path.join(self.tmp, "lib-%s-%d" % key)
        os.makedirs(d)
        futs = []
        for s in sorted(srcs):
            o = os.path.join(d, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO)) + ".o")
            futs.append((s, o, self.pool.submit(sh, [CXX] + self.cflags(san, shim) + ["-c", s, "-o", o], 600)))
        self.libs[key] = (d, futs)

    def lib(self, san, shim):
        d, futs = self.libs[(san, shim)]
        objs, skipped = [], []
        for s, o, f in futs:
            r = f.result()
            if r.returncode == 0:
                objs.append(o)
            elif not shim and "function2" in r.stdout:
                pass
            else:
                skipped.append((s, r.stdout))
        a = os.path.join(d, "libarpc.a")
        if not os.path.exists(a):
            subprocess.check_call(["ar", "rcs", a] + objs)
        return a, skipped

    def program(self, name, srcs, san, shim, flags, libs):
        """Returns a function that finishes the build and returns the path."""
        self.start_lib(san, shim)
        objs = []
        for s in srcs:
            defs = []
            if isinstance(s, (list, tuple)):
                s, defs = s[0], list(s[1:])
            src = s if os.path.isabs(s) else os.path.join(VERIF, "h", s)
            o = os.path.join(self.tmp, "%s-%s-%d-%s.o" % (name, san, len(objs), os.path.basename(s)))
            cmd = [CXX] + self.cflags(san, shim) + ["-I" + os.path.join(VERIF, "h")] + flags + defs + ["-c", src, "-o", o]
            objs.append((o, cmd, self.pool.submit(sh, cmd, 800)))

        def finish():
            for o, cmd, f in objs:
                r = f.result()
                if r.returncode:
                    raise BuildError("compiling failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
            a, skipped = self.lib(san, shim)
            exe = os.path.join(self.tmp, "%s-%s" % (name, san))
            sanl = [x for x in SAN[san] if x.startswith("-fsanitize")]
            r = sh([CXX] + sanl + ["-g1", "-o", exe] + [o for o, _, _ in objs] + [a] + libs + ["-pthread"], 600)
            if r.returncode:
                raise BuildError("linking %s failed:\n%s\n%s" % (
                    name, r.stdout[-4000:], "\n".join("%s:\n%s" % (s, o[-2000:]) for s, o in skipped)))
            return exe
        return finish


class BuildError(Exception):
    pass


def frames(block):
    """Function names of repo frames in a sanitizer stack, outermost noise removed."""
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", block):
        fn, path = m.group(1), m.group(2)
        if "/src/arpc/" in path:
            fn = re.sub(r"\(.*", "", re.sub(r"<.*", "", fn)).strip()
            f = os.path.basename(path)
            if (f, fn) not in out:
                out.append((f, fn))
    return ["%s:%s" % x for x in out]


def sanitizer_keys(san, err):
    """(key, excerpt) for every report in a sanitizer log."""
    res = []
    for m in re.finditer(r"runtime error: (.*)", err):
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
        msg = re.sub(r"'[^']*'", "T", msg)
        fr = frames(err[m.start():m.start() + 6000])
        res.append(("ubsan:%s@%s" % (msg[:80], fr[0] if fr else "?"), err[max(0, m.start() - 200):m.start() + 4000]))
    for m in re.finditer(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", err):
        fr = frames(err[m.start():m.start() + 8000])
        if "ABRT" in err[m.start():m.start() + 60]:
            continue
        res.append(("asan:%s@%s" % (m.group(2), fr[0] if fr else "?"), err[m.start():m.start() + 5000]))
    if san == "tsan":
        for b in re.split(r"={10,}\n", err):
            m = re.search(r"WARNING: ThreadSanitizer: (.+?) \(pid", b)
            if m:
                kind = m.group(1).strip()
                parts = re.split(r"\n\s*\n", b)
                tops = []
                for p in parts[:2]:
                    fr = frames(p)
                    tops.append(fr[0] if fr else "?")
                res.append(("tsan:%s@%s" % (kind, "|".join(sorted(set(tops)))), b[:6000]))
    return res


def run_one(prop, r, exe, tier, seed, tmp, idx):
    """Runs a harness once. Returns dict(status, data, keys)."""
    out = os.path.join(tmp, "out-%d.json" % idx)
    marker = os.path.join(tmp, "marker-%d" % idx)
    errp = os.path.join(tmp, "err-%d" % idx)
    work = os.path.join(tmp, "work-%d" % idx)
    for f in (out, marker, errp):
        if os.path.exists(f):
            os.unlink(f)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    env = dict(os.environ)
    env.update(ENV)
    env.update(r.get("env", {}))
    if "ASAN_OPTIONS_EXTRA" in env:
        env["ASAN_OPTIONS"] += ":" + env.pop("ASAN_OPTIONS_EXTRA")
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--marker", marker,
           "--mode", r.get("mode", ""), "--hang", str(r.get("hang", 60))]
    limit = r.get("timeout", 400 if tier == "quick" else 1500)
    t0 = time.time()
    with open(errp, "w") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=env, cwd=work, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    err = open(errp, errors="replace").read()
    if len(err) > 4000000:
        err = err[:2000000] + err[-2000000:]
    mark = ""
    if os.path.exists(marker):
        mark = open(marker, "rb").read().split(b"\0")[0].decode("latin-1")
    data = None
    if os.path.exists(out):
        data = json.load(open(out))
    keys = sanitizer_keys(r["san"], err)
    kind = mark.split(" ")[0] if mark else "?"
    status = "ok"
    if rc == "timeout":
        status = "timeout"
    elif rc == 98:
        status = "hang"
    elif rc != 0:
        status = "crash"
        if not keys:
            sig = "exit%s" % rc if (rc or 0) >= 0 else "signal%d" % -rc
            if "VH-TERMINATE" in err:
                sig = "terminate:" + re.sub(r"[0-9]+", "N", err.split("VH-TERMINATE\n", 1)[1].split("\n")[0][:60])
            elif "Assertion" in err:
                sig = "assertion"
            elif "ABRT on unknown" in err:
                sig = "abort"
            keys = [("crash:%s:%s" % (kind, sig), err[-4000:])]
        elif rc == 99 and data is None:
            pass
    elif data is None:
        status = "noout"
    return {"status": status, "rc": rc, "data": data, "keys": keys, "mark": mark, "kind": kind,
            "err": err, "wall": time.time() - t0, "cmd": cmd}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = checks.CHECKS[prop]
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop and not k.get("fixed")]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    repdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 2
    try:
        rc = decide(prop, tier, seed, t0, spec, known, repdir, tmp)
    except BuildError as e:
        log("BUILD-ERROR", e)
    except Exception:
        import traceback
        traceback.print_exc()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, t0, spec, known, repdir, tmp):
    b = Build(tmp)
    runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    progs = {}
    for r in runs:
        if "gen" in r:  # Generated sources: a Python callable (tmp, seed, tier, r) -> list of sources.
            r = r
            srcs = r["gen"](tmp, seed, tier, r)
        else:
            srcs = r["src"]
        key = (r["name"], r["san"])
        r["_srcs"] = srcs
        progs[key] = b.program(r["name"], srcs, r["san"], r.get("shim", spec.get("shim", False)),
                               r.get("flags", []) + spec.get("flags", []), r.get("libs", []))
    exes = {}
    broken = None
    for k in progs:
        try:
            exes[k] = progs[k]()
        except BuildError as e:
            # Compile-time computations that go wrong do not compile; only for checks that say so.
            if "build_violation" not in spec or ": error: " not in str(e):
                raise
            broken = str(e)
    build_s = time.time() - t0
    total = {"evaluations": 0, "distinct": 0, "samples": [], "stats": {}, "runs": []}
    keys = {}   # key -> (detail, replay info)
    if broken:
        keys[spec["build_violation"]] = (broken, "build", "")
    notes = []
    jobs = []
    for r in runs:
        if (r["name"], r["san"]) not in exes:
            continue
        n = r.get("repeat_thorough", r.get("repeat", 1)) if tier == "thorough" else r.get("repeat", 1)
        for i in range(n):
            jobs.append((r, exes[(r["name"], r["san"])], seed * 1000 + i if n > 1 else seed))

    def work(j):
        idx, (r, exe, s) = j
        res = run_one(prop, r, exe, tier, s, tmp, idx)
        if res["status"] in ("hang", "timeout"):
            first = res
            for k in range(r.get("hang_retries", 2)):
                res2 = run_one(prop, r, exe, tier, s, tmp, idx + 1000 * (k + 1))
                if res2["status"] in ("hang", "timeout"):
                    res2["hang_confirmed"] = (res2["status"], first["kind"], res2["kind"])
                    return r, s, res2
                res = res2
            res["hang_unconfirmed"] = first["mark"]
        return r, s, res
    with cf.ThreadPoolExecutor(spec.get("parallel", 1)) as ex:
        results = list(ex.map(work, enumerate(jobs)))
    failed = False
    for r, s, res in results:
        label = "%s/%s seed=%d" % (r["name"], r["san"], s)
        for k, detail in res["keys"]:
            keys.setdefault(k, (detail, label, res["mark"]))
        if "hang_confirmed" in res:
            k = "hang:" + res["kind"]
            keys.setdefault(k, ("no progress, twice\n" + res["err"][-3000:], label, res["mark"]))
        if "hang_unconfirmed" in res:
            notes.append("inconclusive: %s made no progress once at [%s], not on re-run" % (label, res["hang_unconfirmed"][:120]))
        if res["data"]:
            d = res["data"]
            total["evaluations"] += d["evaluations"]
            total["distinct"] += d["distinct"]
            total["samples"] += d["samples"][:6]
            for a, v in d["stats"].items():
                old = total["stats"].get(a, 0)
                total["stats"][a] = max(old, v) if re.match("(most|longest|largest) ", a) else old + v
            for v in d["violations"]:
                keys.setdefault(v["key"], ("count=%d\n%s" % (v["count"], v["detail"]), label, res["mark"]))
        elif not res["keys"] and "hang_confirmed" not in res:
            failed = True
            notes.append("no result from %s: %s rc=%s\n%s" % (label, res["status"], res["rc"], res["err"][-2000:]))
        total["runs"].append({"run": label, "status": res["status"], "wall_s": round(res["wall"], 1),
                              "evaluations": (res["data"] or {}).get("evaluations", 0)})
    known_keys = {k["key"]: k for k in known if not k.get("fixed")}
    new = {k: v for k, v in keys.items() if k not in known_keys}
    for k, f in known_keys.items():
        log("KNOWN-FINDING: property=%s %s%s" % (prop, f["what"], "" if k in keys else " (not driven in this run)"))
    for n in notes:
        log("NOTE:", n)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": total["distinct"],
                       "rule": spec["rule"], "samples": total["samples"][:12], "observed": total["stats"],
                       "runs": total["runs"], "known_findings_seen": sorted(k for k in keys if k in known_keys),
                       "notes": notes},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d evaluations, %d distinct, build %.0fs, total %.0fs" % (
        prop, tier, total["evaluations"], total["distinct"], build_s, time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        log(json.dumps(total["stats"], indent=1)); log(json.dumps(total["runs"]))
    if new:
        for i, (k, (detail, label, mark)) in enumerate(sorted(new.items())):
            path = os.path.join(repdir, "%s-%d.txt" % (prop, i))
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\nrun: %s (VERIF_SEED=%d VERIF_TIER=%s %s)\ncase: %s\n\n%s\n" % (
                    prop, k, label, seed, tier, "lib/run.py " + prop, mark, detail))
            log("violation key: %s  [%s]" % (k, label))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if failed:
        return 2
    if total["evaluations"] == 0 or total["distinct"] == 0:
        log("nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    main()
