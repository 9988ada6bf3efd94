#!/usr/bin/env python3
"""tryseed.py ID [--check]: validates /verif/seeded/ID in a scratch copy of /repo (build, tests, demo both ways);
with --check also runs the property's check against the patched copy (VERIF_REPO)."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
def run(cmd, cwd, t=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, env=env)
    return p.returncode, p.stdout
for i in [a for a in sys.argv[1:] if not a.startswith("-")]:
    s = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(s, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-")
    w = os.path.join(tmp, "repo"); d = os.path.join(tmp, "demo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", w]); shutil.copytree(s, d)
        for x in ("patch.diff", "meta.json"): os.unlink(os.path.join(d, x))
        # demos run in /repo itself (unpatched) and in the copy (patched)
        r0, o0 = run(["bash", os.path.join(d, "demo.sh")], "/repo", 300)
        rc, o = run(["git", "apply", os.path.join(s, "patch.diff")], w)
        if rc: print(i, "PATCH DOES NOT APPLY", o); continue
        r1, o1 = run(["bash", os.path.join(d, "demo.sh")], w, 300)
        print("%s demo clean=%d patched=%d %s" % (i, r0, r1, "OK" if r0 == 0 and r1 else "BAD"), "|", o1.strip()[-150:].replace("\n", " / "), flush=True)
        if r0: print(o0[-2000:])
        if "--tests" in sys.argv:
            subprocess.check_call(["git", "-C", "/repo", "apply", os.path.join(s, "patch.diff")])
            try:
                rb, ob = run(["bash", "/opt/vp/build.sh"], "/repo")
                rt, ot = run(["bash", "/opt/vp/test.sh", os.path.join(tmp, "o.json")], "/repo")
                j = json.load(open(os.path.join(tmp, "o.json")))
                base = json.load(open("/opt/vp/BASELINE.json"))
                print("   build rc=%d tests passed=%d failed=%d" % (rb, len(j["passed"]), len(j["failed"])), flush=True)
            finally:
                subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
                run(["bash", "/opt/vp/build.sh"], "/repo")
        if "--check" in sys.argv:
            env = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
            rc, o = run(["python3", V + "/lib/run.py", meta["property"]], V, 900, env)
            print("   check %s rc=%d %s" % (meta["property"], rc, "CAUGHT" if rc == 1 and "VIOLATION property=" + meta["property"] in o else "MISSED"), [l for l in o.split("\n") if "key:" in l][:3], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
