"""mk(id, prop, [(file, old, new)...], needs, breaks, demo_cpp, shim=False, san='', extra='') writes /verif/seeded/id."""
import json, os, subprocess, tempfile, shutil
def mk(id, prop, edits, needs, breaks, demo, shim=False, flags="", timeout=100):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    subprocess.check_call("git -C /repo archive HEAD src | tar x -C " + tmp, shell=True)
    subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=tmp)
    for f, old, new in edits:
        p = os.path.join(tmp, "src/arpc", f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=tmp, text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(tmp)
    open(d + "/demo.cpp", "w").write(demo)
    if shim: shutil.copytree("/verif/shim", d + "/shim", dirs_exist_ok=True)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# Run in the root of the repository; exits 0 if the property holds for this demonstration.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
SAN="%s"
INC="-Isrc%s"
ls src/arpc/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -fno-rtti -O1 -g1 -w '"$SAN"' '"$INC"' -c {} -o '"$work"'/$(basename {}).o 2>'"$work"'/$(basename {}).log || true'
ar rcs "$work/libarpc.a" "$work"/*.o
g++ -std=c++17 -fno-rtti -O1 -g1 -w $SAN $INC "$here/demo.cpp" "$work/libarpc.a" -pthread -o "$work/demo" || exit 3
cd "$work" && timeout %d ./demo
''' % (flags, ' -I$here/shim' if shim else '', timeout))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
