#!/usr/bin/env python3
"""plant.py <module.py>: creates and confirms planted bugs.  Each module defines BUGS = [dict(id, property, edits=[(file, old, new)],
demo=<C++ text or path of a replay driver>, needs, what, seconds)].  A bug is kept only when it builds, passes the stable tests, and its demo
passes on the unchanged tree and fails with it."""
import json, os, shutil, subprocess, sys, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the demonstrated behaviour is right; non-zero: broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 0; trap 'rm -rf "$T"' EXIT
R=$PWD
for f in $(find "$R/src" -name '*.cpp' | sort); do echo "#include \\"$f\\""; done > "$T/unity.cpp"
g++ -std=c++11 -O1 -w -D_ENABLE_LIKELY_ %(san)s -I "$R/src" -I "$D" -c "$T/unity.cpp" -o "$T/lib.o" & P1=$!
g++ -std=c++11 -O1 -w -D_ENABLE_LIKELY_ %(san)s -fno-access-control -I "$R/src" -I "$D" -c "$D/demo.cpp" -o "$T/demo.o" & P2=$!
%(sched)s
wait $P1 || exit 3; wait $P2 || exit 3
g++ "$T/demo.o" "$T/lib.o" %(slink)s -o "$T/demo" -ldl -lpthread || exit 3
cd "$T" && %(env)s timeout 200 ./demo > out.txt 2>&1; rc=$?
tail -5 out.txt
exit $rc
'''
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
def demo_dir(b, d):
    os.makedirs(d, exist_ok=True)
    txt = b["demo"]; drv = b.get("sched", True)
    if txt.startswith("replay:"):
        name, _, rest = txt[7:].partition(":"); txt = open(os.path.join(V, "replay", name + ".cpp")).read(); b.setdefault("only", rest)
    open(os.path.join(d, "demo.cpp"), "w").write(txt)
    if drv:
        for f in ("drv.h", "graph.h", "sched.cpp") + tuple(h for h in os.listdir(os.path.join(V, "replay")) if h.endswith(".h") and h not in ("drv.h", "graph.h") and '"%s"' % h in txt): shutil.copy(os.path.join(V, "replay", f), d)
    env = "DRV_SEED=%d DRV_SECONDS=%s%s" % (b.get("seed", 1), b.get("seconds", 12), " DRV_ONLY=" + b["only"] if b.get("only") else "") if drv else ""
    s = DEMO % {"san": "-fsanitize=thread" if drv else "", "sched": 'g++ -std=c++11 -O2 -w -I "$D" -c "$D/sched.cpp" -o "$T/sched.o" || exit 3' if drv else "", "slink": '"$T/sched.o"' if drv else "", "env": env}
    p = os.path.join(d, "demo.sh"); open(p, "w").write(s); os.chmod(p, 0o755)
def main():
    sp = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    only = sys.argv[2:]
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        dst = os.path.join(V, "seeded", b["id"])
        if os.path.exists(dst) and not only: continue
        w = tempfile.mkdtemp(prefix="plant", dir="/tmp"); r = os.path.join(w, "repo")
        try:
            sh("cp -a /repo %s" % r, "/tmp")
            ok = True
            for f, a, c in b["edits"]:
                p = os.path.join(r, f); s = open(p).read()
                if s.count(a) != 1: print(b["id"], "EDIT does not apply (%d matches)" % s.count(a), f, a[:60]); ok = False; break
                open(p, "w").write(s.replace(a, c))
            if not ok: continue
            diff = sh("git diff", r).stdout
            sd = os.path.join(w, "demo"); demo_dir(b, sd)
            x = sh("bash %s/demo.sh" % sd, "/repo")
            if x.returncode != 0: print(b["id"], "DEMO fails on the unchanged tree:", x.returncode, x.stdout[-600:], x.stderr[-600:]); continue
            y = sh("bash %s/demo.sh" % sd, r)
            if y.returncode == 0: print(b["id"], "DEMO passes with the bug", y.stdout[-300:]); continue
            if y.returncode == 3: print(b["id"], "DEMO does not compile with the bug", y.stderr[-800:]); continue
            if not b.get("skiptests"):
                # the test script works on /repo: show it the copy there, in a mount namespace of its own
                t = sh("unshare -m bash -c 'mount --bind %s /repo && bash /opt/vp/build.sh >/dev/null 2>%s/b.err && bash /opt/vp/test.sh %s/o.json'" % (r, w, w), "/tmp")
                bb = t
                last = (t.stdout.strip().splitlines() or ["?"])[-1]
                if " 0 failed" not in last: print(b["id"], "TESTS:", last, [l for l in t.stdout.splitlines() if l.startswith("FAIL")][:5]); continue
            shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
            for f in os.listdir(sd): shutil.copy(os.path.join(sd, f), dst)
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
            print(b["id"], "KEPT;", y.stdout.strip().splitlines()[-1][:200] if y.stdout.strip() else y.returncode)
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()
