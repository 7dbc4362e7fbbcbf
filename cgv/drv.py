"""Builds and runs the replay drivers: small programs over the real, current code of /repo, executed under a
deterministic scheduler with virtual time (replay/sched.cpp).  They look for a concrete failing input or schedule."""
import hashlib, os, subprocess, sys, tempfile, time, shutil
from .fe import REPO, VERIF, BUILD

FLAGS = ["-std=c++11", "-O1", "-g1", "-w", "-D_ENABLE_LIKELY_", "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "replay")]
TSAN = ["-fsanitize=thread"]


def srcs():
    out = []
    for b, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        out += [os.path.join(b, f) for f in sorted(fs) if f.endswith(".cpp")]
    return out


def allsrc_hash(*extra):
    h = hashlib.sha256()
    for b, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(os.path.join(b, f), "rb").read())
    for f in extra: h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


class Driver:
    def __init__(self, name): self.name = name; self.log = ""; self.bin = None
    def build(self):
        src = os.path.join(VERIF, "replay", self.name + ".cpp"); sch = os.path.join(VERIF, "replay", "sched.cpp")
        hdr = os.path.join(VERIF, "replay", "drv.h")
        key = allsrc_hash(src, sch, *[os.path.join(VERIF, "replay", h) for h in sorted(os.listdir(os.path.join(VERIF, "replay"))) if h.endswith(".h")])
        d = os.path.join(BUILD, "drv"); os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "%s-%s" % (self.name, key))
        if os.path.exists(out): self.bin = out; return True
        libo = os.path.join(d, "lib-%s.o" % allsrc_hash(hdr))
        td = tempfile.mkdtemp(dir=d)
        try:
            ps = []
            if not os.path.exists(libo):
                u = os.path.join(td, "unity.cpp")
                open(u, "w").write("".join('#include "%s"\n' % s for s in srcs()))
                ps.append(("lib", subprocess.Popen(["g++"] + FLAGS + TSAN + ["-c", u, "-o", os.path.join(td, "lib.o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            ps.append(("driver", subprocess.Popen(["g++"] + FLAGS + TSAN + ["-fno-access-control", "-c", src, "-o", os.path.join(td, "d.o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            ps.append(("sched", subprocess.Popen(["g++"] + FLAGS + ["-O2", "-c", sch, "-o", os.path.join(td, "s.o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            for n, p in ps:
                o, _ = p.communicate()
                if p.returncode != 0: self.log = "%s does not compile: %s" % (n, o[:1500]); return False
            if os.path.exists(os.path.join(td, "lib.o")): os.replace(os.path.join(td, "lib.o"), libo)
            p = subprocess.run(["g++", "-rdynamic", os.path.join(td, "d.o"), libo, os.path.join(td, "s.o"), "-o", os.path.join(td, "bin"), "-ldl", "-lpthread"], capture_output=True, text=True)
            if p.returncode != 0: self.log = "link: " + p.stderr[:1500]; return False
            for old in os.listdir(d):
                if old.startswith(self.name + "-"): os.unlink(os.path.join(d, old))
            os.replace(os.path.join(td, "bin"), out); self.bin = out
            return True
        finally: shutil.rmtree(td, ignore_errors=True)
    def run(self, seed, seconds, only=None):
        """-> dict(evaluations, distinct, samples, fails=[(key, text)], note)"""
        res = {"evaluations": 0, "distinct": 0, "samples": [], "fails": [], "note": "", "scenarios": {}}
        wd = tempfile.mkdtemp(prefix="cgdrv")
        try:
            env = dict(os.environ); env["DRV_SEED"] = str(seed); env["DRV_SECONDS"] = str(seconds)
            if only: env["DRV_ONLY"] = only
            try: p = subprocess.run([self.bin], cwd=wd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=seconds * 3 + 60)
            except subprocess.TimeoutExpired: res["note"] = "driver ran out of time"; return res
            err = p.stderr.decode(errors="replace"); cur = "?"
            for l in err.splitlines():
                if l.startswith("@CUR "): cur = l[5:]
                elif l.startswith("@RUN "):
                    _, n, a, b = l.split(" ", 3); res["scenarios"][n] = (int(a), int(b)); res["evaluations"] += int(a); res["distinct"] += int(b)
                elif l.startswith("@SAMPLE "): res["samples"].append(l[8:])
                elif l.startswith("@FAIL "):
                    k, _, t = l[6:].partition(" | "); res["fails"].append((k, t))
                elif l.startswith("@NOTE "): res["note"] += l[6:] + "; "
            if p.returncode not in (0, 1) and not any(True for _ in res["fails"]):
                if p.returncode < 0 and -p.returncode in (4, 6, 7, 8, 11): res["fails"].append(("crash:" + cur.split(" ")[0], "the program was killed by signal %d in scenario %s" % (-p.returncode, cur)))
                else: res["note"] += "driver ended with %d in %s; " % (p.returncode, cur)
            res["log"] = err[-6000:]
            return res
        finally: shutil.rmtree(wd, ignore_errors=True)
