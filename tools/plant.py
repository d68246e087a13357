#!/usr/bin/env python3
"""Developer tool (no check uses it): make or confirm planted bugs.

plant.py make ID < spec      spec: lines 'FILE', '<<<', old, '===', new, '>>>' (each old text occurs once in FILE)
plant.py confirm ID...       in a scratch copy: patch applies to original lines only, builds, stable tests pass,
                             the demonstration exits 0 without and non-zero with the patch
plant.py detect ID...        run the property's quick check (MC_REPO=scratch copy) and report the result
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(VERIF, "seeded")
WT = os.environ.get("PLANT_WT", "/tmp/wt")


def sh(c, cwd=WT, timeout=1800, env=None):
    return subprocess.run(["bash", "-c", c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                          timeout=timeout, env=dict(os.environ, **(env or {})))


def fresh():
    if not os.path.isdir(WT):
        subprocess.check_call(["cp", "-a", "/repo", WT])
        shutil.rmtree(os.path.join(WT, "_build"), ignore_errors=True)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    for n in ("build", "test"):
        t = open("/opt/vp/%s.sh" % n).read().replace("/repo", WT).replace("/opt/vp/build.sh", WT + ".build.sh")
        open("%s.%s.sh" % (WT, n), "w").write(t)


def make(i):
    fresh()
    spec = sys.stdin.read()
    for f, old, new in re.findall(r"^(\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>$", spec, re.S | re.M):
        p = os.path.join(WT, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    d = sh("git diff").stdout
    assert d, "empty"
    os.makedirs(os.path.join(S, i), exist_ok=True)
    open(os.path.join(S, i, "patch.diff"), "w").write(d)
    fresh()


def original(i):
    """every removed line must come from the base commit"""
    base = sh("git rev-list --max-parents=0 HEAD").stdout.strip()
    bad, f, n, ok = [], None, 0, 0
    blame = {}
    for l in open(os.path.join(S, i, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            blame[f] = sh("git blame -s --root -l HEAD -- " + f).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-") and not l.startswith("---"):
            b = blame[f][n - 1]
            (bad.append((f, n)) if not b.lstrip("^").startswith(base[:30]) else None)
            ok += 1
            n += 1
        elif f and l.startswith(" "):
            n += 1
    return bad, ok


def tests():
    r = sh("bash %s.test.sh %s.out.json" % (WT, WT))
    try:
        o = json.load(open(WT + ".out.json"))
    except Exception:
        return None, r.stdout[-2000:]
    return o, r.stdout[-2000:]


def demo(i):
    d = tempfile.mkdtemp(prefix="demo")
    for x in os.listdir(os.path.join(S, i)):
        if not x.endswith((".diff", ".patch")) and x != "meta.json":
            shutil.copy(os.path.join(S, i, x), d)
    t = time.time()
    r = sh("bash %s/demo.sh" % d, timeout=320)
    shutil.rmtree(d)
    return r.returncode, time.time() - t, r.stdout


def confirm(i):
    fresh()
    bad, ok = original(i)
    tests()
    c, t, out = demo(i)
    print(i, "clean demo:", c, "%.1fs" % t, "" if c == 0 else out[-600:])
    a = sh("git apply " + os.path.join(S, i, "patch.diff"))
    o, log = tests()
    p, t, out = demo(i)
    good = c == 0 and p != 0 and not a.returncode and o and not o["failed"] and len(o["passed"]) == 4 and not bad and ok
    print(i, "OK" if good else "BAD", "apply", a.returncode, a.stdout, "tests", (len(o["passed"]), o["failed"]) if o else log, "demo", p, out.strip().splitlines()[-1:], "nonoriginal", bad)
    fresh()


def detect(i, prop=None):
    fresh()
    prop = prop or json.load(open(os.path.join(S, i, "meta.json")))["property"]
    a = sh("git apply " + os.path.join(S, i, "patch.diff"))
    t = time.time()
    r = sh("./check %s --tier quick" % prop, cwd=VERIF, env={"MC_REPO": WT})
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%s %s: %s rc=%d %.0fs %s" % (i, prop, "CAUGHT" if r.returncode == 1 and any("property=%s " % prop in l for l in v) else "MISSED",
                                       r.returncode, time.time() - t, v[:1] or r.stdout[-600:]), flush=True)
    fresh()


if __name__ == "__main__":
    c, a = sys.argv[1], sys.argv[2:]
    if c == "make":
        make(a[0])
    elif c == "cross":
        fresh(); detect(a[0], a[1])
    else:
        for i in (a or sorted(os.listdir(S))):
            {"confirm": confirm, "detect": detect}[c](i)
