#!/usr/bin/env python3
"""Development helper for planted bugs (not a check): works on a scratch copy of /repo.
usage: seed.py verify ID...   builds and tests with the patch, runs the demo with and without it
       seed.py detect ID...   runs the property's quick check against the patched copy
       seed.py make ID < edits   edits: lines 'FILE', then '<<<', old, '===', new, '>>>'"""
import json, os, subprocess, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
R = W + "/repo"


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        run("cp -a /repo " + R)
    run("git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (R, R, R))


def make(i):
    fresh()
    t = sys.stdin.read()
    for f, old, new in re.findall(r"^(\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>$", t, re.S | re.M):
        p = R + "/packages/" + f
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches of %r" % (f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    os.makedirs(HERE + "/seeded/" + i, exist_ok=True)
    d = run("git -C %s diff" % R).stdout
    assert d
    open(HERE + "/seeded/%s/patch.diff" % i, "w").write(d)


def build_test(tag):
    # the build scripts name /repo: the copy is built by its own copy of their lists
    gen = W + "/cmake"
    run("cp -a /opt/vp/cmake %s && sed -i 's|/repo/|%s/|g' %s/CMakeLists.txt" % (gen + ".new", R, gen + ".new"))
    run("[ -d %s ] || mv %s.new %s; rm -rf %s.new" % (gen, gen, gen, gen))
    b = run("export CC=gcc CXX=g++ LC_ALL=C.UTF-8; rm -f %s/_build/CMakeCache.txt; cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo && ninja -C %s/_build" % (R, gen, R, R))
    if b.returncode:
        return "build failed\n" + b.stdout[-3000:]
    bad = []
    for t in ("apib-test", "apib-parser-test", "drafter-test"):
        r = run("%s/_build/%s" % (R, t), cwd=R)
        m = re.search(r"(\d+) failed", "\n".join(r.stdout.strip().split("\n")[-3:]))
        bad.append("%s: %s" % (t, " ".join(r.stdout.strip().split("\n")[-2:])))
    return "\n".join(bad)


def demo(i):
    return run("cp -a %s/seeded/%s %s/demo && rm -f %s/demo/patch.diff %s/demo/meta.json; cd %s && timeout 300 sh -c 'sed -i s@/repo/@%s/@g %s/demo/demo.sh; bash %s/demo/demo.sh'; r=$?; rm -rf %s/demo; exit $r" % (HERE, i, W, W, W, R, R, W, W, W))


BASE = None


def verify(i):
    global BASE
    fresh()
    BASE = BASE or build_test("a")
    if "failed\n" in BASE:
        sys.exit(BASE)
    build_test("a")
    r0 = demo(i)
    a = run("git -C %s apply %s/seeded/%s/patch.diff" % (R, HERE, i))
    t = build_test("b")
    r1 = demo(i)
    ok = r0.returncode == 0 and r1.returncode != 0 and t == BASE and not a.returncode
    print(i, "ok" if ok else "BAD")
    if not ok:
        print("  demo unchanged:", r0.returncode, r0.stdout[-600:] if r0.returncode else "")
        print("  demo patched:", r1.returncode, r1.stdout[-300:])
        if t != BASE or a.returncode:
            print("  tests:", t, "was", BASE, a.stdout)
    fresh()


def detect(i):
    fresh()
    a = run("git -C %s apply %s/seeded/%s/patch.diff" % (R, HERE, i))
    p = json.load(open(HERE + "/seeded/%s/meta.json" % i))["property"]
    for x in sys.argv[3:] if len(sys.argv) > 3 and sys.argv[3].startswith("@") else [p]:
        x = x.lstrip("@")
        r = run("DRAFTER_REPO=%s VERIF_SEED=1 python3 %s/tools/check.py %s --tier quick" % (R, HERE, x))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION") or l.startswith("  facet")]
        print("%-28s %s rc=%d %s" % (i, x, r.returncode, "; ".join(v)[:230] if v else r.stdout[-300:] if r.returncode else "MISSED"))
    fresh()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("@")] or sorted(os.listdir(HERE + "/seeded"))
        for i in ids:
            {"verify": verify, "detect": detect}[sys.argv[1]](i)
