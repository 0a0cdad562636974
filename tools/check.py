#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree, runs it, writes its evidence file.

usage: check.py ID [--tier quick|thorough] [--seed N] [--facet F] [--scale X] [--build-only]
       check.py --replay FILE
"""
import argparse, json, os, re, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DRAFTER_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
import config


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(cid, fuzz=False):
    spec = config.CHECKS[cid]
    thread = spec.get("sanitizer") == "thread"
    flavour = "fuzz" if fuzz else "tsan" if thread else "san"
    bdir = os.path.join(HERE, "build", flavour + ("" if REPO == "/repo" else re.sub(r"\W", "_", REPO)))
    os.makedirs(bdir, exist_ok=True)
    flags = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-w", "-include", "cstdint",
             "-DDRAFTER_BUILD_STATIC=1", "-DREPO_ROOT=\\\"%s\\\"" % REPO,
             "-fsanitize=address,undefined", "-fno-sanitize=" + config.NO_SANITIZE,
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
    if thread:
        flags = [f for f in flags if "sanitize" not in f] + ["-fsanitize=thread"]
    if fuzz:
        flags += ["-fsanitize=fuzzer-no-link", "-DPBT_LIBFUZZER"]
    inc = []
    # generated Version.h
    gen = os.path.join(bdir, "gen")
    os.makedirs(gen, exist_ok=True)
    write_version(gen)
    for d in config.INCLUDES:
        inc.append("-I" + d.format(REPO=REPO, HERE=HERE, GEN=gen))
    out = ["ninja_required_version = 1.3",
           "rule cxx", "  command = clang++ $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
           "rule cc", "  command = clang $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
           "rule link", "  command = clang++ $flags $in -o $out $libs"]
    objs = []
    srcs = [os.path.join(HERE, "pbt/pbt.cc")]
    for g in spec["repo"]:
        for s in config.SOURCES[g]:
            srcs.append(os.path.join(REPO, "packages", s) if not s.startswith("@") else os.path.join(HERE, s[1:]))
    for s in spec["harness"]:
        srcs.append(os.path.join(HERE, s))
    seen = set()
    for s in srcs:
        if s in seen:
            continue
        seen.add(s)
        rel = os.path.relpath(s, "/").replace("/", "__")
        obj = os.path.join(bdir, "obj", rel + ".o")
        rule = "cc" if s.endswith(".c") else "cxx"
        fl = list(flags)
        if rule == "cc":
            fl = [f for f in fl if not f.startswith("-std=") and f not in ("-include", "cstdint")]
        extra = config.PER_SOURCE.get(os.path.basename(s), [])
        out.append("build %s: %s %s" % (esc(obj), rule, esc(s)))
        out.append("  flags = %s" % " ".join(fl + inc + extra))
        objs.append(obj)
    exe = os.path.join(bdir, cid)
    out.append("build %s: link %s" % (esc(exe), " ".join(esc(o) for o in objs)))
    out.append("  flags = " + ("-fsanitize=thread" if thread else "-fsanitize=address,undefined") + (" -fsanitize=fuzzer" if fuzz else ""))
    out.append("  libs = -lpthread")
    out.append("default %s" % esc(exe))
    nf = os.path.join(bdir, cid + ".ninja")
    with open(nf, "w") as f:
        f.write("builddir = %s\n" % esc(os.path.join(bdir, os.environ.get("PBT_NINJA_LOG") or "nj-" + cid)) + "\n".join(out) + "\n")
    t = time.time()
    r = sh(["ninja", "-C", bdir, "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        errs = [l[:400] for l in r.stdout.splitlines() if re.search(r"(error|undefined reference|ld:)", l) and "-std=" not in l]
        sys.stderr.write("\n".join(errs[:40]) + "\n" if errs else r.stdout[-3000:])
        sys.stderr.write("check.py: build of %s failed\n" % cid)
        sys.exit(2)
    return exe, time.time() - t


def write_version(gen):
    text = open(os.path.join(REPO, "packages/drafter/CMakeLists.txt")).read()
    m = re.search(r"project\(Drafter VERSION ((\d+)\.(\d+)\.(\d+))", text)
    ver = m.groups() if m else ("0.0.0", "0", "0", "0")
    src = open(os.path.join(REPO, "packages/drafter/src/Version.h.in")).read()
    rep = {"PROJECT_VERSION": ver[0], "PROJECT_VERSION_MAJOR": ver[1], "PROJECT_VERSION_MINOR": ver[2],
           "PROJECT_VERSION_PATCH": ver[3]}
    src = re.sub(r"@(\w+)@", lambda k: rep.get(k.group(1), ""), src)
    src = re.sub(r"\$\{(\w+)\}", lambda k: rep.get(k.group(1), ""), src)
    src = re.sub(r"#cmakedefine01 (\w+)", r"#define \1 1", src)
    src = re.sub(r"#cmakedefine (\w+)", r"#define \1", src)
    p = os.path.join(gen, "Version.h")
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--facet")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--setup", action="store_true", help="only see that the tools are there")
    ap.add_argument("--fuzz", type=int, default=0, help="seconds of coverage-guided search")
    a = ap.parse_args()
    t0 = time.time()
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_container_overflow=1:symbolize=%d:malloc_context_size=8" % (1 if a.replay or os.environ.get("PBT_SYM") else 0)
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:symbolize=%s" % (1 if a.replay else 0)
    env["TSAN_OPTIONS"] = "halt_on_error=1:die_after_fork=0:exitcode=86:handle_abort=0:history_size=4:symbolize=%d" % (1 if a.replay else 0)
    env["LC_ALL"] = "C.UTF-8"
    env["PBT_REPO"] = REPO
    env["PBT_HERE"] = HERE
    if a.setup:
        for t in ("clang", "clang++", "ninja"):
            if not shutil.which(t):
                sys.exit("check.py: %s is missing" % t)
        return
    if a.replay:
        cid = re.search(r"^property (\w+)", open(a.replay).read(), re.M).group(1)
        exe, _ = build(cid)
        sys.exit(sh([exe, "--property", cid, "--replay", a.replay, "--known", os.path.join(HERE, "known_findings.txt")], env=env).returncode)
    cid = a.id
    spec = config.CHECKS[cid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    exe, bsec = build(cid)
    if a.build_only:
        return
    tmp = os.path.join(HERE, "build", "run-%s-%d.json" % (cid, os.getpid()))
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    cmd = [exe, "--property", cid, "--seed", str(seed), "--tier", tier, "--out", tmp, "--replay-dir", replays,
           "--known", os.path.join(HERE, "known_findings.txt"), "--scale", a.scale,
           "--cap", str(spec.get("cap", 60))]
    if tier == "thorough":
        cmd += ["--budget", str(spec.get("budget", 640))]
    if a.facet:
        cmd += ["--facet", a.facet]
    r = sh(cmd, env=env)
    rc = r.returncode
    if rc not in (0, 1) or not os.path.exists(tmp):
        sys.stderr.write("check.py: harness of %s ended with %d\n" % (cid, rc))
        sys.exit(2)
    data = json.load(open(tmp))
    os.unlink(tmp)
    fuzzinfo = None
    if rc == 0 and tier == "thorough" and not a.facet and (a.fuzz or spec.get("fuzz_seconds", 60)):
        fuzzinfo, frc = fuzz(cid, a.fuzz or spec.get("fuzz_seconds", 60), seed, env, replays, exe)
        rc = rc or frc
    samples = []
    for k in range(3):
        for f in data["facets"]:
            if k < len(f["samples"]) and len(samples) < 12:
                samples.append({"facet": f["name"], "case": f["samples"][k]})
    for f in data["facets"]:
        f.pop("samples")
    rule = "; ".join("%s: %s" % (f["name"], f["rule"]) for f in data["facets"])
    cov = {"evaluations": data["evaluations"], "distinct_nontrivial": data["distinct_nontrivial"], "rule": rule,
           "samples": samples, "facets": data["facets"]}
    if fuzzinfo:
        cov["coverage_guided"] = fuzzinfo
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + config.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": data["violations"] + (1 if fuzzinfo and fuzzinfo.get("violations") else 0)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    sys.stderr.write("%s %s seed=%d: build %.1fs total %.1fs rc=%d\n" % (cid, tier, seed, bsec, time.time() - t0, rc))
    sys.exit(rc)


def fuzz(cid, seconds, seed, env, replays, exe):
    """libFuzzer over the same choice sequences; a hit is confirmed by the ordinary binary before it counts"""
    fexe, _ = build(cid, fuzz=True)
    import tempfile
    work = tempfile.mkdtemp(prefix="pbtfuzz.")
    info = {"seconds": seconds, "executions": 0, "violations": 0, "crash_files": 0}
    rc = 0
    try:
        facets = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=env).stdout.split()
        procs = []
        n = 8
        d = os.path.join(work, "corpus")
        os.makedirs(d)
        for i in range(n):
            e = dict(env)
            e["PBT_PROPERTY"] = cid
            e["PBT_KNOWN"] = os.path.join(HERE, "known_findings.txt")
            e["PBT_REPLAYS"] = os.path.join(work, "r%d" % i)
            os.makedirs(e["PBT_REPLAYS"])
            log = open(os.path.join(work, "log%d" % i), "w")
            procs.append(subprocess.Popen([fexe, d, "-seed=%d" % (seed * 100 + i + 1), "-max_total_time=%d" % seconds,
                                           "-max_len=4096", "-len_control=20", "-artifact_prefix=%s/a%d-" % (work, i),
                                           "-print_final_stats=1", "-timeout=40", "-rss_limit_mb=3500", "-verbosity=0"],
                                          stdout=log, stderr=log, env=e, cwd=work))
        for p in procs:
            p.wait()
        for i in range(n):
            t = open(os.path.join(work, "log%d" % i), errors="replace").read()
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
            if m:
                info["executions"] += int(m.group(1))
            for rp in os.listdir(os.path.join(work, "r%d" % i)):
                src = os.path.join(work, "r%d" % i, rp)
                ok = all(subprocess.run([exe, "--property", cid, "--replay", src, "--known",
                                         os.path.join(HERE, "known_findings.txt")], env=env,
                                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1
                         for _ in range(3))
                if ok:
                    dst = os.path.join(replays, rp)
                    shutil.copy(src, dst)
                    print("VIOLATION property=%s replay=%s" % (cid, dst), flush=True)
                    info["violations"] += 1
                    rc = 1
            for art in os.listdir(work):
                if art.startswith("a%d-" % i) and ("crash" in art):
                    # turn the bytes into choices and confirm
                    info["crash_files"] += 1
                    rp = bytes_to_replay(cid, facets, os.path.join(work, art), work)
                    ok = all(subprocess.run([exe, "--property", cid, "--replay", rp, "--known",
                                             os.path.join(HERE, "known_findings.txt")], env=env,
                                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1
                             for _ in range(3)) if rp else False
                    if ok:
                        dst = os.path.join(replays, os.path.basename(rp))
                        shutil.copy(rp, dst)
                        print("VIOLATION property=%s replay=%s" % (cid, dst), flush=True)
                        info["violations"] += 1
                        rc = 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return info, rc


def bytes_to_replay(cid, facets, path, work):
    b = open(path, "rb").read()
    if len(b) < 2:
        return None
    out = os.path.join(work, "%s-bytes-%s.replay" % (cid, os.path.basename(path)[-8:]))
    with open(out, "w") as f:
        f.write("property %s\nfacet %s\ntier thorough\nbytes %s\n" % (cid, facets[b[0] % len(facets)], b[1:].hex()))
    return out


if __name__ == "__main__":
    main()
