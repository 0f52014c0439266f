#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree and runs one check.

  run.py check ID            decide property ID (VERIF_SEED, VERIF_TIER)
  run.py replay ID FILE      run one recorded counterexample again
  run.py build [ID ...]      build everything (or what ID needs)
  run.py list                the registered properties

Exit status of check and replay: 0 held, 1 violated (with a VIOLATION line),
2 something of the check's own went wrong.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = max(1, os.cpu_count() or 1)

LIBFLAGS = ["-g", "-fPIC", "-fexceptions", "-w", "-I" + HERE + "/engine", "-I" + REPO + "/src",
            "-DGSLIB_UNDERSCORE", "-DGSLIB_PREFIX=gslib_", "-DGSLIB_FPREFIX=fgslib_",
            "-DGSLIB_USE_GLOBAL_LONG_LONG", "-Dexit=verif_exit_hook", "-Dmalloc=verif_malloc",
            "-Dcalloc=verif_calloc", "-Drealloc=verif_realloc", "-Dfree=verif_free"]
SAN = "-fsanitize=address,bounds,null,alignment,shift-exponent,integer-divide-by-zero,object-size,vla-bound"
ASAN = ["-O1", "-ftrivial-auto-var-init=pattern", SAN, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
MPI, NBC, NAIVE, CBLAS = "-DGSLIB_USE_MPI", "-DGSLIB_USE_NBC", "-DGSLIB_USE_NAIVE_BLAS", "-DGSLIB_USE_CBLAS"
VARIANTS = {   # name -> (compile flags, link flags)
    "asan-nbc":  (ASAN + [MPI, NBC, NAIVE], [SAN]),
    "asan-def":  (ASAN + [MPI, NAIVE], [SAN]),
    "fast-nbc":  (["-O2", MPI, NBC, NAIVE], []),
    "fast-def":  (["-O2", MPI, NAIVE], []),
    "fast-blas": (["-O2", MPI, CBLAS], ["-lopenblas"]),
    "asan-mxm":  (ASAN + [MPI], [SAN]),
    "asan-ser":  (ASAN + [NAIVE], [SAN]),
    "asan-usr":  (ASAN + [MPI, NAIVE, "-DGSLIB_USE_USR_EXIT"], [SAN]),   # the program ends through the application's handler
    # other integer widths: local/global int/int, int/long, long/long, long long/long long
    "asan-i32":  (ASAN + [MPI, NBC, NAIVE, "-UGSLIB_USE_GLOBAL_LONG_LONG"], [SAN]),
    "asan-gl":   (ASAN + [MPI, NAIVE, "-UGSLIB_USE_GLOBAL_LONG_LONG", "-DGSLIB_USE_GLOBAL_LONG"], [SAN]),
    "asan-l64":  (ASAN + [MPI, NBC, NAIVE, "-UGSLIB_USE_GLOBAL_LONG_LONG", "-DGSLIB_USE_LONG", "-DGSLIB_USE_GLOBAL_LONG"], [SAN]),
    "asan-ll":   (ASAN + [MPI, NAIVE, "-DGSLIB_USE_LONG_LONG"], [SAN]),
}
if os.environ.get("VERIF_COV"):   # which lines of the library the checks reach (tools/coverage.sh)
    LIBFLAGS, BUILD = LIBFLAGS + ["--coverage", "-fprofile-update=atomic", "-DVERIF_COV"], os.environ["VERIF_COV"]
COPIES = 20
CXX = ["g++", "-std=c++17", "-O1", "-g", "-Wall", "-I" + HERE + "/engine"]


class Trouble(Exception):
    pass


def groups():
    """props/*.cpp, each starting with '// props: ...' and '// variants: ...'"""
    g = {}
    for f in sorted(glob.glob(HERE + "/props/*.cpp")):
        head = open(f).read(600)
        ids = re.search(r"^// props: (.*)$", head, re.M).group(1).split()
        var = re.search(r"^// variants: (.*)$", head, re.M).group(1).split()
        g[os.path.basename(f)[:-4]] = (f, ids, var)
    return g


def group_of(pid):
    for name, (f, ids, var) in groups().items():
        if pid in ids:
            return name
    raise Trouble("no check for property " + pid)


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def sh(cmd):
    cache = os.environ.get("VERIF_OBJCACHE")   # used by tools/mutate.py only
    if cache and "-c" in cmd and cmd[0] == "gcc":
        e = subprocess.run(cmd[:cmd.index("-c")] + ["-E", "-P", cmd[cmd.index("-c") + 1]], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        k = "%s/%s.o" % (cache, hashlib.sha256(e.stdout + repr([x for x in cmd if not x.startswith("/")]).encode()).hexdigest()[:24])
        if e.returncode == 0:
            if os.path.exists(k):
                shutil.copyfile(k, cmd[-1])
                return
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                os.makedirs(cache, exist_ok=True)
                shutil.copyfile(cmd[-1], k)
                return
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Trouble("command failed: " + " ".join(cmd) + "\n" + r.stdout[-3000:])


def sources():
    s = [f for f in glob.glob(REPO + "/src/*.c") if not os.path.basename(f).startswith("gen_")]
    return sorted(s)


def prepare(names):
    """Build the given groups and the library variants they use."""
    gs = groups()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hdrs = glob.glob(REPO + "/src/*.h")
    eng = glob.glob(HERE + "/engine/*")
    shim = glob.glob(HERE + "/shim/*.c")
    compilers = subprocess.run(["gcc", "--version"], stdout=subprocess.PIPE, text=True).stdout
    out, objs, libs, exes = {}, [], [], []
    keep = set()
    variants = sorted({v for n in names for v in gs[n][2]})
    for v in variants:
        cf, lf = VARIANTS[v]
        d = "%s/lib-%s-%s" % (BUILD, v, digest(sources() + hdrs + shim + [HERE + "/engine/mpi.h"], LIBFLAGS, cf, lf, compilers, COPIES))
        keep.add(d)
        out[v] = ["%s/%d/libgs.so" % (d, r) for r in range(COPIES)]
        if os.path.exists(d + "/.done"):
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/o")
        srcs = sources() + shim
        os_ = ["%s/o/%s.o" % (d, os.path.basename(s)[:-2]) for s in srcs]
        objs += [["gcc"] + LIBFLAGS + cf + ["-c", s, "-o", o] for s, o in zip(srcs, os_)]
        libs.append((d, ["gcc", "-shared", "-Wl,-Bsymbolic"] + os_ + ["-o", d + "/libgs.so"] + lf + (["--coverage"] if os.environ.get("VERIF_COV") else []) + ["-lm"]))
    ed = "%s/engine-%s" % (BUILD, digest(eng, CXX, compilers))
    keep.add(ed)
    if not os.path.exists(ed + "/.done"):
        shutil.rmtree(ed, ignore_errors=True)
        os.makedirs(ed)
        for f in ("engine", "mockmpi"):
            objs.append(CXX + ["-c", HERE + "/engine/%s.cpp" % f, "-o", "%s/%s.o" % (ed, f)])
    for n in names:
        src = gs[n][0]
        extra = glob.glob(HERE + "/props/*.hpp")
        d = "%s/%s-%s" % (BUILD, n, digest(eng + [src] + extra, CXX, compilers))
        keep.add(d)
        out[n] = d + "/run"
        if os.path.exists(d + "/.done"):
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        objs.append(CXX + ["-c", src, "-o", d + "/p.o"])
        exes.append((d, ["g++", "-rdynamic", "-fsanitize=address", d + "/p.o", ed + "/engine.o", ed + "/mockmpi.o", "-o", d + "/run", "-ldl"]))
    # slowest first
    objs.sort(key=lambda c: 0 if c[0] == "g++" else 1)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(sh, objs):
            pass
        open(ed + "/.done", "w").close()
        for r in ex.map(lambda x: sh(x[1]), libs + exes):
            pass
    for d, _ in libs:   # one file per rank, so that each rank has its own globals
        for r in range(COPIES):
            os.makedirs("%s/%d" % (d, r), exist_ok=True)
            shutil.copyfile(d + "/libgs.so", "%s/%d/libgs.so" % (d, r))
        if not os.environ.get("VERIF_COV"):
            shutil.rmtree(d + "/o", ignore_errors=True)
    for d, _ in libs + exes:
        open(d + "/.done", "w").close()
    # drop stale builds
    now = time.time()
    for d in glob.glob(BUILD + "/*-*"):
        if d not in keep and os.path.isdir(d) and now - os.path.getmtime(d) > 6 * 3600:
            shutil.rmtree(d, ignore_errors=True)
    lock.close()
    return out


def findings():
    known, path = {}, HERE + "/KNOWN_FINDINGS.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m:
                known.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return known


def command(pid, built):
    exe = built[group_of(pid)]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:detect_stack_use_after_return=0:"
               "allocator_may_return_null=1:hard_rss_limit_mb=3000:handle_abort=1:exitcode=99",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C", MALLOC_ARENA_MAX="1")
    lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=env).stdout
    for line in lst.splitlines():
        w = line.split()
        if w[0] == pid:
            cmd = [exe, "--prop", pid]
            for v in w[2:]:
                cmd += ["--variant", v + "=" + ",".join(built[v][:int(w[1])])]
            k = [k for k, _ in findings().get(pid, [])]
            if k:
                cmd += ["--known", ",".join(k)]
            return cmd, env
    raise Trouble("property %s is not registered in %s" % (pid, exe))


def check(pid, extra):
    t0 = time.time()
    built = prepare([group_of(pid)])
    print("%s: built in %.1f s" % (pid, time.time() - t0), flush=True)
    cmd, env = command(pid, built)
    seed, tier = os.environ.get("VERIF_SEED", "1"), os.environ.get("VERIF_TIER", "quick")
    if not re.match(r"^\d+$", seed):
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:12], 16))
    evid = os.environ.get("VERIF_EVIDENCE_DIR", HERE + "/evidence")
    os.makedirs(evid, exist_ok=True)
    os.makedirs(HERE + "/replays", exist_ok=True)
    cmd += ["--tier", tier, "--seed", seed, "--evidence", "%s/%s.json" % (evid, pid), "--outdir", HERE + "/replays", "--workers", str(JOBS)]
    cmd += extra
    for attempt in range(2):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=env)
        if r.returncode in (0, 1):
            break
        print("attempt %d ended with status %d\n%s" % (attempt + 1, r.returncode, r.stdout[-2000:]), flush=True)
    sys.stdout.write(r.stdout)
    if r.returncode in (0, 1):
        for k, text in findings().get(pid, []):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    sys.stdout.flush()
    return r.returncode if r.returncode in (0, 1) else 2


def main(a):
    if a[:1] == ["check"] and len(a) >= 2:
        return check(a[1], a[2:])
    if a[:1] == ["replay"] and len(a) == 3:
        cmd, env = command(a[1], prepare([group_of(a[1])]))
        return subprocess.run(cmd + ["--tier", os.environ.get("VERIF_TIER", "quick"), "--replay", a[2]], env=env).returncode
    if a[:1] == ["build"]:
        names = sorted({group_of(p) for p in a[1:]}) if a[1:] else list(groups())
        prepare(names)
        return 0
    if a == ["list"]:
        for n, (f, ids, var) in groups().items():
            print(n, *ids)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Trouble as e:
        print("verif: " + str(e), file=sys.stderr)
        sys.exit(2)
