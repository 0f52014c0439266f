#!/usr/bin/env python3
"""mutate.py WORKDIR N SEED [FILE...]: mutation testing of the checks.

Makes N random small changes to /repo/src (in a scratch copy under WORKDIR), one at a time,
and runs the quick checks of the properties concerned with the file (from the committed
/verif, copied to WORKDIR) until one reports a violation. Changes that leave the object code
the same, or do not compile, are skipped. Survivors go to WORKDIR/survivors.txt for reading."""
import glob, os, random, re, shutil, subprocess, sys, time
W, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); only = sys.argv[4:]
PROPS = {"gs.c": "G01 G02 G04 G06 G03 G05 M02 E01", "gs_local.c": "G01 G02 C01", "gs_defs.h": "G01 C01", "comm.c": "C01 C02 C03 M02", "comm.h": "C03 C01 K01 M02 E01 G05",
 "crystal.c": "R01 R02", "fcrystal.c": "R03 R04 E01 M02", "sarray_transfer.c": "R02 R03", "sarray_sort.c": "S02 R04", "sort.c": "S01 S02", "sort_imp.h": "S01 S02 R04",
 "sarray_sort.h": "S02", "mem.h": "M01 E02 M02", "poly.c": "P01 P02", "tensor.c": "P03", "tensor.h": "P03", "lob_bnd.c": "B01", "obbox.c": "B02", "obbox.h": "B02 F01", "findpts_el_2.c": "F01 F02 F03 F04",
 "findpts_el_3.c": "F01 F02 F03 F04", "findpts_local_imp.h": "F01 F05 F06 F04 F02 M02", "findpts_local.c": "F01 F05 F06 F04 F02", "findpts_imp.h": "F02 F05 F04 F06 M02", "findpts.c": "F02 F04 F05 F06 E01 M02", "fail.c": "E01 E02", "types.h": "G01 S01", "c99.h": ""}
VER, REP = W + "/verif", W + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(VER):
    os.makedirs(W, exist_ok=True)
    sh("git clone -q /verif %s" % VER)
shutil.rmtree(REP, ignore_errors=True); os.makedirs(REP); shutil.copytree("/repo/src", REP + "/src")
FILES = only or [f for f in sorted(PROPS) if PROPS[f] and os.path.exists(REP + "/src/" + f)]
random.seed(SEED)

def code_spans(s):
    """offsets outside comments, strings and preprocessor conditionals / includes"""
    ok = [True] * len(s)
    for m in re.finditer(r"/\*.*?\*/|//[^\n]*|\"(?:\\.|[^\"\\])*\"|^[ \t]*#[ \t]*(?:include|if|ifdef|ifndef|else|elif|endif|undef|warning|error)[^\n]*|^[ \t]*#[ \t]*define[ \t]+\w+", s, re.S | re.M):
        for i in range(m.start(), m.end()): ok[i] = False
    # drop '#if 0' blocks
    for m in re.finditer(r"^#if 0$.*?^#(?:endif|else)$", s, re.S | re.M):
        for i in range(m.start(), m.end()): ok[i] = False
    return ok

OPS = [(r"(?<![<>\-=!])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![<>\-])>(?![>=])", [">="]), (r"(?<![<>])>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
 (r"(?<=[\w\])])\+(?=[\w(])", ["-"]), (r"(?<=[\w\])])-(?=[\w(])", ["+"]), (r"(?<=[\w\])])\*(?=[\w(])", ["+"]), (r"(?<=[\w\])])/(?=[\w(])", ["*"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\+\+", ["--"]),
 (r"(?<![\w.])\d+(?![\w.])", ["+1", "-1"]), (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]"]), (r"(?<=[;{}])[ \t]*\n?[ \t]*[\w>\-\.\[\]\*]+ ?(?:\+|-|\|)?= ?[^;{}]*;", ["DEL"]), (r"(?<=[;{}])[ \t]*\n?[ \t]*\w+\([^;{}]*\);", ["DEL"]), (r",(?=[ \w\->\[\]]+[+\-|]?=[^=;,]*[;,])", ["COMMA"]), (r"if\(", ["if(!"]), (r"\bif *\((?=[^()]*\))", ["IF0"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<!&)&(?=[\w])(?<=[\w)]&)", ["|"]), (r"\|(?=[\w(])", ["&"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]), (r"\belse\b", ["; if(1)"]), (r"\bmax\b", ["min"]), (r"\bmin\b", ["max"]), (r"\bid\b", ["np"])]

def candidates(s):
    ok = code_spans(s); out = []
    for k, (rx, reps) in enumerate(OPS):
        for m in re.finditer(rx, s):
            if not all(ok[i] for i in range(m.start(), max(m.end(), m.start() + 1))): continue
            for r in reps: out.append((k, m.start(), m.end(), r))
    return out

def apply(s, c):
    k, a, b, r = c; t = s[a:b]
    if r == "+1": new = str(int(t) + 1)
    elif r == "-1": new = str(int(t) - 1)
    elif r == "DEL":
        ws = len(t) - len(t.lstrip()); new = t[:ws] + ";"
    elif r == "COMMA":
        e = re.compile(r",[ \w\->\[\]]+[+\-|]?=[^=;,]*(?=[;,])").match(s, a)
        if not e: return None
        return s[:a] + s[e.end():]
    elif r == "IF0": new = "if(0) if("
    else: new = r
    return s[:a] + new + s[b:]

os.makedirs(W + "/log", exist_ok=True)
env = dict(os.environ, VERIF_REPO=REP, VERIF_SEED=str(SEED), VERIF_OBJCACHE=W + "/objcache")
CC = "gcc -O1 -w -I%s -DMPI -DGSLIB_USE_MPI -DGSLIB_UNDERSCORE -DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_ -DGSLIB_USE_GLOBAL_LONG_LONG -DGSLIB_USE_NAIVE_BLAS" % (VER + "/engine")
def objs(f):
    """object code (without line numbers) of the sources that see file f, in two configurations"""
    cs = [os.path.basename(x) for x in glob.glob(REP + "/src/*.c") if "gen_" not in x]
    if f.endswith(".c"): cs = [f]
    elif f == "sort_imp.h": cs = ["sort.c"]
    elif f.startswith("findpts_local"): cs = ["findpts_local.c", "findpts.c"]
    elif f == "findpts_imp.h": cs = ["findpts.c"]
    elif f == "tensor.h": cs = ["obbox.c", "findpts_el_3.c", "findpts_el_2.c", "../../verif/shim/shim.c"]
    elif f in ("obbox.h",): cs = ["findpts.c"]
    out = []
    for c in cs:
        for d in ("", "-DGSLIB_USE_NBC"):
            r = subprocess.run("%s %s -I%s/src -S -o - %s/src/%s" % (CC, d, REP, REP, c), shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if r.returncode: return None
            out.append(re.sub(rb"__LINE__|\$\d+, %e[cds][ix]", b"", r.stdout) if 0 else r.stdout)
    return out
WEIGHT = [len(candidates(open("/repo/src/" + f).read())) ** .5 for f in FILES]
base = {}
alive = killed = 0; done = set(); t00 = time.time()
while alive + killed < N:
    f = random.choices(FILES, WEIGHT)[0]; src = open("/repo/src/" + f).read(); c = random.choice(candidates(src))
    if (f, c) in done: continue
    done.add((f, c)); new = apply(src, c)
    if new is None or new == src: continue
    if f not in base: base[f] = objs(f)
    open(REP + "/src/" + f, "w").write(new)
    o = objs(f)
    if o is None or o == base[f]:
        open(REP + "/src/" + f, "w").write(src); continue
    line = src.count("\n", 0, c[1]) + 1
    d = sh("diff -u /repo/src/%s %s/src/%s | grep '^[+-]' | grep -v '^[+-][+-]'" % (f, REP, f)).stdout
    t0 = time.time(); hit = None
    for p in PROPS[f].split():
        r = sh("cd %s && timeout 150 python3 run.py check %s" % (VER, p), env=env)
        if r.returncode == 1: hit = p; break
        if r.returncode not in (0, 1): hit = p + "(exit %d)" % r.returncode; open(W + "/log/trouble", "a").write("%s:%d\n%s\n%s\n" % (f, line, d, r.stdout[-1500:])); break
    if hit: killed += 1
    else: alive += 1
    with open(W + ("/killed.txt" if hit else "/survivors.txt"), "a") as g: g.write("== %s:%d %s %.0fs\n%s" % (f, line, hit or "SURVIVES", time.time() - t0, d))
    open(REP + "/src/" + f, "w").write(src)
    if (alive + killed) % 10 == 0: print("%d killed, %d alive, %.0f s" % (killed, alive, time.time() - t00), flush=True); sh("find %s/objcache -mmin +30 -delete; find %s/build -maxdepth 1 -name 'lib-*' -mmin +3 -exec rm -rf {} +" % (W, VER))
