#!/usr/bin/env python3
"""Builds the simulator and the code under test (from /repo's working tree) into /verif/build."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
OBJ = os.path.join(OUT, "obj")
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
SUT_FLAGS = SAN + ["-std=c++11", "-O1", "-fPIC", "-w", "-fno-gnu-unique", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
                   "-march=x86-64-v2", "-maes", "-mpclmul", "-Wno-strict-aliasing"]
SIM_FLAGS = SAN + ["-std=c++17", "-O1", "-w", "-fvisibility=hidden", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
WRAP = ["malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc"]
DIRS = ["util", "tcpip", "crypto", "garbled_circuit", "scd"]
MAINS = {"garbled_circuit/garbled_circuit_main.cpp": "tinygarble", "scd/v_2_scd_main.cpp": "v2scd",
         "scd/scd_evaluator_main.cpp": "evaluator", "crypto/OT_main.cpp": "otmain"}
COPIES = {"log": 6, "nolog": 3, "dump": 2}
# what local variables hold before they are written differs from build to build; clang fills the padding as well
INIT = {"log": [], "nolog": ["-ftrivial-auto-var-init=pattern"],
        "dump": ["-ftrivial-auto-var-init=zero"]}
CXX = {"log": "g++", "nolog": "clang++", "dump": "g++"}
if not shutil.which("clang++"):
    CXX["nolog"] = "g++"


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError("$ %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def sources():
    res = []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "**", "*.c*"), recursive=True)):
            b = os.path.basename(f)
            if not b.endswith((".cpp", ".cc", ".c")) or re.search(r"test|^eval_", b):
                continue
            if os.path.basename(os.path.dirname(f)) == "a23":
                continue
            res.append(os.path.relpath(f, REPO))
    return res


def headers_hash():
    parts = []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "**", "*"), recursive=True)):
            if f.endswith((".h", ".hpp", ".in", ".inc", ".def")):
                parts += [f[len(REPO):], rd(f)]
    return h(*parts)


def config(var):
    t = rd(os.path.join(REPO, "util/tinygarble_config.h.in")).decode()
    v = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", "".join(
        rd(os.path.join(REPO, "CMakeLists.txt")).decode().split("cmake_minimum_required", 1)[-1].split(")", 1)[1:])) \
        if os.path.exists(os.path.join(REPO, "CMakeLists.txt")) else None
    vs = v.groups() if v else ("3", "0", "0")
    for k, x in zip(("MAJOR", "MINOR", "PATCH"), vs):
        t = t.replace("@TinyGarble_VERSION_%s@" % k, x)
    t = re.sub(r"@CMAKE_SOURCE_DIR@|@PROJECT_SOURCE_DIR@", "/repo", t)
    t = re.sub(r"@CMAKE_BINARY_DIR@|@PROJECT_BINARY_DIR@", "/repo/_build", t)
    on = {"log": {"ENABLE_LOG"}, "nolog": set(), "dump": {"ENABLE_LOG", "ENABLE_DUMP"}}[var]
    t = re.sub(r"#cmakedefine\s+(\w+)(.*)", lambda m: ("#define %s%s" % (m[1], m[2])) if m[1] in on
               else "/* #undef %s */" % m[1], t)
    return re.sub(r"@\w+@", "", t)


def imports(d):
    """What the code under test takes from outside that the simulator does not provide."""
    def syms(f, opt):
        p = subprocess.run(["nm", "-D", opt, f], stdout=subprocess.PIPE, text=True, errors="replace")
        return {l.split()[-1].split("@")[0] for l in p.stdout.splitlines() if l.strip()}
    have = syms(os.path.join(d, "simrun"), "--defined-only")
    out = []
    for s in sorted(syms(os.path.join(d, "libsut_log_0.so"), "--undefined-only") - have):
        if not re.match(r"_Z|__asan|_ITM|__cxa|__gxx|__gmon|_Unwind|__stack_chk|__errno|__dynamic_cast|mem|str|b(zero|copy|cmp)$|is[a-z]+$|to(lower|upper)$"
                        r"|__isoc|BN_|EVP_|RSA_|OPENSSL_|RAND_", s):
            out.append(s)
    open(os.path.join(d, "imports.txt"), "w").write("\n".join(out))


def build():
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(os.path.join(OUT, "lib"), exist_ok=True)
    hh = headers_hash()
    jobs = []  # (obj, cmd, redefine)
    objs = {"log": [], "nolog": [], "dump": [], "sim": []}
    for var in COPIES:
        cfg = config(var)
        gen = os.path.join(OUT, "gen_" + var)
        os.makedirs(os.path.join(gen, "util"), exist_ok=True)
        p = os.path.join(gen, "util/tinygarble_config.h")
        if not os.path.exists(p) or rd(p).decode() != cfg:
            open(p, "w").write(cfg)
        for s in sources():
            key = h(var, s, rd(os.path.join(REPO, s)), hh, cfg, CXX[var], " ".join(SUT_FLAGS + INIT[var]))
            o = os.path.join(OBJ, "%s.%s.%s.o" % (s.replace("/", "_"), var, key))
            objs[var].append(o)
            fl = SUT_FLAGS + INIT[var] + ["-DNDEBUG"]
            jobs.append((o, [CXX[var]] + fl + ["-I", gen, "-I", REPO, "-c", os.path.join(REPO, s)], MAINS.get(s)))
        d = os.path.join(VERIF, "sim/driver.cpp")
        key = h(var, rd(d), rd(os.path.join(VERIF, "sim/sim.h")), hh, cfg, " ".join(SUT_FLAGS))
        o = os.path.join(OBJ, "driver.%s.%s.o" % (var, key))
        objs[var].append(o)
        jobs.append((o, ["g++"] + SUT_FLAGS + ["-std=c++17", "-I", gen, "-I", REPO, "-I", os.path.join(VERIF, "sim"),
                         "-c", d], None))
    simh = h(*[rd(f) for f in sorted(glob.glob(os.path.join(VERIF, "sim/*.h")))])
    for f in sorted(glob.glob(os.path.join(VERIF, "sim/*.cpp"))):
        if f.endswith("driver.cpp"):
            continue
        fl = list(SIM_FLAGS)
        if rd(f).startswith(b"// build: no sanitizer"):
            fl = [x for x in fl if x != "-fsanitize=address"]
        key = h(rd(f), simh, " ".join(fl))
        o = os.path.join(OBJ, "sim_%s.%s.o" % (os.path.basename(f), key))
        objs["sim"].append(o)
        jobs.append((o, ["g++"] + fl + ["-I", os.path.join(VERIF, "sim"), "-c", f], None))

    def one(j):
        o, cmd, main = j
        if os.path.exists(o):
            os.utime(o)
            return
        tmp = o + ".%d.tmp" % os.getpid()
        try:
            sh((cmd if cmd[0] == "g++" else [x for x in cmd if x != "-fno-gnu-unique"] +
                ["-fno-sanitize-address-globals-dead-stripping"]) + ["-o", tmp])
        except BuildError:
            if cmd[0] == "g++":
                raise
            sh(["g++"] + cmd[1:] + ["-o", tmp])
        if main:
            sh(["objcopy", "--redefine-sym", "main=sut_main_" + main, tmp])
        os.rename(tmp, o)

    # the longest compilations first
    order = sorted(jobs, key=lambda j: -(("world" in j[0]) * 10 + ("main" in j[0]) * 5 + ("sim_" in j[0]) * 3 + ("log.cpp" in j[0]) * 2))
    with cf.ThreadPoolExecutor(8) as ex:
        for r in [ex.submit(one, j) for j in order]:
            r.result()
    key = h(*sum(objs.values(), []), str(COPIES), rd(os.path.join(VERIF, "sim/keys.pem")))
    dest = os.path.join(OUT, "run_" + key)
    if not os.path.exists(os.path.join(dest, "ok")):
        tmp = dest + ".%d.tmp" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        wrap = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]

        def link(var):
            sh(["g++", "-shared"] + SAN + objs[var] + ["-Wl,-Bsymbolic"] + wrap +
               ["-lboost_program_options", "-lcrypto", "-lpthread", "-ldl", "-o", os.path.join(tmp, "libsut_%s_0.so" % var)])
            for i in range(1, COPIES[var]):
                shutil.copy(os.path.join(tmp, "libsut_%s_0.so" % var), os.path.join(tmp, "libsut_%s_%d.so" % (var, i)))

        def linksim():
            sh(["g++"] + SAN + objs["sim"] + ["-rdynamic", "-lcrypto", "-lboost_program_options", "-lpthread", "-ldl",
                "-o", os.path.join(tmp, "simrun")])
        with cf.ThreadPoolExecutor(4) as ex:
            for r in [ex.submit(link, v) for v in COPIES] + [ex.submit(linksim)]:
                r.result()
        imports(tmp)
        shutil.copy(os.path.join(VERIF, "sim/keys.pem"), tmp)
        open(os.path.join(tmp, "ok"), "w").write("ok")
        try:
            os.rename(tmp, dest)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    # forget old builds
    runs = sorted(glob.glob(os.path.join(OUT, "run_*")), key=os.path.getmtime)
    for r in runs[:-4]:
        if r != dest:
            shutil.rmtree(r, ignore_errors=True)
    for o in sorted(glob.glob(os.path.join(OBJ, "*.o")), key=os.path.getmtime)[:-400]:
        os.unlink(o)
    os.utime(dest)
    return dest


def locked_build():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return build()


if __name__ == "__main__":
    try:
        print(locked_build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
