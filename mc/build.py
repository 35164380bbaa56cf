"""Builds the library from /repo's working tree, plus one check driver, with sanitizers.

Objects are cached under /verif/.build by a hash of everything that goes into them, so a
check only recompiles what changed in /repo since the last check."""
import concurrent.futures, fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXX, CC = "/usr/bin/g++", "/usr/bin/gcc"
DEFS = ["-DENABLE_CURL", "-DENABLE_XML", "-DENABLE_YAML", "-DHAVE_LONG_LONG=1"]
MODES = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=nonnull-attribute,vptr", "-fno-sanitize-recover=all"],
    "plain": ["-O1", "-g1"],
    # the compiler's thread instrumentation with mc/sched.hpp in place of its runtime
    "sched": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-fno-builtin",
              "-mstringop-strategy=libcall", "-include", os.path.join(VERIF, "mc", "instrument.h")],
}
LINK = {"sched": ["-O1", "-g1"]}
LIBS = ["-lxml2", "-lyaml", "-lcurl", "-lpthread", "-ldl"]


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-8000:]))
    return r.stdout


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    """The source list of the library target, as the repository's own build file gives it."""
    txt = read(os.path.join(REPO, "src/CMakeLists.txt")).decode()
    txt = re.sub(r"#.*", "", txt)
    out = []
    for body in re.findall(r"(?:set\s*\(\s*sources|list\s*\(\s*APPEND\s+sources)\s+([^)]*)\)", txt):
        for f in body.split():
            if "MsgPack" in f or not re.search(r"\.(cc|c|cpp)$", f):
                continue
            p = os.path.normpath(os.path.join(REPO, "src", f))
            if os.path.exists(p):
                out.append(p)
    return out


def headers():
    hs = []
    for d in ("include", "src", "lib"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            hs += [os.path.join(root, f) for f in fs if re.search(r"\.(h|hpp|in)$", f)]
    hs.append(os.path.join(REPO, "Config.h.in"))
    return sorted(set(h for h in hs if os.path.exists(h)))


def gen_config():
    txt = read(os.path.join(REPO, "Config.h.in")).decode()
    on = {"HAVE_CXX11_SHAREDPTR"}

    def rep(m):
        return ("#define " + m.group(1) + m.group(2)) if m.group(1) in on else "/* #undef %s */" % m.group(1)
    txt = re.sub(r"^#cmakedefine\s+(\w+)(.*)$", rep, txt, flags=re.M)
    d = os.path.join(BUILD, "gen-" + hashlib.sha1(txt.encode()).hexdigest()[:12])
    p = os.path.join(d, "Variant", "Config.h")
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(txt)
        os.replace(tmp, p)
    return d


def exe_sources(target):
    """The source files of a program the repository builds."""
    txt = re.sub(r"#.*", "", read(os.path.join(REPO, "src/CMakeLists.txt")).decode())
    m = re.search(r"add_executable\s*\(\s*%s\s+([^)]*)\)" % target, txt)
    return [os.path.join(REPO, "src", f) for f in m.group(1).split() if re.search(r"\.(cc|cpp)$", f)]


def build(drivers, mode="asan", extra_flags=(), extra_libs=(), program=None):
    """drivers: {name: source}. Returns {name: executable}.  program: a program of the repository whose
    main the drivers call as program_main."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(drivers, mode, list(extra_flags), list(extra_libs), program)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def _build(drivers, mode, extra_flags, extra_libs, program):
    gen = gen_config()
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + gen, "-I" + os.path.join(REPO, "lib/json"),
           "-I/usr/include/libxml2"]
    hh = hashlib.sha1()
    for h in headers():
        hh.update(h.encode() + b"\0" + read(h) + b"\0")
    # src may #include other src files; treat every .cc pulled in with #include as a header
    hh = hh.hexdigest()
    vh = hashlib.sha1()
    for root, _, fs in sorted(os.walk(os.path.join(VERIF, "mc"))):
        for f in sorted(fs):
            if f.endswith((".hpp", ".h")):
                vh.update(f.encode() + read(os.path.join(root, f)))
    vh = vh.hexdigest()
    lh = hashlib.sha1(read(os.path.join(VERIF, "mc", "libhook.h"))).hexdigest()
    jobs, libobjs, drvobjs = [], [], {}

    def obj(src, flags, salt):
        k = hashlib.sha1()
        for x in (src, " ".join(flags), salt):
            k.update(x.encode() + b"\0")
        k.update(read(src))
        o = os.path.join(BUILD, "obj", os.path.basename(src) + "." + k.hexdigest()[:16] + ".o")
        if not os.path.exists(o):
            isc = src.endswith(".c")
            cmd = [CC if isc else CXX] + flags + ["-c", src, "-o"]
            jobs.append((os.path.getsize(src), cmd, o))
        else:
            os.utime(o)
        return o

    base = MODES[mode] + DEFS + inc
    for s in lib_sources():
        hook = [] if s.endswith(".c") else ["-include", os.path.join(VERIF, "mc", "libhook.h")]
        libobjs.append(obj(s, base + ["-w"] + hook, hh + lh))
    for s in exe_sources(program) if program else ():
        libobjs.append(obj(s, base + ["-w", "-Dmain=program_main", "-include", os.path.join(VERIF, "mc", "libhook.h")], hh + lh))
    dflags = base + ["-w", "-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(REPO, "src")] + extra_flags
    for n, s in drivers.items():
        drvobjs[n] = obj(s, dflags, hh + vh)
    jobs.sort(key=lambda j: -j[0])

    def run(j):
        tmp = j[2] + ".tmp%d" % os.getpid()
        sh(j[1] + [tmp])
        os.replace(tmp, j[2])
    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        list(ex.map(run, jobs))
    out = {}
    for n, o in drvobjs.items():
        k = hashlib.sha1("\0".join([o] + libobjs + extra_libs).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "bin", n + "." + k)
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            sh([CXX] + LINK.get(mode, MODES[mode]) + [o] + libobjs + ["-rdynamic", "-o", tmp] + LIBS + extra_libs)
            os.replace(tmp, exe)
        else:
            os.utime(exe)
        out[n] = exe
    prune()
    return out


def prune(keep_s=4 * 3600, cap=1500):
    for d in ("obj", "bin"):
        p = os.path.join(BUILD, d)
        fs = sorted(((os.path.getmtime(os.path.join(p, f)), f) for f in os.listdir(p)), reverse=True)
        now = time.time()
        lim = cap if d == "obj" else 200
        for i, (t, f) in enumerate(fs):
            if i >= lim or (i > 150 and now - t > keep_s):
                os.unlink(os.path.join(p, f))


if __name__ == "__main__":
    t = time.time()
    print(build({os.path.basename(s)[:-3]: os.path.abspath(s) for s in sys.argv[2:]}, sys.argv[1]), time.time() - t)
