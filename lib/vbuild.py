"""Builds libcyclus and the harness drivers from /repo's *current* working tree.

The tracked (and untracked, non-ignored) sources are mirrored to BUILD/tree, the
project's own generators are run there, every translation unit is compiled
(-O0, no Python) and linked into BUILD/libcyclus.so.  Objects are cached under a
hash of their preprocessed text, so a rebuild is incremental but never stale.
"""
import hashlib, os, re, subprocess, sys, json, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TREE = os.path.join(BUILD, "tree")
CXX = os.environ.get("VERIF_CXX", "clang++")
NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
WEAK = "/opt/cyclus/cmake/missing_weak.h"

INCS = """-I/usr/include/hdf5/serial -I/usr/include/coin
-isystem /usr/include/python3.12 -isystem /usr/include/libxml2
-isystem /usr/include/libxml++-2.6 -isystem /usr/lib/x86_64-linux-gnu/libxml++-2.6/include
-isystem /usr/include/glibmm-2.4 -isystem /usr/lib/x86_64-linux-gnu/glibmm-2.4/include
-isystem /usr/include/glib-2.0 -isystem /usr/lib/x86_64-linux-gnu/glib-2.0/include
-isystem /usr/include/sigc++-2.0 -isystem /usr/lib/x86_64-linux-gnu/sigc++-2.0/include""".split()
DEFS = "-DBOOST_VERSION_MINOR=83 -DHDF_NO_NAMESPACE -DNO_STATIC_CAST -DOLD_HEADER_FILENAME -DNDEBUG".split()
OPT = os.environ.get("VERIF_OPT", "-O0").split()
FLAGS = ["-std=c++17", "-w", "-fPIC", "-include", WEAK] + OPT
LIBS = ("-L/usr/lib/x86_64-linux-gnu/hdf5/serial -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial "
        "-lsqlite3 -lhdf5 -lhdf5_hl -lboost_program_options -lboost_system -lboost_filesystem "
        "-lboost_serialization -lOsi -lClp -lCoinUtils -lOsiClp -lCgl -lCbcSolver -lCbc -lOsiCbc "
        "-lClpSolver -lxml++-2.6 -lxml2 -lglibmm-2.4 -lgobject-2.0 -lglib-2.0 -lsigc-2.0 "
        "-llapack -lblas -ldl -lm").split()


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def tracked():
    r = sh(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z",
            "src", "agents", "share", "cli", "cyclus", "CMakeLists.txt"])
    if r.returncode != 0:
        raise BuildError("git ls-files: " + r.stderr)
    return [f for f in r.stdout.split("\0") if f and os.path.exists(os.path.join(REPO, f))]


def mirror():
    files = set(tracked())
    for f in files:
        src = os.path.join(REPO, f)
        if os.path.isdir(src):
            continue
        with open(src, "rb") as fh:
            write_if_changed(os.path.join(TREE, f), fh.read())
    # drop files that went away
    gen = {"src/env.cc", "src/version.cc", "src/version.h", "src/platform.h", "src/cyc_limits.h",
           "src/hdf5_back.cc", "src/hdf5_back.h", "share/dbtypes.json", "cyclus/system.py"}
    for root, _, names in os.walk(TREE):
        for n in names:
            p = os.path.relpath(os.path.join(root, n), TREE)
            if p not in files and p not in gen:
                os.remove(os.path.join(root, n))


def subst(text, env):
    return re.sub(r"@([A-Za-z0-9_]+)@", lambda m: env.get(m.group(1), m.group(0)), text)


def cmake_vars():
    """Values the project's CMakeLists.txt gives to the configured headers."""
    t = open(os.path.join(TREE, "CMakeLists.txt")).read()
    env = {"cyclus_install_dir": BUILD, "cyclus_build_dir": BUILD, "default_allow_milps": "true",
           "suffix": ".so", "dynamicloadlib": "unix_helper_functions.h", "cyclus_has_coin": "1",
           "cyclus_is_parallel": "0", "DATA_MODEL_VERSION": "1.6",
           "CY_LARGE_INT": "2147483647", "CY_LARGE_DOUBLE": "1e299", "CY_NEAR_ZERO": "1e-08",
           "CMAKE_PROJECT_VERSION_MAJOR": "1", "CMAKE_PROJECT_VERSION_MINOR": "6",
           "CMAKE_PROJECT_VERSION_PATCH": "0"}
    for k in ("CY_LARGE_INT", "CY_LARGE_DOUBLE", "CY_NEAR_ZERO"):
        m = re.search(r"(?i)set\s*\(\s*%s\s+\"?([0-9eE.+-]+)\"?" % k, t)
        if m:
            env[k] = m.group(1)
    return env


def generate():
    s = os.path.join(TREE, "src")
    env = cmake_vars()
    for n in ("env.cc", "version.cc", "version.h", "platform.h", "cyc_limits.h"):
        write_if_changed(os.path.join(s, n), subst(open(os.path.join(s, n + ".in")).read(), env))
    write_if_changed(os.path.join(TREE, "cyclus", "system.py"), subst(open(os.path.join(TREE, "cyclus", "system.py.in")).read(), env))
    henv = {}
    jobs = {"HDF5_BACK_CC_VAL_TO_BUF_H": "VAL_TO_BUF_H"}
    for k in ("QUERY", "CREATE", "VL_DATASET", "FILL_BUF", "WRITE", "VAL_TO_BUF", "BUF_TO_VAL"):
        jobs["HDF5_BACK_CC_" + k] = k
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    # the generator reads ../share/dbtypes.json, itself generated from query_backend.h
    dbj = os.path.join(TREE, "share", "dbtypes.json")
    r = sh([py, os.path.join(TREE, "share", "dbtypes_gen.py"), env["DATA_MODEL_VERSION"]])
    if r.returncode != 0:
        raise BuildError("dbtypes_gen.py failed: " + r.stderr[-2000:])
    write_if_changed(dbj, subst(open(dbj + ".in").read(), {"DBTYPES_JSON_ENTRIES": r.stdout}))

    def one(kv):
        r = sh([py, os.path.join(s, "hdf5_back_gen.py"), kv[1]], cwd=s)
        if r.returncode != 0:
            raise BuildError("hdf5_back_gen.py %s failed: %s" % (kv[1], r.stderr[-2000:]))
        return kv[0], r.stdout
    with ThreadPoolExecutor(NPROC) as ex:
        for k, v in ex.map(one, jobs.items()):
            henv[k] = v
    for n in ("hdf5_back.h", "hdf5_back.cc"):
        write_if_changed(os.path.join(s, n), subst(open(os.path.join(s, n + ".in")).read(), henv))


HEAVY = ["hdf5_back.cc", "pyne.cc", "sqlite_back.cc", "timer.cc"]


# System headers only, precompiled once: the sources parse much faster with it.
PCH_HEADERS = """string map vector set sstream iostream boost/shared_ptr.hpp utility algorithm
limits cmath list iomanip functional fstream exception stdexcept cstdlib boost/lexical_cast.hpp
libxml++/libxml++.h cstring boost/uuid/uuid_io.hpp boost/uuid/uuid_generators.hpp boost/algorithm/string.hpp
boost/filesystem.hpp boost/math/special_functions/next.hpp boost/intrusive_ptr.hpp boost/any.hpp
boost/uuid/detail/sha1.hpp boost/serialization/vector.hpp boost/serialization/utility.hpp
boost/serialization/set.hpp boost/serialization/map.hpp boost/serialization/list.hpp
boost/random/mersenne_twister.hpp boost/multi_index_container.hpp sqlite3.h numeric memory""".split()
_use_pch = [False]


def cxx_args(extra=()):
    return [CXX] + FLAGS + DEFS + list(extra) + ["-I" + os.path.join(TREE, "src")] + INCS


def make_pch():
    h = os.path.join(BUILD, "pch", "vpch.h")
    text = "".join("#include <%s>\n" % x for x in PCH_HEADERS)
    fresh = write_if_changed(h, text)
    args = [CXX] + FLAGS + DEFS + INCS
    ident = hashlib.sha256((text + repr(args)).encode()).hexdigest()
    if fresh or not os.path.exists(h + ".gch") or not os.path.exists(h + ".id") or open(h + ".id").read() != ident:
        r = sh(args + ["-x", "c++-header", h, "-o", h + ".gch.tmp"] + (["-fpch-instantiate-templates"] if "clang" in CXX else []))
        if r.returncode != 0:
            return False
        os.rename(h + ".gch.tmp", h + ".gch")
        open(h + ".id", "w").write(ident)
    return True


_inc_re = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', re.M)
_cache = {}


def includes(path):
    """(content hash, project headers named) of one file."""
    if path not in _cache:
        with open(path, "rb") as f:
            data = f.read()
        out = []
        for m in _inc_re.findall(data):
            n = m.decode()
            for d in (os.path.dirname(path), os.path.join(TREE, "src"), os.path.join(VERIF, "harness")):
                q = os.path.normpath(os.path.join(d, n))
                if os.path.isfile(q):
                    out.append(q)
        _cache[path] = (hashlib.sha256(data).hexdigest(), out)
    return _cache[path]


def closure_hash(src, salt):
    seen, todo = {}, [src]
    while todo:
        p = todo.pop()
        if p not in seen:
            h, inc = includes(p)
            seen[p] = h
            todo += inc
    return hashlib.sha256(json.dumps([sorted(seen.items()), salt]).encode()).hexdigest()[:24]


def compile_one(src, extra=(), tag=""):
    """Compile src (absolute) to an object named after the content of everything it includes."""
    args = cxx_args(extra)
    h = closure_hash(src, repr(args))
    name = tag + os.path.basename(src)
    obj = os.path.join(BUILD, "obj", "%s-%s.o" % (name, h))
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        r = None
        if _use_pch[0]:
            hdr = os.path.join(BUILD, "pch", "vpch.h")
            pch = ["-include-pch", hdr + ".gch"] if "clang" in CXX else ["-include", hdr]
            r = sh([CXX] + pch + args[1:] + ["-c", src, "-o", tmp])
        if r is None or r.returncode != 0:
            r = sh(args + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise BuildError("compile %s:\n%s" % (src, r.stderr[-6000:]))
        os.rename(tmp, obj)
    return obj


def cycpp(src, out):
    """Run the project's preprocessor; the error text, if any."""
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    inc = []
    it = iter(INCS)
    for x in it:
        inc += ["-I", next(it) if x == "-isystem" else x[2:]]
    cli = os.path.join(TREE, "cli")
    r = sh([py, os.path.join(cli, "cycpp.py"), src, "--cpp-path", "cpp", "-o", out, "--pass3-use-orig",
            "-I", os.path.join(TREE, "src")] + inc, cwd=cli)
    return None if r.returncode == 0 and os.path.exists(out) else (r.stderr or "no output")[-3000:]


def bundled_agents():
    """The bundled archetypes, preprocessed and compiled: (include directory, objects)."""
    a, g = os.path.join(TREE, "agents"), os.path.join(BUILD, "agents")
    os.makedirs(g, exist_ok=True)
    names = sorted(f for f in os.listdir(a) if f.endswith((".h", ".cc")) and not f.endswith("_tests.cc"))

    def pre(n):
        src = os.path.join(a, n)
        data = open(src).read()
        if n.endswith(".cc") and "#pragma cyclus" not in data:
            write_if_changed(os.path.join(g, n), data)   # the preprocessor leaves these as they are
            return
        tmp = os.path.join(g, "tmp." + n)
        e = cycpp(src, tmp)
        if e:
            raise BuildError("cycpp %s: %s" % (n, e))
        write_if_changed(os.path.join(g, n), open(tmp).read())
        os.remove(tmp)
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(pre, names))
        objs = list(ex.map(lambda n: compile_one(os.path.join(g, n), ["-I" + g], "agent-"), [n for n in names if n.endswith(".cc")]))
    return g, objs


PYMODS = ["typesystem", "lib", "memback", "jsoncpp", "nucname"]


def python_package():
    """The project's Python interface (the modules PYMODS, without the agents), generated, translated by
    Cython and compiled against BUILD/libcyclus.so: the directory to put on the path.  After build()."""
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    root = os.path.join(BUILD, "py")
    srcd, pkg = os.path.join(root, "src", "cyclus"), os.path.join(root, "pkg", "cyclus")
    os.makedirs(srcd, exist_ok=True)
    os.makedirs(pkg, exist_ok=True)
    cy = os.path.join(TREE, "cyclus")
    texts = {}
    for n in sorted(os.listdir(cy)):
        if n.endswith((".py", ".pyx", ".pxd")):
            texts[n] = open(os.path.join(cy, n)).read()
    texts["dbtypes.json"] = open(os.path.join(TREE, "share", "dbtypes.json")).read()
    ident = hashlib.sha256(json.dumps(texts, sort_keys=True).encode()).hexdigest()
    idf = os.path.join(root, "id")
    if not os.path.exists(idf) or open(idf).read() != ident:
        for n, t in texts.items():
            write_if_changed(os.path.join(root, "src", "share", n) if n == "dbtypes.json" else os.path.join(srcd, n), t)
        r = sh([py, "gentypesystem.py", "--src-dir=" + srcd, "--data-model-version=" + cmake_vars()["DATA_MODEL_VERSION"]], cwd=srcd)
        if r.returncode != 0:
            raise BuildError("gentypesystem.py: " + r.stderr[-3000:])

        def trans(m):
            r = sh([py, "-m", "cython", "--cplus", "-3", "-I", "..", m + ".pyx", "-o", m + ".new"], cwd=srcd)
            if r.returncode != 0:
                raise BuildError("cython %s: %s" % (m, (r.stdout + r.stderr)[-3000:]))
            write_if_changed(os.path.join(srcd, m + ".cc"), open(os.path.join(srcd, m + ".new")).read())
            os.remove(os.path.join(srcd, m + ".new"))
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(trans, PYMODS))
        for n, t in texts.items():
            if n.endswith(".py"):
                write_if_changed(os.path.join(pkg, n), t)
        open(idf, "w").write(ident)
    np_inc = sh([py, "-c", "import numpy; print(numpy.get_include())"]).stdout.strip()
    flags = ["-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", "-I" + np_inc, "-I" + srcd]

    def comp(m):
        o = compile_one(os.path.join(srcd, m + ".cc"), flags, "py-")
        return link(os.path.join(pkg, m + ".so"), [o], ["-shared"] + OPT + ["-L" + BUILD, "-lcyclus", "-Wl,-rpath," + BUILD])
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(comp, PYMODS))
    return os.path.join(root, "pkg"), py


def lib_sources():
    s = os.path.join(TREE, "src")
    out = [os.path.join(s, f) for f in os.listdir(s) if f.endswith(".cc") and not f.startswith("_")]
    out.append(os.path.join(s, "OsiCbcSolverInterface.cpp"))
    t = os.path.join(s, "toolkit")
    out += [os.path.join(t, f) for f in os.listdir(t) if f.endswith(".cc")]
    out.sort(key=lambda p: (HEAVY.index(os.path.basename(p)) if os.path.basename(p) in HEAVY else 99, p))
    return out


def link_id(objs, cmd):
    return hashlib.sha256(json.dumps([objs, cmd]).encode()).hexdigest()


def link(out, objs, extra):
    cmd = [CXX] + list(extra)
    ident = link_id(objs, cmd)
    idf = out + ".id"
    if os.path.exists(out) and os.path.exists(idf) and open(idf).read() == ident:
        return out
    r = sh([CXX] + ["-o", out + ".tmp"] + objs + list(extra))
    if r.returncode != 0:
        raise BuildError("link %s:\n%s" % (out, r.stderr[-6000:]))
    os.rename(out + ".tmp", out)
    open(idf, "w").write(ident)
    return out


def build(drivers=(), agents=False, log=None):
    """Build libcyclus + the named drivers (harness/<name>.cc). Returns dict name->exe."""
    global CXX
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            return build_with(drivers)
        except BuildError:
            if "clang" not in CXX:
                raise
        CXX = "g++"
        return build_with(drivers)


def build_with(drivers):
    t0 = time.time()
    _cache.clear()
    with ThreadPoolExecutor(1) as ex:
        f = ex.submit(make_pch)
        mirror()
        generate()
        _use_pch[0] = f.result()
    srcs = lib_sources()
    hs = [os.path.join(VERIF, "harness", d + ".cc") for d in drivers]
    with ThreadPoolExecutor(NPROC) as ex:
        heavy = [ex.submit(compile_one, s) for s in srcs[:4]]
        hf = [ex.submit(compile_one, h, ["-I" + os.path.join(VERIF, "harness")], "drv-") for h in hs]
        rest = [ex.submit(compile_one, s) for s in srcs[4:]]
        objs = [f.result() for f in heavy + rest]
        hobjs = [f.result() for f in hf]
    lib = link(os.path.join(BUILD, "libcyclus.so"), objs,
               ["-shared", "-Wl,--allow-shlib-undefined"] + OPT + LIBS)
    exes = {}
    for d, o in zip(drivers, hobjs):
        exes[d] = link(os.path.join(BUILD, "drv-" + d), [o],
                       OPT + ["-rdynamic", "-L" + BUILD, "-Wl,-rpath," + BUILD, "-lcyclus",
                        "-Wl,--allow-shlib-undefined"] + LIBS)
    # prune objects that no longer belong to anything recent
    keep = set(objs + hobjs)
    od = os.path.join(BUILD, "obj")
    allo = sorted((os.path.join(od, f) for f in os.listdir(od)), key=os.path.getmtime, reverse=True)
    for p in allo[600:]:
        if p not in keep:
            os.remove(p)
    exes["_lib"] = lib
    exes["_secs"] = time.time() - t0
    return exes


if __name__ == "__main__":
    print(build(sys.argv[1:]))
