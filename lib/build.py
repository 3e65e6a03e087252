"""Build machinery: compiles /repo's library sources and the harnesses of
/verif in several instrumented variants into /verif/.cache (git-ignored).

Objects are cached by content: the key of an object is a hash of its flags and
of the text, with comments and white space normalised, of its source and of
every header of /repo and /verif it includes, so a change of a comment does
not rebuild and a change of the code always does.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.environ.get("VF_CACHE", os.path.join(VERIF, ".cache"))
LIBDIR = "/usr/lib/x86_64-linux-gnu"
CXX = "/usr/bin/clang++-18"

INC = [f"-I{REPO}/include", f"-I{VERIF}/harness"]
for d in ("openmpi/include", "openmpi/include/openmpi"):
    INC += ["-isystem", f"{LIBDIR}/openmpi/" + d.split("/", 1)[1]]
for d in ("petsc", "trilinos", "hdf5/openmpi", "scotch", "suitesparse",
          "opencascade", "slepc"):
    INC += ["-isystem", f"/usr/include/{d}"]
PRE = ["-isystem", "/opt/vp/compat/include",
       "-include", "boost/container_hash/hash.hpp",
       "-include", "deal.II/base/multithread_info.h",
       "-include", "deal.II/distributed/tria_base.h",
       "-include", "deal.II/lac/vector.h"]
BASE = ["-std=c++17", "-w", "-fPIC", "-pthread"]

VARIANTS = {
    # library assertions on, used for the behavioural monitors
    "plain": {
        "cxx": ["-O0", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
        "ld": [], "dealii": "deal.ii",
    },
    # AddressSanitizer + UndefinedBehaviorSanitizer
    "asan": {
        "cxx": ["-O0", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS",
                "-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
                "-fno-sanitize-recover=undefined",
                "-fno-omit-frame-pointer"],
        "ld": ["-fsanitize=address,undefined",
               "-fno-sanitize=vptr,function"],
        "dealii": "deal.ii",
    },
    # deal.II's own run-time contracts (debug library, Assert active) and the
    # ASSERTs of mfmg itself
    "debug": {
        "cxx": ["-O0", "-g1", "-DDEBUG", "-DMFMG_DEBUG=1",
                # the installed deal.II calls it is_active
                "-Dactive=is_active",
                "-D_GLIBCXX_ASSERTIONS"],
        "ld": [], "dealii": "deal.ii.g",
    },
    # ThreadSanitizer, with a scheduler for WorkStream that it understands
    "tsan": {
        "cxx": ["-O0", "-g1", "-DNDEBUG", "-DVF_TSAN", "-fsanitize=thread",
                "-fno-omit-frame-pointer",
                "-isystem", os.path.join(CACHE, "tsan_include")],
        "ld": ["-fsanitize=thread"], "dealii": "deal.ii",
    },
}


def tsan_header():
    """deal.II's header with another scheduler in the function which mfmg
    calls."""
    text = open("/usr/include/deal.II/base/work_stream.h").read()
    call = ("    if (MultithreadInfo::n_threads() > 1)\n      {\n"
            "#  ifdef DEAL_II_WITH_TBB\n"
            "        if (static_cast<const std::function<void(const CopyData &)"
            "> &>(copier))")
    assert text.count(call) == 1
    text = text.replace(
        call, "    if (MultithreadInfo::n_threads() > 1)\n      {\n"
        "        ::vf_work_stream::run(begin, end, worker, copier,\n"
        "                              sample_scratch_data, sample_copy_data);\n"
        "        return;\n      }\n" + call)
    start = text.index("DEAL_II_NAMESPACE_OPEN")
    text = text[:start] + open(os.path.join(
        VERIF, "lib/tsan/work_stream_threads.hpp")).read() + text[start:]
    path = os.path.join(CACHE, "tsan_include/deal.II/base/work_stream.h")
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        f.write(text)
    os.replace(path + ".tmp", path)

TRILINOS = sorted(os.path.basename(x)[3:-3] for x in
                  glob.glob(f"{LIBDIR}/libtrilinos_*.so"))


def link_libs(variant):
    l = [f"-l{VARIANTS[variant]['dealii']}"]
    l += [f"-l{t}" for t in TRILINOS]
    l += ["-lslepc", "-lpetsc", "-lp4est", "-lsc", "-lmetis", "-ltbb", "-lboost_iostreams",
          "-lboost_serialization", "-lboost_system", "-lboost_thread",
          "-llapacke", "-llapack", "-lblas", "-larpack", "-lumfpack",
          "-lz", "-lmpi_cxx", "-lmpi", "-lpthread", "-lm"]
    return l


def _strip(text):
    """Remove comments outside of strings, normalise white space."""
    pat = re.compile(
        r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'',
        re.S)
    text = re.sub(r"\\\n", " ", text)
    text = pat.sub(lambda m: " " if m.group(0)[0] == "/" else m.group(0),
                   text)
    out = []
    for line in text.split("\n"):
        line = " ".join(line.split())
        if line:
            out.append(line)
    return "\n".join(out)


_norm_cache = {}


def norm_hash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _norm_cache:
        with open(path, errors="replace") as f:
            _norm_cache[k] = hashlib.sha256(
                _strip(f.read()).encode()).hexdigest()
    return _norm_cache[k]


def flags_for(variant):
    return BASE + VARIANTS[variant]["cxx"] + PRE + INC


def key_of(variant, src, deps, extra):
    h = hashlib.sha256()
    h.update(json.dumps([CXX, flags_for(variant), extra,
                         os.path.relpath(src, "/")]).encode())
    for d in sorted(set(deps)):
        h.update((d + norm_hash(d)).encode())
    return h.hexdigest()[:32]


def slug(src):
    for root, n in ((REPO + "/", "repo_"), (VERIF + "/", "verif_")):
        if src.startswith(root):
            return n + src[len(root):].replace("/", "_")
    return src.replace("/", "_")


class BuildError(Exception):
    pass


def _demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), text=True,
                       stdout=subprocess.PIPE)
    return r.stdout.rstrip("\n").split("\n")


_gnu = {}


def gnu_names(lib):
    """deal.II was built by g++, which mangles std::enable_if signatures in
    another way than clang: demangled name -> symbol of the library."""
    if lib not in _gnu:
        path = os.path.join(CACHE, f"gnu-{lib}.json")
        if os.path.exists(path):
            _gnu[lib] = json.load(open(path))
        else:
            r = subprocess.run(
                ["nm", "-D", "--defined-only", f"{LIBDIR}/lib{lib}.so"],
                stdout=subprocess.PIPE, text=True)
            syms = [l.split()[-1] for l in r.stdout.splitlines()
                    if "XsrSt" in l or "Xnt" in l]
            _gnu[lib] = dict(zip(_demangle(syms), syms))
            tmp = path + f".{os.getpid()}.{id(r)}"
            json.dump(_gnu[lib], open(tmp, "w"))
            os.replace(tmp, path)
    return _gnu[lib]


def fix_symbols(variant, obj):
    r = subprocess.run(["nm", "-u", obj], stdout=subprocess.PIPE, text=True)
    und = [l.split()[-1] for l in r.stdout.splitlines() if "sr3std" in l]
    if not und:
        return
    names = gnu_names(VARIANTS[variant]["dealii"])
    args = []
    for u, d in zip(und, _demangle(und)):
        if d in names:
            args += ["--redefine-sym", f"{u}={names[d]}"]
    if args:
        subprocess.run(["objcopy"] + args + [obj], check=True)


def compile_one(variant, src, extra=()):
    extra = list(extra)
    d = os.path.join(CACHE, variant)
    os.makedirs(d, exist_ok=True)
    man_path = os.path.join(d, slug(src) + ".json")
    man = []
    if os.path.exists(man_path):
        try:
            man = json.load(open(man_path))
        except ValueError:
            man = []
    for e in man:
        if not all(os.path.exists(x) for x in e["deps"]):
            continue
        k = key_of(variant, src, e["deps"], extra)
        if k == e["key"] and os.path.exists(os.path.join(d, k + ".o")):
            return os.path.join(d, k + ".o"), k, 0.0
    t0 = time.time()
    tmp = os.path.join(d, slug(src) + f".{os.getpid()}")
    cmd = [CXX] + flags_for(variant) + extra + [
        "-c", src, "-o", tmp + ".o", "-MD", "-MF", tmp + ".d"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        raise BuildError(f"{src} [{variant}]: {r.stdout[-3000:]}")
    fix_symbols(variant, tmp + ".o")
    deps = open(tmp + ".d").read().replace("\\\n", " ").split()
    deps = [os.path.realpath(x) for x in deps if not x.endswith(":")]
    deps = sorted({x for x in deps
                   if x.startswith(REPO + "/") or x.startswith(VERIF + "/")})
    k = key_of(variant, src, deps, extra)
    os.replace(tmp + ".o", os.path.join(d, k + ".o"))
    os.remove(tmp + ".d")
    man = [e for e in man if e["key"] != k]
    man.insert(0, {"deps": deps, "key": k})
    for e in man[5:]:
        try:
            os.remove(os.path.join(d, e["key"] + ".o"))
        except OSError:
            pass
    with open(man_path + ".tmp", "w") as f:
        json.dump(man[:5], f)
    os.replace(man_path + ".tmp", man_path)
    return os.path.join(d, k + ".o"), k, time.time() - t0


def lib_sources():
    return sorted(glob.glob(f"{REPO}/source/common/**/*.cc", recursive=True) +
                  glob.glob(f"{REPO}/source/dealii/**/*.cc", recursive=True))


HARNESSES = {
    # name: (source, needs the whole library, extra flags)

    "h_agg": ("harness/h_agg.cc", True, []),
    "h_common": ("harness/h_common.cc", False, []),
    "h_op": ("harness/h_op.cc", True, []),
    "h_hier": ("harness/h_hier.cc", True, []),


}


def link(variant, name, objs, keys):
    d = os.path.join(CACHE, variant)
    k = hashlib.sha256(json.dumps(
        [sorted(keys), VARIANTS[variant]["ld"],
         link_libs(variant)]).encode()).hexdigest()[:24]
    exe = os.path.join(d, f"{name}-{k}")
    if os.path.exists(exe):
        return exe
    for old in sorted(glob.glob(os.path.join(d, f"{name}-*")),
                      key=os.path.getmtime)[:-2]:
        os.remove(old)
    cmd = [CXX, "-fuse-ld=gold", "-pthread"] + VARIANTS[variant]["ld"] + \
        objs + ["-o", exe + ".tmp",
                "-Wl,-rpath," + LIBDIR + "/openmpi/lib",
                f"-L{LIBDIR}/openmpi/lib", "-Wl,--as-needed",
                "-Wl,--allow-shlib-undefined"] + link_libs(variant)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        raise BuildError(f"link {name} [{variant}]: {r.stdout[-3000:]}")
    os.replace(exe + ".tmp", exe)
    return exe


def build(targets, jobs=8, verbose=False):
    """targets: list of (harness name, variant); returns {target: exe}."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if any(v == "tsan" for _, v in targets):
            tsan_header()
        units = {}
        per_target = {}
        for t in targets:
            name, variant = t
            src, full, extra = HARNESSES[name]
            srcs = [(os.path.join(VERIF, src), tuple(extra))]
            libs = lib_sources()
            if not full:
                libs = [s for s in libs if s.endswith("/utils.cc") and
                        "/common/" in s]
            srcs += [(s, ()) for s in libs]
            per_target[t] = [(variant, s, e) for s, e in srcs]
            for u in per_target[t]:
                units[u] = None

        def cost(u):
            s = u[1]
            for i, p in enumerate(("amge_host", "h_hier", "matrix_free_hier",
                                   "h_agg", "h_op", "amge.cc", "h_common")):
                if p in s:
                    return i
            return 99
        order = sorted(units, key=cost)
        with cf.ThreadPoolExecutor(jobs) as ex:
            futs = {u: ex.submit(compile_one, u[0], u[1], u[2])
                    for u in order}
            for u, f in futs.items():
                try:
                    units[u] = f.result()
                except BuildError:
                    # a harness uses the templates of /repo with more types
                    # than /repo itself does: leave those out
                    if not u[1].startswith(VERIF + "/"):
                        raise
                    units[u] = compile_one(u[0], u[1],
                                           u[2] + ("-DVF_MINIMAL",))
                if verbose and units[u][2] > 0:
                    print(f"  built {u[0]} {slug(u[1])} "
                          f"{units[u][2]:.1f}s", flush=True)
        out = {}
        with cf.ThreadPoolExecutor(jobs) as ex:
            futs = {t: ex.submit(link, t[1], t[0],
                                 [units[u][0] for u in us],
                                 [units[u][1] for u in us])
                    for t, us in per_target.items()}
            for t, f in futs.items():
                out[t] = f.result()
        return out


if __name__ == "__main__":
    ts = [tuple(a.split(":")) for a in sys.argv[1:]]
    for t, e in build(ts, verbose=True).items():
        print(t, e)
