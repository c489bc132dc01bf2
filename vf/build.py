"""Builds the code under test from /repo's working tree (never from a copy), and the harnesses, into /verif/build."""
import hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = "datastruct tools graph models modules bipartite missing matrix sparse_missing layout recommend conflict " \
      "multiblock only_deg sannealing partition io fillpartitions movements".split()
CLI = {
    "netcarto": "netcarto/main_netcarto.c", "netcarto_legacy": "netcarto/main_netcarto_legacy.c",
    **{n: f"utils/main_{n}.c" for n in ("bipartitemodularity bipartitemodularity_w countlinks getgiant lapspec "
       "modularbipart multinetlayout mutualinfo netcompare netlayout netprop netrandomize nodeprop").split()},
    **{n: f"reliability/main_{n}.c" for n in ("reliability_links reliability_links_gibbs reliability_links_gibbs_sparse "
       "reliability_links_k reliability_reconstruct").split()},
    **{n: f"recommender/main_{n}.c" for n in "multi_recommend_2 multi_recommend_k multi_recommend_k_gibbs".split()},
    **{n: f"multiblock/main_{n}.c" for n in ("reliability_links_mb reliability_links_mb_OR reliability_links_mb_gibbs "
       "reliability_links_mb_gibbs_OR").split()},
    **{n: f"only_deg/main_{n}.c" for n in "only_degeneration_mb only_degeneration_mb_gibbs".split()},
    "conflict": "conflict/main_conflict.c",
}
COMMON = ["-g", "-w", "-fno-pie", "-no-pie", "-D_GNU_SOURCE", "-DRGRAPH_VERIF_BUILD"]
FLAVOURS = {
    # memory errors and undefined behaviour abort the run; uninitialised locals hold a pattern, as does fresh heap memory
    "san": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "plain": ["-O2"],
    "zero": ["-O2", "-ftrivial-auto-var-init=zero"],
    "pattern": ["-O2", "-ftrivial-auto-var-init=pattern"],
    "val": ["-O1"],            # for valgrind
}
JOBS = os.cpu_count() or 4


import threading
_shim_lock = threading.Lock()


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def _hash_files(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def shim():
    with _shim_lock:
        return _shim()


def _shim():
    """system <search.h> declares what lib/search.c defines; the generated gnulib headers are not needed"""
    inc = os.path.join(BUILD, "inc")
    os.makedirs(inc, exist_ok=True)
    for name, text in (("search.h", "#include_next <search.h>\n"), ("config.h", "#define VERSION \"verif\"\n#define PACKAGE \"rgraph\"\n")):
        p = os.path.join(inc, name)
        if not os.path.exists(p):
            with open(p + ".tmp%d" % os.getpid(), "w") as f:
                f.write(text)
            os.replace(p + ".tmp%d" % os.getpid(), p)
    return inc


def headers():
    out = []
    for d in ("src", "lib"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in fs if f.endswith(".h") and d == "src"]
    return out


def _compile(src, flavour, extra=()):
    flags = COMMON + FLAVOURS[flavour] + list(extra)
    inc = shim()
    key = _hash_files([src] + headers(), flavour + " ".join(flags))
    odir = os.path.join(BUILD, "obj", flavour)
    os.makedirs(odir, exist_ok=True)
    obj = os.path.join(odir, os.path.basename(src)[:-2] + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        sh(["gcc", *flags, "-I" + inc, "-I" + os.path.join(REPO, "src"), "-c", src, "-o", tmp])
        os.replace(tmp, obj)
    return obj


def repo_objects(flavour):
    """objects of the library, in link order; every .c of /repo/src that compiles into the library"""
    files = [os.path.join(REPO, "src", s + ".c") for s in SRC]
    known = {os.path.basename(f) for f in files} | {"genetic.c"}
    # sources added by a change (for instance an extracted helper file) belong to the library as well
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".c") and f not in known:
            files.append(os.path.join(REPO, "src", f))
    files.append(os.path.join(REPO, "lib", "search.c"))
    # big files first
    order = sorted(files, key=lambda f: -os.path.getsize(f))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = dict(zip(order, ex.map(lambda f: _compile(f, flavour), order)))
    return [objs[f] for f in files]


def archive(flavour):
    objs = repo_objects(flavour)
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    lib = os.path.join(BUILD, "obj", flavour, "librgraph-%s.a" % key)
    search = [o for o in objs if os.path.basename(o).startswith("search-")][0]
    if not os.path.exists(lib):
        tmp = lib + ".tmp%d" % os.getpid()
        if os.path.exists(tmp):
            os.unlink(tmp)
        sh(["ar", "rcs", tmp, *[o for o in objs if o != search]])
        os.replace(tmp, lib)
    return lib, search


LIBS = ["-lgsl", "-lgslcblas", "-lm"]


def _hobj(f, flavour, defs, hdrs):
    key = _hash_files([f] + hdrs + headers(), flavour + " ".join(defs))
    odir = os.path.join(BUILD, "obj", "h")
    os.makedirs(odir, exist_ok=True)
    obj = os.path.join(odir, os.path.basename(f)[:-4] + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        sh(["g++", "-std=c++17", "-g", "-w", "-fpermissive", "-O1", "-fno-pie", *defs, "-I" + shim(),
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness"), "-c", f, "-o", tmp])
        os.replace(tmp, obj)
    return obj


def harness(name, flavour="san", defs=()):
    """compiles harness/<name>.cpp against the library built with the given flavour"""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    hdrs = [os.path.join(VERIF, "harness", h) for h in os.listdir(os.path.join(VERIF, "harness")) if h.endswith(".hpp")]
    with ThreadPoolExecutor(2) as ex:
        fo = ex.submit(_hobj, src, flavour, list(defs), hdrs)
        lib, search = archive(flavour)
        obj = fo.result()
    key = hashlib.sha256((obj + lib + search).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, flavour, key))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        wrap = []
        with open(src) as fh:
            text = fh.read()
            if "VF_SHARED_TABLE" in text:   # see samp.hpp
                wrap = ["-Wl,--wrap=InitializeFastLogChoose", "-Wl,--wrap=FreeFastLogChoose"]
            if "VF_WRAP_PARTITION" in text:   # see samp2.hpp
                wrap.append("-Wl,--wrap=RemovePartition")
        sh(["g++", *[f for f in FLAVOURS[flavour] if f.startswith("-fsan")], "-no-pie", "-g", obj, search, lib, *wrap, *LIBS, "-o", tmp])
        os.replace(tmp, exe)
    return exe


STUBS = {"reliability_links": "LinkScore", "reliability_links_gibbs": "GibbsLinkScore", "reliability_links_gibbs_sparse": "SparseGibbsLinkScore",
         "reliability_links_mb": "LinkScoreMB", "reliability_links_mb_OR": "ORLinkScoreMB", "reliability_links_mb_gibbs": "GibbsLinkScoreMB",
         "reliability_links_mb_gibbs_OR": "ORGibbsLinkScoreMB", "only_degeneration_mb": "LinkScoreMB_OD", "only_degeneration_mb_gibbs": "GibbsLinkScoreMB_OD",
         "reliability_links_k": "LSMultiLinkScoreKState", "multi_recommend_2": "MultiLinkScore2State", "multi_recommend_k": "MultiLinkScoreKState",
         "multi_recommend_k_gibbs": "GibbsMultiLinkScoreKState", "conflict": "AllLinkScore2State"}


def stubbed(flavour="san"):
    """the programs whose main calls its sampler directly, linked with the stand-ins of harness/stub_scores.c"""
    with ThreadPoolExecutor(JOBS) as ex:
        mains = {n: ex.submit(_compile, os.path.join(REPO, CLI[n]), flavour) for n in STUBS}
        stub = _compile(os.path.join(VERIF, "harness", "stub_scores.c"), flavour)
        lib, search = archive(flavour)

        def link(n):
            obj = mains[n].result()
            und = subprocess.run(["nm", "-u", obj], stdout=subprocess.PIPE, text=True).stdout.split()
            if STUBS[n] not in und:
                return None
            exe = os.path.join(BUILD, "bin", "%s-stub-%s" % (n, hashlib.sha256((obj + lib + search + stub).encode()).hexdigest()[:16]))
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            if not os.path.exists(exe):
                tmp = exe + ".tmp%d" % os.getpid()
                try:
                    sh(["gcc", *FLAVOURS[flavour], "-no-pie", obj, stub, search, lib, *["-Wl,--wrap=" + x for x in set(STUBS.values())], *LIBS, "-o", tmp])
                except BuildError:
                    return None
                os.replace(tmp, exe)
            return exe
        return dict(zip(STUBS, list(ex.map(link, STUBS))))


def cli(names, flavour="san"):
    """links the named programs; returns {name: path}"""
    names = list(names)
    with ThreadPoolExecutor(JOBS) as ex:
        mains = {n: ex.submit(_compile, os.path.join(REPO, CLI[n]), flavour) for n in names}
        lib, search = archive(flavour)
        mains = {n: f.result() for n, f in mains.items()}

        def link(n):
            key = hashlib.sha256((mains[n] + lib + search).encode()).hexdigest()[:16]
            exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (n, flavour, key))
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            if not os.path.exists(exe):
                tmp = exe + ".tmp%d" % os.getpid()
                sh(["gcc", *FLAVOURS[flavour], "-no-pie", mains[n], search, lib, *LIBS, "-o", tmp])
                os.replace(tmp, exe)
            return exe
        return dict(zip(names, ex.map(link, names)))


def prune(max_bytes=600 << 20):
    """keeps /verif/build small: drops the oldest build products"""
    fs = []
    for d in ("obj", "bin"):
        for root, _, names in os.walk(os.path.join(BUILD, d)):
            for n in names:
                p = os.path.join(root, n)
                try:
                    st = os.stat(p)
                    fs.append((st.st_mtime, st.st_size, p))
                except OSError:
                    pass
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= max_bytes:
            break
        try:
            os.unlink(p)
            tot -= s
        except OSError:
            pass
