"""Builds harness binaries from /repo's working tree (never inside /repo), with an object cache under /verif/build."""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = f"{REPO}/libsymmetrix/source"
PAIR = f"{REPO}/pair_symmetrix"
BIND = f"{REPO}/symmetrix/source/cpp"

INC = [f"-I{SRC}", f"-I{VERIF}/shim/cblas/source", f"-I{VERIF}/shim/sphericart", f"-I{VERIF}/engine", f"-I{VERIF}/harness"]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-O1", "-g1", "-fsanitize=thread"]
REL = ["-O3", "-DNDEBUG", "-march=x86-64-v3", "-ffast-math"]
VARIANTS = {
    # name: (flags for /repo's sources, flags for our sources, link flags, naive cblas?)
    "san": (SAN, SAN, SAN, True),
    "rel": (REL, ["-O2", "-g1", "-march=x86-64-v3"], ["-O2"], False),
    "tsan": (TSAN, TSAN, TSAN, True),
}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


_hdr_cache = {}


def _headers_hash(dirs):
    key = tuple(dirs)
    if key not in _hdr_cache:
        h = hashlib.sha256()
        for d in dirs:
            for root, subdirs, files in os.walk(d):
                subdirs.sort()
                for f in sorted(files):
                    if f.endswith((".hpp", ".h", ".hh", ".hxx", ".inc", ".ipp", ".inl", ".tpp", ".txx", ".def")) or "." not in f:
                        p = os.path.join(root, f)
                        h.update(p.encode())
                        h.update(open(p, "rb").read())
        _hdr_cache[key] = h.hexdigest()
    return _hdr_cache[key]


def compile_obj(src, flags, incs, hdr_dirs, cxx="g++", timeout=600):
    cmd = [cxx, "-std=gnu++20", "-fPIC", "-w"] + flags + incs
    key = _sha(open(src, "rb").read(), " ".join(cmd), src, _headers_hash(hdr_dirs))
    out = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = f"{out}.{os.getpid()}.tmp"
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError(f"compiling {src} failed:\n{r.stderr[-4000:]}")
    os.replace(tmp, out)
    return out


def build(name, repo_srcs, own_srcs, variant, extra_inc=(), defines=(), libs=("-lopenblas",), hdr_dirs=(), cxx="g++", shared=False, own_flags=()):
    """Returns the path of the executable (or shared object)."""
    rflags, oflags, lflags, naive = VARIANTS[variant]
    incs = list(extra_inc) + INC
    hdirs = [SRC, PAIR, BIND, f"{VERIF}/shim", f"{VERIF}/engine", f"{VERIF}/harness"] + list(hdr_dirs)
    jobs = [(s, rflags + list(defines)) for s in repo_srcs] + [(s[0], oflags + list(defines) + list(s[1])) if isinstance(s, tuple) else (s, oflags + list(defines) + list(own_flags)) for s in own_srcs]
    if naive:
        jobs.append((f"{VERIF}/shim/cblas/naive_cblas.cpp", oflags))
    if not shared:
        jobs.append((f"{VERIF}/engine/pbt_main.cpp", oflags))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_obj(j[0], j[1], incs, hdirs, cxx), jobs))
    key = _sha(*objs, " ".join(lflags), " ".join(libs), shared)
    out = os.path.join(BUILD, "bin", f"{name}-{variant}-{key}" + (".so" if shared else ""))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = f"{out}.{os.getpid()}.tmp"
        cmd = [cxx, "-std=gnu++20"] + lflags + (["-shared"] if shared else []) + objs + ["-o", tmp] + list(libs) + ["-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(f"linking {name} failed:\n{r.stderr[-4000:]}")
        os.replace(tmp, out)
        # keep the cache small
        old = sorted(glob.glob(os.path.join(BUILD, "bin", f"{name}-{variant}-*")), key=os.path.getmtime)[:-4]
        for o in old:
            os.unlink(o)
    return out


def prune(max_objs=600):
    objs = sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")), key=os.path.getmtime)
    for o in objs[:-max_objs]:
        os.unlink(o)
