"""Builds the monitored library and one monitor program from /repo's current tree.
Objects are cached by content under /verif/build (ignored by git)."""
import hashlib, os, subprocess, glob, shutil, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

INC = ["pcu", "pcu/noto", "pcu/reel", "agi", "interfaces", "support", "partition", "partition/Multilevel",
       "partition/Metrics", "partition/Coloring", "partition/Diffusive", "partition/Diffusive/src"]
DEFS = ["-DENGPAR_HAS_MALLINFO2", "-DHAS_PARMETIS", "-DHAS_ZOLTAN", "-DLOCAL_ID_FTYPE=C_INT32_T", "-DLOCAL_ID_TYPE=int32_t"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=null,nonnull-attribute,vptr", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
FLAVOURS = {
    "san": dict(cxx=["mpicxx"], cc=["mpicc"], lib=SAN + ["-O1", "-g1"], har=["-fsanitize=address", "-fno-omit-frame-pointer", "-O1", "-g1"],
                link=["-fsanitize=address,undefined"]),
    "plain": dict(cxx=["mpicxx"], cc=["mpicc"], lib=["-O1", "-g1"], har=["-O1", "-g1"], link=[]),
    "fill0": dict(cxx=["mpicxx"], cc=["mpicc"], lib=["-O1", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=zero"], har=["-O1", "-g1"], link=[]),
    "fillp": dict(cxx=["mpicxx"], cc=["mpicc"], lib=["-O1", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"], har=["-O1", "-g1"], link=[]),
}
LIBS = ["-lparmetis", "-lmetis", "/usr/lib/x86_64-linux-gnu/libtrilinos_zoltan.so", "-lpthread", "-ldl"]


def rg(pat):
    return sorted(glob.glob(os.path.join(REPO, pat), recursive=True))


def lib_sources(pcu_only):
    src = rg("pcu/*.c") + rg("pcu/noto/*.c") + rg("pcu/reel/*.c")
    if not pcu_only:
        src += [s for s in rg("agi/**/*.cpp") + rg("interfaces/*.cpp") + rg("partition/**/*.cpp") + rg("support/*.cpp")
                if os.path.basename(s) not in ("apfGraph.cpp", "dofGraph.cpp") and "/Coloring/" not in s
                and os.path.basename(s) != "engpar_version.cpp"]
        src.append(os.path.join(VERIF, "mon", "version_stub.cpp"))
    return src


def digest_files(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_one(args):
    cmd, src, obj = args
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        return "compiling %s failed:\n%s" % (src, r.stdout[-3000:])
    os.rename(tmp, obj)
    return None


def build(module, flavour="san", pcu_only=False, wraps=(), extra_src=(), defs=(), libdefs=(), extra_flags=(), collect=None):
    """returns the path of the monitor program; with collect, only notes what has to be compiled"""
    F = FLAVOURS[flavour]
    objdir = os.path.join(BUILD, "obj"); bindir = os.path.join(BUILD, "bin")
    os.makedirs(objdir, exist_ok=True); os.makedirs(bindir, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, i) for i in INC] + ["-I/usr/include/trilinos", "-I" + os.path.join(VERIF, "mon")]
    hdrs = [p for p in rg("**/*.h") + rg("**/*.hpp") if "/build" not in p]
    hd = digest_files(hdrs)
    mon = os.path.join(VERIF, "mon")
    mh = digest_files(sorted(glob.glob(mon + "/*.h")))
    jobs, objs = [], []

    def add(src, flags, isC, extra=""):
        comp = (F["cc"] + ["-std=gnu11"]) if isC else (F["cxx"] + ["-std=gnu++14"])
        cmd = comp + flags + DEFS + inc + ["-w"]
        key = hashlib.sha256((" ".join(cmd) + hd + extra + src).encode() + open(src, "rb").read()).hexdigest()[:24]
        o = os.path.join(objdir, os.path.basename(src) + "-" + key + ".o")
        jobs.append((cmd, src, o)); objs.append(o)

    hflags = F["har"] + list(defs) + (["-DNO_ENGPAR"] if pcu_only else [])
    harness = [module, "main", "pmpi"] + ([] if pcu_only else ["model"]) + list(extra_src)
    for m in harness:
        if m.endswith(".f90"):
            src = os.path.join(mon, m); md = os.path.join(BUILD, "fmod.%d" % os.getpid())
            if collect is None: os.makedirs(md, exist_ok=True)
            cmd = ["gfortran", "-cpp", "-O2", "-g1", "-I" + os.path.join(REPO, "ftn")] + DEFS + ["-I" + os.path.join(REPO, i) for i in INC] + ["-w"]
            key = hashlib.sha256((" ".join(cmd) + hd + digest_files(rg("ftn/*.f90"))).encode() + open(src, "rb").read()).hexdigest()[:24]
            o = os.path.join(objdir, m + "-" + key + ".o"); jobs.append((cmd + ["-J" + md], src, o)); objs.append(o)
            continue
        add(os.path.join(mon, m + ".cpp"), hflags, False, mh)
    for s in lib_sources(pcu_only):
        add(s, F["lib"] + list(libdefs), s.endswith(".c"), "")
    if collect is not None:
        for j in jobs:
            if not j[2].endswith(".f90.o") and "gfortran" not in j[0]: collect[j[2]] = j
        return None
    # biggest sources first
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    shutil.rmtree(os.path.join(BUILD, "fmod.%d" % os.getpid()), ignore_errors=True)
    if errs:
        raise BuildError("\n".join(errs))
    lf = list(F["link"]) + ["-Wl,--wrap=" + w for w in wraps] + list(extra_flags)
    key = hashlib.sha256((" ".join(objs + lf)).encode()).hexdigest()[:24]
    exe = os.path.join(bindir, module + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(F["cxx"] + lf + objs + ["-o", tmp] + LIBS + ["-rdynamic"] + (["-lgfortran"] if any(m.endswith(".f90") for m in harness) else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (module, r.stdout[-3000:]))
        os.rename(tmp, exe)
    return exe


def prune():
    """keep the cache bounded"""
    for d, lim in (("obj", 3000), ("bin", 250)):
        p = os.path.join(BUILD, d)
        if os.path.isdir(p):
            fs = sorted((os.path.join(p, f) for f in os.listdir(p)), key=os.path.getmtime)
            for f in fs[:-lim]:
                try: os.unlink(f)
                except OSError: pass


if __name__ == "__main__":
    import time
    t = time.time(); print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "san")); print(time.time() - t)
