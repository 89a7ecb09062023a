"""Mechanical extraction: compile /repo's current sources to LLVM IR (textual) for the verifier,
and build the native library used for counterexample replay.

What the extraction keeps: the IR clang emits for the real translation units with the flags of the
repository's own build (NDEBUG, HDF5 on), optimised only by inlining + scalar clean-up (no loop or
floating-point transformation).  What it drops: debug info, TBAA, unreferenced linkonce functions.
"""
import os, re, subprocess, sys, tempfile, shutil, hashlib, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("FV_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
TUS = ["base", "config", "linear", "moment", "moment_sup", "rf_cavity", "chg_stripper",
       "glps_parser", "glps_ops", "util"]
DEFS = ("-DNDEBUG -DUSE_HDF5 -DBOOST_ATOMIC_DYN_LINK -DBOOST_ATOMIC_NO_LIB -DBOOST_FILESYSTEM_DYN_LINK "
        "-DBOOST_FILESYSTEM_NO_LIB -DBOOST_SYSTEM_DYN_LINK -DBOOST_SYSTEM_NO_LIB -DBOOST_THREAD_DYN_LINK "
        "-DBOOST_THREAD_NO_LIB").split()
IRFLAGS = ("-w -fPIC -O1 -Xclang -disable-llvm-passes -fno-strict-aliasing -ffp-contract=off "
           "-fno-math-errno -fno-vectorize -fno-slp-vectorize -fno-unroll-loops").split()


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    """private scratch directory, removed at exit"""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="fv-")
        import atexit
        pid = os.getpid()

        def rm():
            if os.getpid() == pid and not os.environ.get("FV_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:300], r.stderr[-4000:]))
    return r.stdout


def includes():
    return ["-I" + REPO + "/src", "-I" + scratch() + "/gen", "-I/usr/include/hdf5/serial"]


_gen = False


def generate_parser():
    global _gen
    if _gen:
        return
    g = scratch() + "/gen"
    os.makedirs(g, exist_ok=True)
    run(["bison", "-o", "glps.par.c", "--defines=glps.par.h", REPO + "/src/glps.y"], cwd=g)
    run(["flex", "-o", "glps.tab.c", "--header-file=glps.tab.h", REPO + "/src/glps.l"], cwd=g)
    _gen = True


FLAME_RE = re.compile(r'^_ZN?K?(St|Sa|Ss|S[a-z]|5boost|9__gnu_cxx|10__cxxabiv1|N5boost|NSt)')


def is_library(m):
    """mangled name -> True if it belongs to std/boost/gnu"""
    if not m.startswith("_Z"):
        return True
    m2 = m[2:]
    if re.match(r'(nwm|nam|dlPv|daPv)', m2):
        return True
    if m2.startswith("T") or m2.startswith("G"):
        return True
    m2 = re.sub(r'^N[rVK]*', '', m2)
    return bool(re.match(r'(St|S[absiod]|5boost|9__gnu_cxx|10__cxxabiv1)', m2))


VEC_KEEP = re.compile(r'::(vector|~vector|operator=|resize|push_back|reserve|clear|insert|assign|erase|at|swap|'
                      r'emplace_back|pop_back|shrink_to_fit|_M_\w+)\(')


def want_noinline(m, d):
    if not is_library(m):
        # trivial accessors may be inlined; everything else of FLAME stays a call
        return True
    if re.match(r'_ZNK?St6vectorINSt7__cxx1112basic_string', m) or re.match(r'_ZSt(4copyI.*basic_string|7reverseI)', m):
        return True
    if "St6vectorI" in m[:14]:
        # std::vector<...>:: members
        return bool(VEC_KEEP.search(d.split(">::", 1)[-1] if False else strip_templates(d)))
    if re.match(r'_ZNK?St(3map|4list|8_Rb_tree|3set|5deque|13_Rb_tree_|8ios_base|13basic_)', m):
        return True
    if re.match(r'_ZNK?St7__cxx11', m) or re.match(r'_ZNK?S[siod]', m):
        return True
    if re.match(r'_ZN?K?5boost(10shared_ptr|12lexical_cast|3get|7variant|3any|10scoped_ptr|8any_cast|6detail12shared_count)', m):
        return True
    if m.startswith(("_ZN5boost7numeric5ublas12lu_factorize", "_ZN5boost7numeric5ublas13lu_substitute",
                     "_ZStls", "_ZStpl", "_ZSteq", "_ZStne", "_ZStlt")):
        return True
    if re.match(r'_ZN?K?5boost12lexical_cast', m):
        return True
    return False


def strip_templates(d):
    out = []
    depth = 0
    i = 0
    while i < len(d):
        c = d[i]
        if d.startswith("operator<<", i) or d.startswith("operator>>", i):
            out.append(d[i:i + 10]); i += 10; continue
        if d.startswith("operator<", i) or d.startswith("operator>", i):
            if d.startswith("operator<=", i) or d.startswith("operator>=", i):
                out.append(d[i:i + 10]); i += 10; continue
            # operator< / operator> (maybe template args follow)
            out.append(d[i:i + 9]); i += 9; continue
        if d.startswith("operator->", i):
            out.append(d[i:i + 10]); i += 10; continue
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


def demangle(names):
    r = subprocess.run([LLVM + "llvm-cxxfilt"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split("\n")))


DEFNAME = re.compile(r'@("?)([\w.$]+)\1\(')

PIPE = ("cgscc(inline,function(sroa,early-cse<memssa>,simplifycfg,sroa,instcombine<no-verify-fixpoint>,simplifycfg)),"
        "globaldce")


def src_of(tu):
    if tu == "inst":
        return os.path.join(os.path.dirname(os.path.abspath(__file__)), "inst.cpp")
    return "%s/src/%s.cpp" % (REPO, tu)


def build_ir(tu, keep_inline=None, pipe=PIPE):
    """returns path of processed .ll"""
    generate_parser()
    d = scratch() + "/ir"
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, tu + ".ll")
    if os.path.exists(out):
        return out
    raw = os.path.join(d, tu + ".raw.ll")
    cmd = ["clang++"] + IRFLAGS + DEFS + includes() + ["-Xclang", "-fdump-record-layouts", "-S", "-emit-llvm"]
    try:
        lay = run(cmd + [src_of(tu), "-o", raw])
    except BuildError:
        if tu != "inst":
            raise
        # the headers no longer offer one of these functions under that signature: the tasks on them become verifier limits
        e = os.path.join(d, "empty.cpp")
        open(e, "w").write("int fv_empty;\n")
        lay = run(cmd + [e, "-o", raw])
    open(os.path.join(d, tu + ".lay"), "w").write(lay)
    txt = open(raw).read().replace(" alwaysinline", "").split("\n")
    names = []
    for l in txt:
        if l.startswith("define "):
            names.append(DEFNAME.search(l).group(2))
    dm = demangle(names)
    for i, l in enumerate(txt):
        if l.startswith("define "):
            m = DEFNAME.search(l)
            n = m.group(2)
            if want_noinline(n, dm[n]) and " alwaysinline" not in l:
                p = m.end() - 1
                dep = 0
                while True:
                    if l[p] == '(':
                        dep += 1
                    elif l[p] == ')':
                        dep -= 1
                        if dep == 0:
                            break
                    p += 1
                q = p + 1
                mm = re.match(r' (local_unnamed_addr|unnamed_addr)', l[q:])
                if mm:
                    q += mm.end()
                txt[i] = l[:q] + " noinline" + l[q:]
    ni = os.path.join(d, tu + ".ni.ll")
    open(ni, "w").write("\n".join(txt))
    run([LLVM + "opt", "-S", "-passes=" + pipe, "-inline-threshold=2000", ni, "-o", out])
    os.unlink(raw)
    os.unlink(ni)
    return out


def build_all_ir(tus=TUS):
    generate_parser()
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(tus, ex.map(build_ir, tus)))


def build_native(extra=()):
    """compile /repo's library sources and the shim into one shared object; returns its path"""
    generate_parser()
    d = scratch() + "/native"
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "libflshim.so")
    if os.path.exists(out):
        return out
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    g = scratch() + "/gen/"
    flags = ["-w", "-fPIC", "-O1", "-ffp-contract=off"] + DEFS + includes() + list(extra)
    jobs = [("g++", "%s/src/%s.cpp" % (REPO, t), t) for t in TUS] + \
           [("g++", REPO + "/src/h5loader.cpp", "h5loader"), ("g++", REPO + "/src/h5writer.cpp", "h5writer"),
            ("gcc", g + "glps.par.c", "glps.par"), ("gcc", g + "glps.tab.c", "glps.tab"),
            ("g++", here + "/native/shim.cpp", "shim"), ("g++", here + "/native/shim_int.cpp", "shim_int")]

    def cc(j):
        o = os.path.join(d, j[2] + ".o")
        try:
            run([j[0]] + flags + (["-fpermissive"] if j[0] == "g++" else ["-I" + REPO + "/src"]) + ["-c", j[1], "-o", o])
        except BuildError:
            if j[2] == "shim_int":
                return None     # internals renamed: only the public interface is exercised
            raise
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(filter(None, ex.map(cc, sorted(jobs, key=lambda j: j[2] not in ("rf_cavity", "moment", "linear", "shim")))))
    run(["g++", "-shared", "-o", out] + objs + ["-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lhdf5_cpp", "-lhdf5",
         "-L/usr/lib/x86_64-linux-gnu/hdf5/serial"])
    return out


if __name__ == "__main__":
    t = time.time()
    r = build_all_ir(sys.argv[1:] or TUS)
    for k, v in r.items():
        print(k, v, sum(1 for _ in open(v)))
    print(time.time() - t)
