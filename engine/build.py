#!/usr/bin/env python3
"""Build a harness twice from the current /repo tree: symbolic (instrumented LLVM IR) and native."""
import os, sys, subprocess, hashlib, glob, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
M = "/opt/bezdeps/main/lib/python3.12/site-packages/cmeel.prefix"
H = "/opt/bezdeps/hcd/lib/python3.12/site-packages/cmeel.prefix"
ENG = VERIF + "/engine"
CACHE = os.environ.get("VERIF_CACHE", "")
INC = ["-I" + REPO + "/include", "-I" + ENG, "-I" + VERIF + "/harness", "-I" + VERIF + "/stubs",
       "-isystem", M + "/include", "-isystem", M + "/include/eigen3", "-isystem", H + "/include", "-isystem", H + "/include/cddlib"]
CLANG = ["clang++-18", "-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fno-math-errno",
         "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE", "-DUSE_GLPK_SOLVER=1", "-DBOOST_MPL_LIMIT_LIST_SIZE=30",
         "-w", "-fPIC", "-include", ENG + "/prefix.h"]
SRC_LIST = ["common_solve_methods", "costfunction_definition", "solver-abstract", "eiquadprog-fast", "computeCOMTraj", "solve_0_step", "utils", "waypoints_definition", "glpk-wrapper"]

class BuildError(Exception):
    pass

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(" ".join(cmd)[:400] + "\n" + p.stdout[-4000:])
    return p.stdout

def sources():
    """every translation unit CMake compiles into the library (src/*.cpp)"""
    return sorted(glob.glob(REPO + "/src/*.cpp"))

def tree_hash(extra=()):
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/*") + glob.glob(ENG + "/*") + glob.glob(VERIF + "/stubs/*") + glob.glob(VERIF + "/harness/*.h"))
    for f in fs + list(extra):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(" ".join(CLANG + INC).encode())
    return h.hexdigest()[:24]

NP = "/opt/bezdeps/main/lib/python3.12/site-packages"
PYINC = ["-DNDEBUG", "-isystem", "/usr/include/python3.12", "-isystem", NP + "/numpy/core/include", '-DNUMPY_DIR="%s"' % NP]
def build(harness, out, extra_defs=(), verbose=False, python=False, asan=False):
    """returns (symbolic binary, native binary)"""
    os.makedirs(out, exist_ok=True)
    th = tree_hash()
    CL = CLANG + (["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []); suffix = "-asan" if asan else ""
    def cached(name, mk):
        """CACHE is a development convenience only, keyed by the content of every input"""
        if CACHE:
            d = CACHE + "/" + th; os.makedirs(d, exist_ok=True)
            p = d + "/" + name
            if not os.path.exists(p):
                t = p + ".%d.tmp" % os.getpid(); mk(t); os.rename(t, p)
            return p
        p = out + "/" + name; mk(p); return p
    ex = ThreadPoolExecutor(8); ex2 = ThreadPoolExecutor(4)
    plug = ex.submit(cached, "SymPass.so", lambda o: run(["sh", "-c", "g++ -O1 -shared -fPIC -fno-rtti %s/SymPass.cpp $(llvm-config-18 --cxxflags | sed s/-fno-exceptions//) -o %s" % (ENG, o)]))
    rts = ex.submit(cached, "symrt.o", lambda o: run(["g++", "-std=c++17", "-O2", "-U_FORTIFY_SOURCE", "-w", "-c", ENG + "/symrt.cpp", "-I" + ENG, "-o", o]))
    rtn = ex.submit(cached, "natrt.o", lambda o: run(["g++", "-std=c++17", "-O1", "-w", "-c", ENG + "/natrt.cpp", "-I" + ENG, "-o", o]))
    units = sources() + [VERIF + "/stubs/stub_contact.cpp", VERIF + "/stubs/stub_glpk.cpp"]
    # the Python bindings, with their own includes and libraries
    PYU = sorted(glob.glob(REPO + "/python/*.cpp")) if python else []
    pyh = hashlib.sha256(b"".join(open(u, "rb").read() for u in PYU)).hexdigest()[:12]; units += PYU
    inc = INC + (PYINC if python else [])
    # the slow one first
    units.sort(key=lambda u: -os.path.getsize(u) - (10**9 if "waypoints_definition" in u or u in PYU else 0))
    def unit(u):
        n = os.path.basename(u)[:-4] + ("-py" + pyh if u in PYU else "") + suffix
        bc = cached(n + ".bc", lambda o: run(CL + (inc if u in PYU else INC) + ["-emit-llvm", "-c", u, "-o", o]))
        nf = ex2.submit(cached, n + ".nat.o", lambda o: (run(["opt-18", "-load-pass-plugin=" + plug.result(), "-passes=statepass", bc, "-o", o + ".bc"]), run(["llc-18", "-O0", "-filetype=obj", "-relocation-model=pic", o + ".bc", "-o", o]), os.unlink(o + ".bc")))
        so = cached(n + ".sym.o", lambda o: (run(["opt-18", "-load-pass-plugin=" + plug.result(), "-passes=sympass", bc, "-o", o + ".bc"]), run(["llc-18", "-O0", "-filetype=obj", "-relocation-model=pic", o + ".bc", "-o", o]), os.unlink(o + ".bc")))
        return so, nf.result()
    fu = [ex.submit(unit, u) for u in units]
    # harness (never cached)
    def hunit():
        bc = out + "/harness.bc"; run(CL + inc + list(extra_defs) + ["-emit-llvm", "-c", harness, "-o", bc])
        so = out + "/harness.sym.o"; no = out + "/harness.nat.o"
        run(["opt-18", "-load-pass-plugin=" + plug.result(), "-passes=sympass", bc, "-o", out + "/h2.bc"])
        run(["llc-18", "-O0", "-filetype=obj", "-relocation-model=pic", out + "/h2.bc", "-o", so]); run(["opt-18", "-load-pass-plugin=" + plug.result(), "-passes=statepass", bc, "-o", out + "/h3.bc"]); run(["llc-18", "-O0", "-filetype=obj", "-relocation-model=pic", out + "/h3.bc", "-o", no])
        return so, no
    hf = ex.submit(hunit)
    objs = [f.result() for f in fu]; h = hf.result()
    res = []
    for k, rt in ((0, rts.result()), (1, rtn.result())):
        ar = out + ("/sym.a" if k == 0 else "/nat.a")
        if os.path.exists(ar): os.unlink(ar)
        run(["ar", "rcs", ar] + [o[k] for o in objs])
        b = out + ("/symexe" if k == 0 else "/natexe")
        libs = ["-L" + M + "/lib", "-L" + H + "/lib", "-Wl,-rpath," + M + "/lib:" + H + "/lib", "-lboost_serialization", "-Wl,--allow-multiple-definition"]
        if python: libs += ["-lpython3.12", "-lboost_python312", "-leigenpy"]
        run((["clang++-18", "-fsanitize=address"] if asan else ["g++"]) + [h[k], rt, ar, "-o", b] + libs + (["-lgmp", "-lgmpxx"] if k == 0 else ["-Wl,--wrap=malloc"]))
        res.append(b)
    ex.shutdown()
    return res

if __name__ == "__main__":
    t = time.time(); print(build(sys.argv[1], sys.argv[2])); print("built in %.1fs" % (time.time() - t))
