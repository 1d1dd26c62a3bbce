"""C05: results do not depend on thread count or schedule - the real parallel regions under a controlled scheduler."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if "VK_SCHED" not in os.environ:      # run again under the scheduler
    W = os.environ["VK_WORK"]
    so = os.path.join(W, "sched.so")
    import sysconfig, numpy
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]
    # the modules with parallel regions once more, telling of every access to memory (they link to the scheduler only)
    jobs = []
    for n in ("larch.model.mnl", "larch.model.nl", "larch.dataframes"):
        c = os.path.join("/repo", n.replace(".", "/") + ".c")
        o = os.path.join(W, n + ".o")
        jobs.append((n, o, subprocess.Popen(["gcc", "-O0", "-w", "-fno-strict-aliasing", "-fPIC", "-fopenmp", "-fsanitize=thread", *inc, "-c", c, "-o", o])))
    subprocess.check_call(["gcc", "-O1", "-w", "-fno-builtin", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "vk", "sched.c"), "-ldl"])
    for n, o, p in jobs:
        if p.wait(): sys.exit(3)
        subprocess.check_call(["gcc", "-shared", "-o", os.path.join(W, n + ".so"), o, "-lm"])
    os.environ.update(VK_SCHED=so, LD_PRELOAD=so)
    os.execv(sys.executable, [sys.executable] + sys.argv)
import ctypes, itertools, math, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
LIB = ctypes.CDLL(os.environ["VK_SCHED"])
for f in ("vk_points", "vk_regions", "vk_switches", "vk_threads"): getattr(LIB, f).restype = ctypes.c_long
from vk.harness import Check
from vk.choice import close
from vk import specs

CK = Check("C05", "model_checking",
           assumptions=["threads are switched at calls of the math library, at barriers, around critical sections and at the ends of threads",
                        "the memory model is sequentially consistent", "the work is cut into contiguous runs of cases, as both runtimes do with static schedules"],
           bounds=dict(cases="2-4 (thorough 5)", threads="1-4 with static distribution (Cython), every cut of the cases into 2-3 (thorough 4) runs (numba)",
                       schedules="every order of the threads, every single switch at every scheduling point to every thread, every pair of switches for 2 threads (thorough also 3)"))
T = CK.thorough
larch = lx = None


def load(races=False):
    """import larch: with the modules that report conflicting accesses, or as it is"""
    global larch, lx
    if larch is not None: return
    if races:
        import importlib.abc, importlib.machinery, importlib.util

        class F(importlib.abc.MetaPathFinder):
            def find_spec(self, name, path=None, target=None):
                f = os.path.join(os.environ["VK_WORK"], name + ".so")
                if os.path.exists(f): return importlib.util.spec_from_file_location(name, f, loader=importlib.machinery.ExtensionFileLoader(name, f))
        sys.meta_path.insert(0, F())
        import larch as l
        assert l.dataframes.__file__.startswith(os.environ["VK_WORK"])
        larch = l
        return
    import numba.np.ufunc.parallel as nbp
    import llvmlite.binding as ll
    nbp._launch_threads()
    ll.add_symbol("numba_parallel_for", ctypes.cast(LIB.vk_parallel_for, ctypes.c_void_p).value)
    import larch as l
    import vk.fast
    import larch.numba as n
    larch, lx = l, n


AV = [[1, 1, 1], [1, 0, 1], [1, 1, 0], [0, 1, 1], [1, 1, 1]]
CH = [[0, 1, 0], [0, 0, 1], [.25, .75, 0], [0, 1, 0], [1, 0, 0]]
WT = [1.5, 0.5, 2.0, 0.75, 1.25]
NESTS = {"mnl": [], "nl": [(101, [2, 3])], "nl2": [(101, [2, 3]), (102, [1, 101])]}


def model(engine, struct, nest, n):
    s = specs.make(struct, nests=NESTS[nest], rows=(AV[:n], CH[:n]), caseids=[2, 5, 8, 11, 20][:n])
    s.wt = np.asarray(WT[:n])
    if not s.cox: s.cox["zz"] = np.zeros(n)
    co = struct == "co"
    if engine == "numba": m = s.numba_model("co" if co else "ca")
    elif engine == "numba-ce": m = s.numba_model("ce")
    elif engine == "numba-df": m = s.legacy_model("co" if co else "ca", lx.Model)
    else: m = s.legacy_model("ce" if engine == "cython-ce" else "co" if co else "ca", larch.Model)
    return s, m


A = lambda *v: [np.array(x, float, copy=True) for x in v if x is not None]
# name -> function giving (casewise arrays, totals)
CY = {
    "all": lambda m: (lambda z: (A(z.ll_casewise, z.dll_casewise, z.probability), A(z.ll, z.dll, z.bhhh)))(m.loglike2_bhhh(persist=larch.model.PERSIST_ALL)),
    "plain": lambda m: ([], A(m.loglike())),
    "ll-all": lambda m: (lambda z: (A(z.ll_casewise, z.probability), A(z.ll)))(m.loglike(persist=larch.model.PERSIST_ALL)),
    "loglike2": lambda m: (lambda z: ([], A(z.ll, z.dll)))(m.loglike2()),
    "bhhh": lambda m: (lambda z: ([], A(z.ll, z.dll, z.bhhh)))(m.loglike2_bhhh()),
    "probability": lambda m: (A(m.probability()), []),
    "part": lambda m: ([], A(m.loglike(start_case=1), m.loglike(stop_case=-1))),
}
FLAGS = ("UTILITY", "EXP_UTILITY", "PROBABILITY", "LOGLIKE_CASEWISE", "D_LOGLIKE_CASEWISE", "D_UTILITY", "D_PROBABILITY", "COND_LOG_PROB", "QUANTITY")


def kept(flag, one):
    """one storage by case, the others by thread"""
    def f(m):
        p = getattr(larch.model.persist_flags, "PERSIST_" + flag)
        if not one: p = larch.model.PERSIST_ALL & ~p
        z = m.loglike2_bhhh(persist=p)
        return A(*[z[k] for k in sorted(z) if k not in ("ll", "dll", "bhhh")]), A(z.ll, z.dll, z.bhhh)
    return f


for _f in FLAGS:
    CY[f"only-{_f}"] = kept(_f, True)
    CY[f"but-{_f}"] = kept(_f, False)
NB = {
    "all": lambda m: (A(m.loglike_casewise(), m.d_loglike_casewise(), m.probability(), m.utility() if hasattr(m, "utility") else None), A(m.loglike())),
    "bhhh": lambda m: (lambda z: ([], A(z.ll, z.dll, z.bhhh)))(m.loglike2_bhhh()),
    "loglike2": lambda m: (lambda z: ([], A(z.ll, z.dll)))(m.loglike2()),
    "part": lambda m: ([], A(m.loglike(start_case=1), m.loglike(stop_case=2))),
}


def schedule(order=(), pre=(), chunks=()):
    i, l = ctypes.c_int, ctypes.c_long
    LIB.vk_schedule(len(order), (i * len(order))(*order), len(pre), (l * len(pre))(*[p for p, _ in pre]), (i * len(pre))(*[t for _, t in pre]),
                    len(chunks), (l * len(chunks))(*chunks))


def bits(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(a, b))


def explore(task, rec):
    engine, struct, nest, n, what, dist, bound = task
    s, m = model(engine, struct, nest, n)
    f = (CY if engine.startswith("cython") else NB)[what]
    cython = engine.startswith("cython")
    msg = f"{engine} {struct} {nest} {n} cases, {what}, " + (f"{dist} threads" if cython else f"runs of {dist} cases")
    key = f"{engine}:{nest}:{what}"
    if cython: m.n_threads = 1
    schedule()
    ref = f(m)
    again = f(m)
    rec.eval(task)
    if not rec.expect(bits(ref[0], again[0]) and bits(ref[1], again[1]), f"{key}:repeat", lambda: f"{msg}: two evaluations in one thread differ: {ref} {again}"): return
    r = s.evaluate()
    if what != "probability": rec.expect(close(ref[1][0], r["ll"].sum() if what != "part" else r["ll"][1:].sum(), rtol=1e-9, atol=1e-11), f"{key}:theory", lambda: f"{msg}: {ref[1][0]}")
    if cython: m.n_threads = dist
    k = dist if cython else len(dist)
    chunks = () if cython else dist
    seen = set()

    def run(order, pre):
        schedule(order, pre, chunks)
        got = f(m)
        rec.step(); rec.state((task, order, pre))
        rec.trace()
        rec.outcome((task, [x.tobytes() for x in got[1]]))
        ok = bits(ref[0], got[0])
        if not ok:
            rec.violation(f"{key}:casewise", f"{msg}: threads in order {order} with switches {pre}: results by case {got[0]} differ from those of one thread {ref[0]}")
        ok2 = len(ref[1]) == len(got[1]) and all(close(x, y, rtol=1e-12, atol=1e-13) for x, y in zip(ref[1], got[1]))
        if not ok2:
            rec.violation(f"{key}:total", f"{msg}: threads in order {order} with switches {pre}: totals {got[1]} differ from those of one thread {ref[1]}")
        return ok and ok2

    base = tuple(range(k))
    if not run(base, ()): return
    pts, regs, thr = LIB.vk_points(), LIB.vk_regions(), LIB.vk_threads()
    if thr == k: rec.count("parallel regions", regs)
    rec.count("without parallel work", 0 if regs else 1)
    if not regs: return      # (this evaluation runs in one thread)
    for o in itertools.permutations(base):
        if not run(o, ()): return
    for p in range(pts):
        for t in range(k - 1):
            if not run(base, ((p, t),)): return
            if p % 3 == 0 and k > 1 and not run(base[::-1], ((p, t),)): return
    if bound > 1:
        for p in range(pts):
            for q in range(p + 1, pts):
                for t in itertools.product(range(k - 1), repeat=2):
                    if not run(base, ((p, t[0]), (q, t[1]))): return
    if bound > 2:
        for p in itertools.combinations(range(0, pts), 3):
            if not run(base, tuple((x, 0) for x in p)): return


def races(task, rec):
    struct, nest, fmt, n, k, what = task
    load(True)
    LIB.vk_race.restype = ctypes.c_char_p
    s, m = model("cython-ce" if fmt == "ce" else "cython", struct, nest, n)
    m.n_threads = k
    schedule(tuple(range(k)))
    LIB.vk_detect(1)
    CY[what](m)
    na, nr = LIB.vk_accesses(), LIB.vk_races()
    if nr: rec.violation(f"race:{nest}:{what}", f"{struct} {nest} {fmt}, {n} cases, {what}, {k} threads: {nr} conflicting accesses to the same memory, the first: {LIB.vk_race().decode()}")
    rec.expect(na or not LIB.vk_regions(), "no-accesses", lambda: f"{task}: accesses are not reported")
    LIB.vk_detect(0)
    rec.step(); rec.trace(); rec.state(task); rec.eval(task); rec.count("accesses", na)


def cuts(n, k):
    """every way to cut n cases into k runs (a run may be empty only at the end)"""
    return [c for c in itertools.product(range(1, n + 1), repeat=k) if sum(c) == n]


def main():
    STRUCTS = [(st, nest, fmt) for fmt in ("ca", "ce") for st, nest in (("mix", "mnl"), ("mix", "nl"), ("mix", "nl2"), ("q", "nl"), ("q", "mnl"), ("co", "nl"), ("co", "mnl")) if (fmt, st) != ("ce", "co")]
    os.environ["VK_FORK"] = "1"      # (these modules are loaded in processes of their own)
    CK.section("races", [(*x, n, k, w) for x in STRUCTS for n, k in ((2, 2), (3, 2), (4, 3), (5, 4)) + (((3, 4), (5, 2), (5, 3), (4, 4)) if T else ()) for w in CY], races)
    del os.environ["VK_FORK"]
    load()
    tasks = []
    for engine in ("cython", "cython-ce"):
        for struct, nest in (("mix", "mnl"), ("mix", "nl"), ("mix", "nl2"), ("q", "nl"), ("q", "mnl"), ("co", "nl")):
            if engine == "cython-ce" and struct == "co": continue
            for what in CY:
                for n, k in ((2, 2), (3, 2), (3, 3), (4, 3), (2, 4)) + (((4, 2), (5, 2), (5, 3), (5, 4)) if T else ()):
                    two = k == 2 and (n == 2 or T) or T and k == 3 and n == 3
                    if not T and engine == "cython-ce" and (n, k) not in ((2, 2), (3, 3)): continue
                    if not T and what not in ("all", "bhhh") and ((n, k) not in ((2, 2), (3, 3)) or engine == "cython-ce"): continue
                    if not T and what.startswith(("only", "but")): two = False
                    tasks.append((engine, struct, nest, n, what, k, 2 if two else 1))
    CK.section("cython", tasks, explore)
    tasks = []
    for engine in ("numba", "numba-ce", "numba-df"):
        for struct, nest in (("mix", "mnl"), ("mix", "nl"), ("mix", "nl2"), ("q", "nl")):
            for what in NB:
                for n, k in ((2, 2), (3, 2), (3, 3)) + (((4, 2), (4, 3), (4, 4), (5, 3)) if T else ()):
                    for c in cuts(n, k):
                        if not T and engine != "numba" and n != 2: continue
                        tasks.append((engine, struct, nest, n, what, c, 2 if k == 2 and (n == 2 or T) and (what in ("bhhh", "loglike2") or T) else 1))
    CK.section("numba", tasks, explore, group=lambda t: t[:3])
    CK.finish()


main()
