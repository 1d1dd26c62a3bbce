"""C08: the parameter table holds what was last set for every parameter, after any history of settings and edits."""
import itertools, math, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
import larch
import vk.fast
import larch.numba as lx
from larch import P, X
from vk.harness import Check
from vk.choice import Spec, close
from vk import specs

CK = Check("C08", "model_checking",
           assumptions=["a parameter that leaves the definition keeps its row until unused parameters are removed",
                        "set_value changes the initial value only of a parameter that had none (a parameter not in the table)"],
           bounds=dict(parameters="3 to 7 names (utility, size, dissimilarity, unknown)", operations="about 55 settings, rejected calls, edits, queries and evaluations",
                       depth="every pair of operations on both engines (the compiled one from a new and an evaluated model in the thorough tier, else from an evaluated one), every triple of a reduced set on the Cython engine (every triple of the full set, on both, in the thorough tier)"))
T = CK.thorough
INF = math.inf
COLS = ("value", "initvalue", "nullvalue", "minimum", "maximum", "holdfast", "note")
GEN = dict(value=0., initvalue=0., nullvalue=0., minimum=-INF, maximum=INF, holdfast=0, note="")
LS = dict(value=1., initvalue=1., nullvalue=1., minimum=.001, maximum=1., holdfast=0, note="")
AV = [[1, 1, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]
CH = [[0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 0]]
CAX = {v: [r[:3] for r in specs.X3[v][:4]] for v in ("x", "y", "z", "w")}
COX = {"inc": specs.INC[:4]}


class Ref:
    def __init__(self, engine):
        self.engine = engine
        self.ca = [("b", "x", 1), ("h", "y", 1)]
        self.co = {2: [("a2", "1", 1)]}
        self.q, self.qs, self.nests = [], None, []
        self.t = {}
        self.best = None

    def util(self):
        return [p for p, _, _ in self.ca] + [p for f in self.co.values() for p, _, _ in f] + [p for p, _, _ in self.q]

    def logsum(self):
        return [m for _, m, _ in self.nests] + ([self.qs] if self.qs and self.q else [])

    def scan(self):
        for p in self.util():
            self.t.setdefault(p, dict(GEN))
        for p in self.logsum():
            self.t.setdefault(p, dict(LS))

    def names(self):
        self.scan()
        return sorted(self.t)

    def put(self, p, **kw):
        """set_value"""
        if p not in self.t:
            self.scan()
            if p not in self.t:
                self.t[p] = dict(GEN)
                if "value" in kw:
                    kw.setdefault("initvalue", kw["value"])
        self.t[p].update(kw)

    def vec(self, vals, respect=True):
        """set_values by vector, scalar or mapping"""
        ns = self.names()
        if not isinstance(vals, dict):
            vals = dict(zip(ns, vals)) if hasattr(vals, "__len__") else {n: vals for n in ns}
        for p, v in vals.items():
            if p in self.t and not (respect and self.t[p]["holdfast"]):
                self.t[p]["value"] = float(v)

    def lock(self, p, v, note=None):
        self.put(p, value=v, holdfast=1, initvalue=v, nullvalue=v, minimum=v, maximum=v)
        if note is not None:
            self.t[p]["note"] = note

    def spec(self):
        self.scan()
        used = list(dict.fromkeys(self.util() + self.logsum()))
        return Spec([1, 2, 3], [tuple(n) for n in self.nests], self.ca, self.co, self.q, self.qs if self.q else None, CAX, COX, AV, CH, None,
                    {p: self.t[p]["value"] for p in used}, {p for p in used if self.t[p]["holdfast"]})


def lin(terms):
    f = None
    for p, v, sc in terms:
        t = P(p) if v == "1" else P(p) * X(v)
        f = t if f is None else f + t
    return f


FIX = {}


def build(engine, ready):
    r = Ref(engine)
    if "ds" not in FIX:
        s = Spec([1, 2, 3], [], [("b", v, 1) for v in "xyzw"], {2: [("a", "inc", 1)]}, [], None, CAX, COX, AV, CH, None, dict(a=0, b=0))
        FIX["ds"], FIX["spec"] = s.dataset("ca"), s
    if engine == "numba":
        m = lx.Model(FIX["ds"])
        m.choice_ca_var, m.availability_var = "ch_", "av_"
    else:
        m = larch.Model()
        m.graph = larch.model.tree.NestingTree()
        m.initialize_graph(alternative_codes=[1, 2, 3], alternative_names=["n1", "n2", "n3"])
        m.n_threads = 1
    m.utility_ca = lin(r.ca)
    m.utility_co[2] = lin(r.co[2])
    if engine == "legacy":
        m.set_dataframes(FIX["spec"].dataframes("ca"), False)
    if ready:
        m.unmangle()
        r.scan()
    return m, r


OPS, REDUCED = {}, []


def op(name, when=lambda r: True, core=False):
    def deco(f):
        OPS[name] = (f, when)
        if core:
            REDUCED.append(name)
        return f
    return deco


class Rejected(Exception):
    pass


def rejects(f, *errs):
    """the call must raise; the table is then compared with the unchanged reference"""
    try:
        f()
    except errs:
        return
    raise Rejected("the call was expected to be rejected")


has = lambda p: (lambda r: p in r.t or p in r.util() + r.logsum())


@op("set_value b", core=True)
def _(m, r): m.set_value("b", .7); r.put("b", value=.7)
@op("set_value P.h")
def _(m, r): m.set_value(P.h, .4); r.put("h", value=.4)
@op("set_value b init null")
def _(m, r): m.set_value("b", -.3, initvalue=.1, nullvalue=.2); r.put("b", value=-.3, initvalue=.1, nullvalue=.2)
@op("hold b", core=True)
def _(m, r): m.set_value("b", holdfast=1); r.put("b", holdfast=1)
@op("hold all")
def _(m, r):
    for p in r.names():
        m.set_value(p, holdfast=1); r.put(p, holdfast=1)
@op("free b", core=True)
def _(m, r): m.set_value("b", holdfast=0); r.put("b", holdfast=0)
@op("bounds b")
def _(m, r): m.set_value("b", minimum=-1, maximum=.5); r.put("b", minimum=-1., maximum=.5)
@op("bounds h")
def _(m, r): m.set_value("h", .1, maximum=.2); r.put("h", value=.1, maximum=.2)
@op("note b")
def _(m, r): m.set_value("b", note="n"); r.put("b", note="n")
@op("nullvalue a2")
def _(m, r): m.set_value("a2", nullvalue=-.5); r.put("a2", nullvalue=-.5)
@op("set_value u", core=True)
def _(m, r): m.set_value("u", .6); r.put("u", value=.6)
@op("set_value mu", core=True)
def _(m, r): m.set_value("mu", .5); r.put("mu", value=.5)
@op("set_value theta")
def _(m, r): m.set_value("theta", .75, holdfast=1); r.put("theta", value=.75, holdfast=1)
@op("lock b", core=True)
def _(m, r): m.lock_value("b", .9); r.lock("b", .9)
@op("lock a2 null")
def _(m, r): m.lock_value("a2", "null"); r.scan(); r.lock("a2", r.t["a2"]["nullvalue"])
@op("lock b note")
def _(m, r): m.lock_value(P.b, .25, note="why"); r.lock("b", .25, "why")
@op("lock_values b h")
def _(m, r):
    r.scan(); m.lock_values("b", "h", note="both")
    r.lock("b", r.t["b"]["value"], "both"); r.lock("h", r.t["h"]["value"], "both")
@op("lock_values kw", core=True)
def _(m, r): m.lock_values(a2=1.5, h=-.5); r.lock("a2", 1.5); r.lock("h", -.5)
@op("lock_values u", has("u"))
def _(m, r): m.lock_values("u"); r.scan(); r.lock("u", r.t["u"]["value"])
@op("lock_values mu", has("mu"))
def _(m, r): m.lock_values("mu"); r.scan(); r.lock("mu", r.t["mu"]["value"])
@op("values scalar", core=True)
def _(m, r): m.set_values(.3); r.vec(.3)
@op("values int")
def _(m, r): m.set_values(1); r.vec(1)
@op("values list", core=True)
def _(m, r): v = [.05 * i - .1 for i in range(len(r.names()))]; m.set_values(v); r.vec(v)
@op("values array")
def _(m, r): v = np.arange(len(r.names()))[::-1] * .125; m.set_values(v); r.vec(v); v[:] = 99
@op("values float32")
def _(m, r): v = (np.arange(len(r.names())) * .25).astype(np.float32); m.set_values(v); r.vec(v)
@op("values ints")
def _(m, r): v = list(range(len(r.names()))); m.set_values(np.asarray(v)); r.vec(v)
@op("values dict", core=True)
def _(m, r): d = {"b": .8, "u": .15, "mu": .8, "theta": .9}; m.set_values(dict(d)); r.vec(d)
@op("values kw unknown")
def _(m, r): m.set_values(b=.45, zz=9); r.vec(dict(b=.45))
@op("values dict+kw")
def _(m, r): m.set_values({"b": .35}, h=.55); r.vec(dict(b=.35, h=.55))
@op("values dict kept")
def _(m, r):
    d = {"b": .65, "zz": 2}; m.set_values(d); r.vec(dict(b=.65))
    if d != {"b": .65, "zz": 2}: raise Rejected(f"set_values changed the caller's mapping to {d}")
@op("values null", core=True)
def _(m, r): m.set_values("null"); r.scan(); r.vec({p: t["nullvalue"] for p, t in r.t.items()})
@op("values init")
def _(m, r): m.set_values("init"); r.scan(); r.vec({p: t["initvalue"] for p, t in r.t.items()})
@op("values Initial")
def _(m, r): m.set_values("Initial"); r.scan(); r.vec({p: t["initvalue"] for p, t in r.t.items()})
@op("values all")
def _(m, r): v = [.2 + .1 * i for i in range(len(r.names()))]; m.set_values(v, respect_holdfast=False); r.vec(v, False)
@op("values all dict")
def _(m, r): m.set_values({"h": .95, "b": -.05}, respect_holdfast=False); r.vec({"h": .95, "b": -.05}, False)
@op("best")
def _(m, r):
    m.unmangle(); r.scan()
    if "best" in m.pf.columns:
        b = dict(m.pf["best"]); m.set_values("best"); r.vec(b)
    else:
        rejects(lambda: m.set_values("best"), ValueError)
@op("short list", core=True)
def _(m, r): rejects(lambda: m.set_values([.1] * (len(r.names()) - 1)), ValueError)
@op("long list")
def _(m, r): rejects(lambda: m.set_values([.1] * (len(r.names()) + 1)), ValueError)
@op("nan list", lambda r: any(not t["holdfast"] for t in r.t.values()) and r.names())
def _(m, r): rejects(lambda: m.set_values([float("nan")] * len(r.names())), ValueError)
def one_nan(r, i):
    v = [.1 + .05 * k for k in range(len(r.names()))]; v[i] = float("nan")
    return v
@op("nan first", lambda r: r.names() and not r.t[r.names()[0]]["holdfast"])
def _(m, r): rejects(lambda: m.set_values(one_nan(r, 0)), ValueError)
@op("nan last", lambda r: r.names() and not r.t[r.names()[-1]]["holdfast"])
def _(m, r): rejects(lambda: m.set_values(np.asarray(one_nan(r, -1))), ValueError)
@op("loglike short")
def _(m, r): rejects(lambda: m.loglike([.1] * (len(r.names()) - 1)), ValueError)
@op("lock unknown")
def _(m, r): rejects(lambda: m.lock_values("nope"), KeyError)
@op("get unknown")
def _(m, r):
    rejects(lambda: m.get_value("nope"), KeyError)
    if m.get_value("nope", default=.5) != .5: raise Rejected("default not returned")
@op("cap")
def _(m, r):
    m.set_cap(.75); r.scan()
    for t in r.t.values():
        lo, hi = max(t["minimum"], -.75), min(t["maximum"], .75)
        if lo <= hi: t["minimum"], t["maximum"] = lo, hi
@op("shift")
def _(m, r): v = [.01 * (i + 1) for i in range(len(r.names()))]; m.shift_values(v); r.vec([r.t[p]["value"] + d for p, d in zip(r.names(), v)])
@op("update_values")
def _(m, r): m.update_values({"a2": .33}); r.vec({"a2": .33})
@op("batch", core=True)
def _(m, r):
    with m.batch_update():
        m.set_value("b", .51)
        with m.batch_update():
            m.set_values(h=.61)
        m.set_value("a2", holdfast=1)
    r.put("b", value=.51); r.vec(dict(h=.61)); r.put("a2", holdfast=1)
@op("batch error")
def _(m, r):
    try:
        with m.batch_update():
            m.set_value("b", .52)
            raise RuntimeError("stop")
    except RuntimeError:
        pass
    r.put("b", value=.52)
# ---- edits of the definition
@op("add u", core=True)
def _(m, r): r.ca = r.ca + [("u", "w", 1)]; m.utility_ca += P.u * X.w
@op("drop b", lambda r: len(r.ca) > 1, core=True)
def _(m, r): m.pf; r.scan(); r.ca = [t for t in r.ca if t[0] != "b"]; m.utility_ca = lin(r.ca)
@op("add b again")
def _(m, r): r.co = {**r.co, 3: [("b", "inc", 1)]}; m.utility_co[3] = P.b * X.inc
@op("nest", lambda r: not r.nests, core=True)
def _(m, r): r.nests = [(9, "mu", [1, 2])]; m.graph.new_node(code=9, children=(1, 2), parameter="mu", name="N")
@op("drop nest", lambda r: r.nests)
def _(m, r): m.pf; r.scan(); r.nests = []; m.graph.remove_node(9)
@op("size", lambda r: not r.q)
def _(m, r): r.q, r.qs = [("g", "z", 1)], "theta"; m.quantity_ca = P.g * X.z; m.quantity_scale = P.theta
@op("remove unused", core=True)
def _(m, r):
    m.remove_unused_parameters(verbose=False); r.scan()
    keep = set(r.util() + r.logsum()); r.t = {p: t for p, t in r.t.items() if p in keep}
@op("frame", lambda r: {"b", "h"} <= set(r.t) | set(r.util()), core=True)
def _(m, r):
    f = m.pf.copy(); r.scan(); f.loc["b", "value"] = .33; f.loc["b", "maximum"] = 2.0; f.loc["h", "holdfast"] = 1
    m.set_frame(f); r.put("b", value=.33, maximum=2.0); r.put("h", holdfast=1)
@op("frame same")
def _(m, r): m.set_frame(m.pf.copy()); r.scan()
@op("frame reversed")
def _(m, r): m.set_frame(m.pf.copy().iloc[::-1]); r.scan()
@op("frame subset", has("a2"))
def _(m, r): m.set_frame(m.pf.copy().drop("a2")); r.scan(); del r.t["a2"]
@op("sort")
def _(m, r): m.pf_sort(); r.scan()
# ---- queries and evaluations
@op("query")
def _(m, r): m.pf; m.pvals; m.pbounds; r.scan()
@op("ll", core=True)
def _(m, r): m.loglike(); r.scan()
@op("ll dict")
def _(m, r): m.loglike({"b": .2, "a2": -.15}); r.vec({"b": .2, "a2": -.15})
@op("ll array")
def _(m, r): v = [.1 * i + .05 for i in range(len(r.names()))]; m.loglike2_bhhh(v); r.vec(v)
@op("dll")
def _(m, r): m.d_loglike(); r.scan()
@op("null ll")
def _(m, r): m.loglike_null(); r.scan()


def same(a, b):
    if isinstance(b, str) or isinstance(a, str):
        return a == b
    return a == b or abs(float(a) - float(b)) <= 1e-12


def compare(m, r, rec, tag, hist, ev=True):
    def bad(what, msg):
        rec.violation(f"{what}:{tag}", f"after {hist}: {msg}")
    pf = m.pf
    names = r.names()
    if sorted(pf.index) != names:
        return bad("names", f"parameters {list(pf.index)}, expected {names}")
    if list(pf.index) != names:
        return bad("order", f"parameters are in the order {list(pf.index)}")
    d = pf.to_dict("index")
    for p in names:
        for c in COLS:
            if not same(d[p][c], r.t[p][c]):
                return bad(f"table-{c}", f"{c} of {p} is {d[p][c]!r}, expected {r.t[p][c]!r}\n{pf}")
    val = [r.t[p]["value"] for p in names]
    v = m.pvals
    if not close(v, val, atol=1e-12):
        bad("pvals", f"{v} vs {val}")
    v[:] = -77
    g = m.get_values()
    if list(g.index) != names or not close(g.values, val, atol=1e-12):
        bad("get_values", f"{g} vs {val}")
    g[:] = -77
    b = m.pbounds
    if not (np.array_equal(b.lb, [r.t[p]["minimum"] for p in names]) and np.array_equal(b.ub, [r.t[p]["maximum"] for p in names])):
        bad("pbounds", f"{b}")
    n = m.pnames
    if list(n) != names:
        bad("pnames", f"{n}")
    n[:] = "?"
    for i, p in enumerate(names):
        t = r.t[p]
        if not same(m.get_value(p), t["value"]) or not same(m.get_value(P(p)), t["value"]) or not same(m.pvalue(p), t["value"]) or not same(m[p]["value"], t["value"]):
            bad("get_value", f"{p}: {m.get_value(p)} {m.pvalue(p)} expected {t['value']}")
        if bool(m.get_holdfast(p)) != bool(t["holdfast"]) or m.get_slot_x(p) != i or m.get_slot_x(p, True) != (-1 if t["holdfast"] else i) or p not in m:
            bad("slots", f"{p}: {m.get_holdfast(p)} {m.get_slot_x(p)} {m.get_slot_x(p, True)}")
    if "nope" in m or m.get_slot_x("nope") != -1:
        bad("unknown", "unknown name is reported as a parameter")
    if not close(m.pf["value"].values, val, atol=1e-12):
        bad("aliased", "changing a returned copy changed the table")
    if ev:
        s = r.spec()
        if any(s.values[p] <= 0 for p in r.logsum()):
            rec.count("degenerate")     # no dissimilarity parameter of zero in theory
            return
        key = repr((r.ca, r.co, r.q, r.qs, r.nests, sorted(s.values.items())))
        if key not in FIX:
            if len(FIX) > 3000: FIX.pop(next(k for k in FIX if k not in ("ds", "spec")))
            FIX[key] = s.evaluate(grad=False)["ll"].sum()
        z = m.loglike()
        if not close(z, FIX[key], rtol=1e-8, atol=1e-10):
            bad("evaluated", f"log likelihood {z} is not that of the table's values {s.values}: {FIX[key]}")
        d = m.pf.to_dict("index")
        for p in names:
            for c in COLS:
                if not same(d[p][c], r.t[p][c]):
                    return bad(f"evaluation-changes-{c}", f"{c} of {p} is {d[p][c]!r}, expected {r.t[p][c]!r}")
    rec.outcome((tuple(names), tuple(np.round(val, 9)), tuple(r.t[p]["holdfast"] for p in names)))
    rec.trace()


def run(task, rec):
    engine, ready, prefix, more, pool = task
    for rest in itertools.product(pool, repeat=more):
        seq = [*prefix, *rest]
        m, r = build(engine, ready)
        hist = []
        try:
            ok = True
            for o in seq:
                f, when = OPS[o]
                if not when(r):
                    ok = False
                    break
                hist.append(o)
                f(m, r)
                rec.step()
            if not ok:
                continue
            rec.state((engine, ready, tuple(seq)))
            compare(m, r, rec, f"{engine}:{seq[-1]}", ("ready" if ready else "new", *hist))
        except Exception as e:
            import traceback
            rec.violation(f"raises:{engine}:{hist[-1]}:{type(e).__name__}", f"{engine} history {hist} of {seq} (ready={ready}) raises {e!r}\n{traceback.format_exc()[-1500:]}")


names = list(OPS)
for eng in ("legacy", "numba"):
    CK.section(f"pairs-{eng}", [(eng, ready, (a,), k, names) for ready in ((True, False) if T or eng == "legacy" else (True,)) for a in names for k in (0, 1)], run)
for eng in (("legacy", "numba") if T else ("legacy",)):
    pool = names if T else REDUCED
    CK.section(f"triples-{eng}", [(eng, ready, (a, b), 1, pool) for ready in ((True, False) if T else (True,)) for a in pool for b in pool], run)
CK.finish()
