"""C06: after any history of edits and evaluations a model evaluates its current definition, data and values."""
import copy, itertools, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
import larch
import vk.fast
import larch.numba as lx
from larch import P, X
from vk.harness import Check
from vk.choice import Spec, close
from vk import specs

CK = Check("C06", "model_checking",
           assumptions=["numeric agreement to 1e-8 relative",
                        "a parameter that leaves the definition keeps its row and value; one that returns resumes it; new ones start at 0, "
                        "dissimilarity and size scale parameters at 1 (the documented defaults)"],
           bounds=dict(operations="about 60 edits (terms, nests, values, flags, declarations, data) and 11 evaluations",
                       histories="every ordered pair of edits with every evaluation before, between and none (triples for the compiled engine in the thorough tier)",
                       model="3 alternatives, 5 cases, 0-2 nests"))
T = CK.thorough
AV = [[1, 1, 1], [1, 0, 1], [1, 1, 0], [0, 1, 1], [1, 1, 1]]
CH = [[0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1]]
CH2 = [[1, 0, 0], [0, 0, 1], [0, 1, 0], [0, 0, 1], [0, 1, 0]]
AV2 = [[1, 1, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1], [0, 1, 1]]
WT = [1.5, 0.5, 2.0, 0.75, 1.25]
WT2 = [.5, 1.5, 1.0, 2.75, .25]
IDS = [1, 2, 3, 4, 5]
VALS = dict(b1=.31, b2=-.22, a2=.35, c2=-.17, a3=-.42, g1=.15, theta=.7, mu1=.6)


class World:
    """abstract state: the definition, the data and the value of every parameter ever named"""

    def __init__(self, start, engine):
        self.engine = engine
        self.start = start
        self.ca = [("b1", "x", 1), ("b2", "y", 1)]
        self.co = {2: [("a2", "1", 1), ("c2", "inc", .5)], 3: [("a3", "1", 1)]}
        self.q, self.qscale = [], None
        self.nests = []
        if "q" in start:
            self.q = [("g1", "z", 1)]
            self.qscale = "theta"
        if "n" in start:
            self.nests = [[101, "mu1", [1, 2]]]
        self.wt = WT if "w" in start else None
        self.ch, self.av = CH, AV
        self.rows = [0, 1, 2, 3, 4]
        self.V, self.H = {}, set()
        self.nullv = {}
        for p in self.names():
            self.V[p] = VALS[p]
        self.xshift = 0.0

    def names(self):
        out = [p for p, _, _ in self.ca] + [p for t in self.co.values() for p, _, _ in t] + [p for p, _, _ in self.q]
        self.logsum = ([self.qscale] if self.qscale and self.q else []) + [m for _, m, _ in self.nests]
        return list(dict.fromkeys(out + self.logsum))

    def null(self, p):
        """null value of a parameter: 1 for those first seen as dissimilarity or size scale, else 0"""
        return self.nullv.get(p, 0.0)

    def scan(self):
        """what unmangling does to the parameter table"""
        for p in self.names():
            self.nullv.setdefault(p, 1.0 if p in self.logsum else 0.0)
            if p not in self.V:
                self.V[p] = 1.0 if p in self.logsum else 0.0

    def spec(self):
        self.scan()
        n = len(self.rows)
        pick = lambda t: [t[i] for i in self.rows]
        cax = {v: (np.asarray(pick(specs.X3[v]))[:, :3] + (self.xshift if v == "x" else 0)) for v in ("x", "y", "z", "w")}
        cox = {"inc": pick(specs.INC), "hh": pick(specs.HH)}
        names = self.names()
        return Spec([1, 2, 3], [tuple(x) for x in self.nests], self.ca, {a: t for a, t in self.co.items() if t}, self.q, self.qscale if self.q else None,
                    cax, cox, pick(self.av), pick(self.ch), None if self.wt is None else pick(self.wt),
                    {p: self.V[p] for p in names}, self.H & set(names), pick(IDS))

    def key(self):
        return (self.ca, sorted(self.co.items()), self.q, self.qscale, self.nests, self.wt, self.ch, self.av, self.rows,
                sorted(self.V.items()), sorted(self.H), self.xshift, sorted(self.nullv.items()))

    # ------------------------------------------------------------- data
    def dataset(self):
        s = self.spec()
        ds = s.dataset("ca")
        import xarray as xr
        pick = lambda t: [t[i] for i in self.rows]
        for name, t in (("ch_", CH), ("ch2_", CH2), ("av_", AV), ("av2_", AV2)):
            ds[name] = xr.DataArray(np.asarray(pick(t), float if name[0] == "c" else int),
                                    dims=(ds.dc.CASEID, ds.dc.ALTID))
        for name, t in (("wt_", WT), ("wt2_", WT2)):
            ds[name] = xr.DataArray(np.asarray(pick(t), float), dims="caseid")
        for j, a in enumerate((1, 2, 3)):
            ds[f"ch2_{a}"] = xr.DataArray(np.asarray(pick(CH2), float)[:, j], dims="caseid")
            ds[f"av2_{a}"] = xr.DataArray(np.asarray(pick(AV2), int)[:, j], dims="caseid")
        ds["code2_"] = xr.DataArray(np.asarray([1, 2, 3])[np.asarray(pick(CH2)).argmax(1)], dims="caseid")
        return ds

    def dataframes(self):
        return self.spec().dataframes("ce" if "e" in self.start else "ca")

    def build(self):
        s = self.spec()
        if self.engine == "numba":
            m = lx.Model(self.dataset())
            s.apply_structure(m, "ca", "ca")
            if self.wt is not None: m.weight_co_var = "wt_"
            s.add_nests(m)
            m.unmangle()
            s.set_params(m)
        else:
            m = s.legacy_model(cls=larch.Model if self.engine == "legacy" else lx.Model, dfs=self.dataframes())
        return m


NUM = lambda w: w.engine == "numba"
DF = lambda w: w.engine != "numba"
OPS = {}


def op(name, when=lambda w: True):
    def deco(f):
        OPS[name] = (f, when)
        return f
    return deco


def lin(terms):
    f = None
    for p, v, sc in terms:
        t = P(p) if v == "1" else P(p) * X(v)
        if sc != 1: t = t * sc
        f = t if f is None else f + t
    return f


# ---------------------------------------------------------------- edits of the definition
@op("ca=")
def _(m, w): w.ca = [("b1", "x", 1), ("b3", "z", 1)]; m.utility_ca = lin(w.ca)
@op("ca+=")
def _(m, w): w.ca = w.ca + [("b3", "w", -.5)]; m.utility_ca += P.b3 * X.w * -.5
@op("ca[0]=", lambda w: w.ca)
def _(m, w): w.ca = [("b4", "z", 1)] + w.ca[1:]; m.utility_ca[0] = P.b4 * X.z
@op("ca[0] data", lambda w: w.ca)
def _(m, w): p, v, s = w.ca[0]; w.ca = [(p, "w", s)] + w.ca[1:]; m.utility_ca[0] = P(p) * X.w * s if s != 1 else P(p) * X.w
@op("ca[0] scale", lambda w: w.ca)
def _(m, w): p, v, s = w.ca[0]; w.ca = [(p, v, 2.5)] + w.ca[1:]; m.utility_ca[0] = P(p) * X(v) * 2.5
@op("ca same params", lambda w: w.ca)
def _(m, w): w.ca = [(p, "z" if v == "x" else v, s * .5) for p, v, s in w.ca]; m.utility_ca = lin(w.ca)
@op("co[2] same params", lambda w: 2 in w.co)
def _(m, w): w.co = {**w.co, 2: [(p, "hh", .5 * s) for p, v, s in w.co[2]]}; m.utility_co[2] = lin(w.co[2])
@op("co[2][0] data", lambda w: 2 in w.co)
def _(m, w): p, v, s = w.co[2][0]; w.co = {**w.co, 2: [(p, "hh", 1)] + w.co[2][1:]}; m.utility_co[2][0] = P(p) * X.hh
@op("q same params", lambda w: w.q)
def _(m, w): w.q = [(p, "y", 1.5 * s) for p, v, s in w.q]; m.quantity_ca = lin(w.q)
@op("q[0] data", lambda w: w.q)
def _(m, w): p, v, s = w.q[0]; w.q = [(p, "y", s)] + w.q[1:]; m.quantity_ca[0] = P(p) * X.y * s if s != 1 else P(p) * X.y
@op("ca.append")
def _(m, w): w.ca = w.ca + [("b1", "w", 1)]; m.utility_ca.append(P.b1 * X.w)
@op("ca.insert")
def _(m, w): w.ca = [("b5", "y", 1)] + w.ca; m.utility_ca.insert(0, P.b5 * X.y)
@op("del ca[0]", lambda w: len(w.ca) > 1)
def _(m, w): w.ca = w.ca[1:]; del m.utility_ca[0]
@op("ca.extend")
def _(m, w): w.ca = w.ca + [("b6", "z", 2), ("b1", "w", 1)]; m.utility_ca.extend([P.b6 * X.z * 2, P.b1 * X.w])
@op("ca.remove_data")
def _(m, w): w.ca = [t for t in w.ca if t[1] != "y"]; m.utility_ca.remove_data("y")
@op("ca.remove_param")
def _(m, w): w.ca = [t for t in w.ca if t[0] != "b1"]; m.utility_ca.remove_param("b1")
@op("ca-=")
def _(m, w): w.ca = w.ca + [("b7", "z", -1)]; m.utility_ca = m.utility_ca - P.b7 * X.z
@op("ca=()")
def _(m, w): w.ca = []; m.utility_ca = ()
@op("ca*2", lambda w: w.ca)
def _(m, w): w.ca = [(p, v, s * 2) for p, v, s in w.ca]; m.utility_ca = m.utility_ca * 2
@op("co[2]=")
def _(m, w): w.co = {**w.co, 2: [("c2", "hh", 1)]}; m.utility_co[2] = P.c2 * X.hh
@op("co[1]=")
def _(m, w): w.co = {**w.co, 1: [("c5", "inc", 1), ("a5", "1", 1)]}; m.utility_co[1] = P.c5 * X.inc + P.a5
@op("co[3]+=", lambda w: 3 in w.co)
def _(m, w): w.co = {**w.co, 3: w.co[3] + [("c6", "inc", 1)]}; m.utility_co[3] += P.c6 * X.inc
@op("co[1]+=const")
def _(m, w): w.co = {**w.co, 1: w.co.get(1, []) + [("a1", "1", 1)]}; m.utility_co[1] += P.a1
@op("co[2].append", lambda w: 2 in w.co)
def _(m, w): w.co = {**w.co, 2: w.co[2] + [("b1", "hh", 1)]}; m.utility_co[2].append(P.b1 * X.hh)
@op("del co[2]", lambda w: 2 in w.co)
def _(m, w): w.co = {k: v for k, v in w.co.items() if k != 2}; del m.utility_co[2]
@op("co={}")
def _(m, w): w.co = {2: [("a7", "1", 1), ("c7", "hh", 1)]}; m.utility_co = {2: P.a7 + P.c7 * X.hh}
@op("del co[2][0]", lambda w: len(w.co.get(2, ())) > 1)
def _(m, w): w.co = {**w.co, 2: w.co[2][1:]}; del m.utility_co[2][0]
@op("q=")
def _(m, w): w.q = [("g1", "z", 1), ("g2", "w", 2)]; m.quantity_ca = lin(w.q)
@op("q+=", lambda w: w.q)
def _(m, w): w.q = w.q + [("g3", "w", 1)]; m.quantity_ca += P.g3 * X.w
@op("q[0]=", lambda w: w.q)
def _(m, w): w.q = [("g4", "z", 2)] + w.q[1:]; m.quantity_ca[0] = P.g4 * X.z * 2
@op("q=()", lambda w: w.q)
def _(m, w): w.q = []; m.quantity_ca = ()
@op("qscale=")
def _(m, w): w.qscale = "theta2"; m.quantity_scale = P.theta2
@op("qscale=None", lambda w: w.qscale)
def _(m, w): w.qscale = None; m.quantity_scale = None
def loose(w):
    """alternatives that hang off the root"""
    return [a for a in (1, 2, 3) if not any(a in k for _, _, k in w.nests)]


@op("nest+", lambda w: all(c != 102 for c, _, _ in w.nests) and loose(w))
def _(m, w):
    k = loose(w)[-2:]
    w.nests = [[102, "mu2", k]] + w.nests
    m.graph.add_node(102, children=k, parameter="mu2", name="n102")
@op("nest-up", lambda w: len(w.nests) == 1)
def _(m, w):
    c = w.nests[0][0]
    w.nests = w.nests + [[105, "mu5", [c] + loose(w)[:1]]]
    m.graph.add_node(105, children=w.nests[1][2], parameter="mu5", name="n105")
@op("nest-", lambda w: w.nests)
def _(m, w):
    c = w.nests[-1][0]
    w.nests = w.nests[:-1]; m.graph.remove_node(c)
@op("nest edge", lambda w: w.nests and loose(w))
def _(m, w):
    c, mu, k = w.nests[0]
    a = loose(w)[0]
    w.nests = [[c, mu, k + [a]]] + w.nests[1:]; m.graph.add_edge(c, a)
@op("nest edge-", lambda w: len(w.nests) == 1 and len(w.nests[0][2]) > 1)
def _(m, w):
    c, mu, k = w.nests[0]
    w.nests = [[c, mu, k[:-1]]]; m.graph.remove_edge(c, k[-1])
@op("nest param", lambda w: w.nests)
def _(m, w):
    c, mu, k = w.nests[0]
    w.nests = [[c, "mu9", k]] + w.nests[1:]; m.graph.add_node(c, parameter="mu9")
@op("graph=")
def _(m, w):
    t = larch.model.tree.NestingTree()
    for a in (1, 2, 3): t.add_node(a, name=f"n{a}")
    t.add_node(103, children=[1, 3], parameter="mu3", name="n103")
    w.nests = [[103, "mu3", [1, 3]]]; m.graph = t


# ---------------------------------------------------------------- values
def setv(w, d, respect=True):
    w.scan()
    for p, v in d.items():
        if not (respect and p in w.H): w.V[p] = v
@op("value", lambda w: w.ca)
def _(m, w): p = w.ca[0][0]; setv(w, {p: .77}, False); m.set_value(p, .77)
@op("values dict", lambda w: w.ca)
def _(m, w):
    w.scan(); d = {p: round(v * .5 + .05, 6) for p, v in w.V.items() if p in w.names()}
    setv(w, d); m.set_values(d)
@op("values kw")
def _(m, w): d = {w.names()[0]: -.33}; setv(w, d); m.set_values(**d)
@op("values array")
def _(m, w):
    w.scan(); ix = list(m.pf.index)
    d = {p: round(w.V[p] * .75 + .1, 6) for p in ix}
    setv(w, d); m.set_values([d[p] for p in ix])
@op("values null")
def _(m, w):
    pf = m.pf; w.scan(); setv(w, dict(pf["nullvalue"])); m.set_values("null")
@op("values init")
def _(m, w):
    pf = m.pf; w.scan(); setv(w, dict(pf["initvalue"])); m.set_values("init")
@op("lock", lambda w: w.ca)
def _(m, w): p = w.ca[-1][0]; w.scan(); w.V[p] = w.nullv[p] = .25; w.H = w.H | {p}; m.lock_value(p, .25)
@op("lock same", lambda w: w.ca)
def _(m, w): p = w.ca[-1][0]; w.scan(); m.pf; w.H = w.H | {p}; w.nullv[p] = w.V[p]; m.lock_values(p)
@op("holdfast")
def _(m, w): p = w.names()[-1]; w.scan(); w.H = w.H | {p}; m.set_value(p, holdfast=1)
@op("free", lambda w: w.H)
def _(m, w): p = sorted(w.H)[0]; w.H = w.H - {p}; m.set_value(p, holdfast=0)
@op("nullvalue")
def _(m, w): p = w.names()[0]; w.scan(); w.nullv[p] = .2; m.set_value(p, nullvalue=.2)
@op("frame reversed")
def _(m, w): m.set_frame(m.pf.copy().iloc[::-1])
@op("frame")
def _(m, w):
    f = m.pf.copy(); w.scan(); p = w.names()[0]
    f.loc[p, "value"] = .123; w.V[p] = .123; m.set_frame(f)


# ---------------------------------------------------------------- declarations and data
@op("choice ca", NUM)
def _(m, w): w.ch = CH2; m.choice_ca_var = "ch2_"
@op("choice code", NUM)
def _(m, w): w.ch = CH2; m.choice_co_code = "code2_"
@op("choice co", NUM)
def _(m, w): w.ch = CH2; m.choice_co_vars = {a: f"ch2_{a}" for a in (1, 2, 3)}
@op("avail ca", NUM)
def _(m, w): w.av = AV2; m.availability_var = "av2_"
@op("avail co", NUM)
def _(m, w): w.av = AV2; m.availability_co_vars = {a: f"av2_{a}" for a in (1, 2, 3)}
@op("weight", NUM)
def _(m, w): w.wt = WT2; m.weight_co_var = "wt2_"
@op("weight None", lambda w: NUM(w) and w.wt)
def _(m, w): w.wt = None; m.weight_co_var = None
@op("data swap")
def _(m, w):
    w.rows = [3, 0, 4] if DF(w) else [0, 3, 4]; w.xshift = .5
    if NUM(w): m.datatree = w.dataset()
    else: m.dataframes = w.dataframes()
@op("data same size")
def _(m, w):
    w.xshift = -.25
    if NUM(w): m.datatree = w.dataset()
    else: m.set_dataframes(w.dataframes(), False)
@op("df choice", DF)
def _(m, w):
    w.ch = CH2; m.dataframes.data_ch = pd.DataFrame(np.asarray(CH2, float)[w.rows], index=pd.Index([IDS[i] for i in w.rows], name="caseid"), columns=[1, 2, 3])
@op("df avail", lambda w: DF(w) and "e" not in w.start)
def _(m, w):
    w.av = AV2; m.dataframes.data_av = pd.DataFrame(np.asarray(AV2, np.int8)[w.rows], index=pd.Index([IDS[i] for i in w.rows], name="caseid"), columns=[1, 2, 3])
@op("df weight", DF)
def _(m, w):
    w.wt = WT2; m.dataframes.data_wt = pd.DataFrame(np.asarray(WT2)[w.rows], index=pd.Index([IDS[i] for i in w.rows], name="caseid"), columns=["wt"])


# ---------------------------------------------------------------- evaluations
def ev_x(m, w):
    w.scan(); pf = m.pf
    p = [q for q in w.names() if q not in w.H]
    if p:
        w.V[p[0]] = .444; m.loglike({p[0]: .444})
def ev_xa(m, w):
    w.scan(); ix = list(m.pf.index)
    d = {p: round(w.V[p] * .9 + .03, 6) for p in ix}
    setv(w, d); m.loglike2([d[p] for p in ix])
EVALS = {
    "-": lambda m, w: None, "ll": lambda m, w: m.loglike(), "ll2b": lambda m, w: m.loglike2_bhhh(),
    "pr": lambda m, w: m.probability(), "ut": lambda m, w: m.utility(), "part": lambda m, w: m.loglike2(start_case=1, stop_case=2),
    "x": ev_x, "xa": ev_xa, "pf": lambda m, w: m.pf, "null": lambda m, w: m.loglike_null(), "ls": lambda m, w: m.logsums(),
}
k8 = dict(rtol=1e-8, atol=1e-10)
REFS = {}


def reference(w):
    key = repr((w.key()))
    if key not in REFS:
        if len(REFS) > 2000: REFS.clear()
        s = w.spec()
        vn = {p: (s.values[p] if p in w.H else w.null(p)) for p in s.values}
        REFS[key] = (s, dict(s.evaluate(), null=s.evaluate(vn, grad=False)["ll"].sum(),
                             nil=-(np.log(np.maximum(s.av.sum(1), 1)) * s.ch.sum(1) * (1 if s.wt is None else s.wt)).sum()))
    return REFS[key]


def compare(m, w, rec, tag, hist):
    s, r = reference(w)
    names = r["names"]
    eng = w.engine
    def bad(what, got, want):
        rec.violation(f"{what}:{tag}", f"{what} after {hist} differs from a model with the final definition\n got={got}\nwant={want}\nstate={w.key()}")
    pf = list(m.pf.index)
    if not set(names) <= set(pf):
        bad("parameters", pf, names); return
    ix = [pf.index(p) for p in names]
    free = [k for k, p in enumerate(names) if p not in s.holdfast]
    fx = [ix[k] for k in free]
    vals = {p: float(m.get_value(p)) for p in w.V if p in pf}
    if any(abs(vals[p] - w.V[p]) > 1e-12 for p in vals): bad("values", vals, w.V)
    na = 3
    if w.engine == "numba":
        got_ids = list(m.dataset[m.dataset.dc.CASEID].values)
    else:
        got_ids = list(m.dataframes.caseindex)
    ids = [IDS[i] for i in w.rows]
    if sorted(got_ids) != sorted(ids):
        bad("cases", got_ids, ids); return
    o = [ids.index(c) for c in got_ids]         # results come in the order of the container
    z = m.loglike(); rec.step()
    if not close(z, r["ll"].sum(), **k8): bad("loglike", z, r["ll"].sum())
    P_ = np.asarray(m.probability())[:, :na]; rec.step()
    if not close(P_, r["P"][o][:, :na], **k8): bad("probability", P_, r["P"][o][:, :na])
    z = m.loglike2_bhhh(); rec.step()
    if not close(z.ll, r["ll"].sum(), **k8): bad("loglike2_bhhh", z.ll, r["ll"].sum())
    g = np.asarray(z.dll)
    G, B = r["g"].sum(0), r["bhhh"].sum(0)
    if len(g) != len(pf) or not close(g[fx], G[free], rtol=1e-7, atol=1e-9): bad("gradient", dict(zip(pf, g)), dict(zip(names, G)))
    elif not close([g[i] for i in range(len(pf)) if i not in fx], 0 * np.zeros(len(pf) - len(fx)), atol=1e-9): bad("gradient-fixed", dict(zip(pf, g)), "zero for fixed and unused")
    b = np.asarray(z.bhhh)[np.ix_(fx, fx)]
    if not close(b, B[np.ix_(free, free)], rtol=1e-7, atol=1e-9): bad("bhhh", b, B)
    U = np.asarray(m.utility())[:, :na]; rec.step()
    if not close(U, r["U"][o][:, :na], **k8): bad("utility", U, r["U"])
    ls = np.asarray(m.logsums()); rec.step()
    if not close(ls, r["U"][o][:, -1], **k8): bad("logsums", ls, r["U"][o][:, -1])
    # a model is not told of tables replaced inside its container: only then is the documented cache bypassed
    uc = not any(str(h).startswith("df ") for h in hist)
    z = m.loglike_null(use_cache=uc); rec.step()
    if not close(z, r["null"], **k8): bad("loglike_null", z, r["null"])
    if eng == "legacy":
        z = m.loglike_nil(use_cache=uc); rec.step()
        if not close(z, r["nil"], **k8): bad("loglike_nil", z, r["nil"])
    z = np.asarray(m.d_loglike())
    if not close(z[fx], G[free], rtol=1e-7, atol=1e-9): bad("d_loglike", z, G)
    vals = {p: float(m.get_value(p)) for p in w.V if p in pf}
    if any(abs(vals[p] - w.V[p]) > 1e-12 for p in vals): bad("values-moved", vals, w.V)
    rec.outcome((eng, np.round(r["ll"].sum(), 7), tuple(np.round(P_.ravel(), 6))))
    rec.trace()


def sets_used(w):
    return ()


# second edits on the compiled engine in the quick tier (its models take 40 ms to rebuild)
SECOND = list(OPS) if T else ["ca=", "ca+=", "ca[0] scale", "ca same params", "del ca[0]", "co[2]=", "co={}", "q=()", "q[0] data", "qscale=", "nest+", "nest-", "nest edge", "nest param",
                              "value", "values dict", "lock", "holdfast", "frame", "choice ca", "choice co", "avail ca", "weight", "weight None", "data swap"]
assert all(n in OPS for n in SECOND)


def run(task, rec):
    engine, start, first, depth, evs0, evs1 = task
    names = [n for n in OPS if engine != "numba" or n in SECOND]
    for rest in itertools.product(names, repeat=depth - 1):
        for e0 in evs0:
            for mids in itertools.product(evs1, repeat=depth - 1):
                w = World(start, engine)
                seq = [first, *rest]
                # prune histories with an inapplicable edit before building anything
                m = None
                hist = [e0]
                ok = True
                try:
                    if not OPS[first][1](w): return
                    m = w.build()
                    EVALS[e0](m, w)
                    for i, o in enumerate(seq):
                        f, when = OPS[o]
                        if not when(w):
                            ok = False; break
                        f(m, w); rec.step(); hist.append(o)
                        rec.state((engine, w.key(), tuple(hist[-2:])))
                        if i < len(mids):
                            EVALS[mids[i]](m, w); hist.append(mids[i])
                    if not ok: break
                    compare(m, w, rec, f"{engine}:{start}:{seq[-1]}", hist)
                except Exception as e:
                    import traceback
                    rec.violation(f"raises:{engine}:{start}:{seq[-1]}:{type(e).__name__}", f"history {hist} of {seq} raises {e!r}\n{traceback.format_exc()[-1500:]}\nstate={w.key()}")
            if not ok: break


names = list(OPS)
tasks = []
for start in ("n", "qnw", "w", "ne"):
    for f in names:
        for eng in ("legacy", "lxdf"):
            if eng == "lxdf" and (start == "ne" or start == "w") and not T: continue
            tasks.append((eng, start, f, 1, tuple(EVALS), ()))
CK.section("single-df", tasks, run)
tasks = [("numba", start, f, 1, tuple(EVALS), ()) for start in (("n", "qnw", "w") if T else ("qnw", "w")) for f in names]
CK.section("single", tasks, run)
tasks = [("legacy", start, f, 2, ("-", "ll2b") if T else ("ll2b",), tuple(EVALS) if T else ("-", "ll2b")) for start in (("qnw", "n", "w") if T else ("qnw",)) for f in names]
CK.section("pairs-df", tasks, run)
tasks = [("numba", start, f, 2, ("ll2b",), ("-", "ll2b", "pr") if T else ("ll2b",)) for start in (("qnw", "n") if T else ("qnw",)) for f in SECOND]
CK.section("pairs", tasks, run)
CK.finish()
