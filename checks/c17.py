"""C17: a latent class model is the mixture of its classes."""
import itertools, math, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
import larch
from larch import P, X
from larch.model.latentclass import LatentClassModel
from vk.harness import Check
from vk.choice import Spec, close, cexp, clog
from vk import specs

CK = Check("C17", "model_checking",
           assumptions=["every case has an available alternative and every chosen alternative is available", "members are models of the Cython engine over DataFrames"],
           bounds=dict(classes="2 and 3", structures="every ordered pair of 7 class structures (MNL idca/idco, size terms, nested logit) x 5 membership models x sharing / separate names",
                       data="every availability subset x available choice, split and multiple choices, over 2-3 alternatives; weights none, plain and scaled",
                       histories="every sequence of up to 2 (thorough 3) of 13 parameter changes through the model, its membership model or a class"))
T = CK.thorough

CLASS = {   # name -> (structure, nests)
    "ca": ("ca", ()), "co": ("co", ()), "mix": ("mix", ()), "shared": ("shared", ()), "qs": ("qs", ()), "q": ("q", ()),
    "nl": ("mix", ((101, [1, 2]),)), "nl3": ("ca", ((101, [2, 3]),)), "nlq": ("q", ((101, [1, 3]),))}
MEMB = {   # utility of classes 2 and 3
    "const": {2: [("w", "1", 1)], 3: [("w3", "1", 1)]},
    "co": {2: [("w", "1", 1), ("wz", "inc", 1)], 3: [("w3", "hh", 1)]},
    "share": {2: [("b1", "1", 1)], 3: [("b1", "inc", -1)]},
    "first": {1: [("w", "inc", .5)], 3: [("w", "hh", -2)]},
    "none": {}}
MV = dict(w=.4, wz=-.3, w3=.8)


class Mix:
    """the reference: class specs and membership spec over one dictionary of values"""

    def __init__(self, km, ks, values, held=()):
        self.km, self.ks, self.values, self.held = km, ks, values, set(held)

    def case(self, i, val):
        _, lp, _ = self.km.eval_case(i, val)
        p = {a: 0. for a in self.ks[0].alts}
        for k, s in enumerate(self.ks):
            _, lc, _ = s.eval_case(i, val)
            for a in p:
                if lc[a] is not None: p[a] = p[a] + cexp(lp[k + 1]) * cexp(lc[a])
        return lp, p

    def evaluate(self, names=None):
        s = self.ks[0]
        val = self.values
        names = list(names or val)
        n, al = s.n, s.alts
        out = dict(P=np.zeros((n, len(al))), K=np.zeros((n, len(self.ks))), dP=np.zeros((n, len(al), len(names))), ll=np.zeros(n), g=np.zeros((n, len(names))), bhhh=np.zeros((n, len(names), len(names))))
        h = 1e-30
        for i in range(n):
            lp, p = self.case(i, val)
            out["K"][i] = [math.exp(lp[k + 1]) for k in range(len(self.ks))]
            out["P"][i] = [p[a] for a in al]
            for j, nm in enumerate(names):
                if nm in self.held or nm not in val: continue
                _, q = self.case(i, {**val, nm: complex(val[nm], h)})
                for k, a in enumerate(al): out["dP"][i, k, j] = q[a].imag / h if isinstance(q[a], complex) else 0.
            w = 1. if s.wt is None else s.wt[i]
            for k, a in enumerate(al):
                c = s.ch[i, k]
                if not c: continue
                d = out["dP"][i, k] / p[a]
                out["ll"][i] += math.log(p[a]) * c * w
                out["g"][i] += d * c * w
                out["bhhh"][i] += np.outer(d, d) * c * w
        return out


def make(classes, memb, sep, values="gen", weights="none", held=(), nalts=3):
    """sep: number of classes whose parameters get names of their own"""
    ks, val = [], {}
    for k, c in enumerate(classes):
        st, ne = CLASS[c]
        s = specs.make(st, nests=ne, values=values, alts=range(1, nalts + 1), weights=weights, empty=False)
        # the single-choice-at-size-zero exclusion of q0 is not used here
        if k >= len(classes) - sep:
            ren = lambda p: f"{p}.{k + 1}" if p else p
            s.ca = [(ren(p), v, x) for p, v, x in s.ca]
            s.co = {a: [(ren(p), v, x) for p, v, x in t] for a, t in s.co.items()}
            s.q = [(ren(p), v, x) for p, v, x in s.q]
            s.qscale = ren(s.qscale)
            s.nests = [(c_, ren(m), x) for c_, m, x in s.nests]
            s.values = {ren(p): v * .7 + (.1 if not p.startswith("mu") else .05) for p, v in s.values.items()}
        val.update({p: v for p, v in s.values.items() if p not in val})
        ks.append(s)
    n = ks[0].n
    kk = list(range(1, len(ks) + 1))
    cox = {v: [t[i % 5] for i in range(n)] for v, t in (("inc", specs.INC), ("hh", specs.HH))}
    mt = {a: t for a, t in MEMB[memb].items() if a in kk}
    km = Spec(kk, (), (), mt, (), None, {}, cox, None, np.zeros((n, len(kk))), None, {p: MV.get(p, val.get(p, .25)) for t in mt.values() for p, _, _ in t})
    for p, v in km.values.items(): val.setdefault(p, v)
    for s in ks: s.holdfast = set(held)
    return Mix(km, ks, val, held)


def dataframes(mix, weights=None, fmt="ca"):
    a = mix.ks[0]
    cax = {k: v for s in mix.ks for k, v in s.cax.items()}
    allx = Spec(a.alts, cax=cax, cox=mix.km.cox, av=a.av, ch=a.ch, wt=a.wt, values={}, caseids=a.caseids)
    d = allx.dataframes(fmt)
    return d


def model(mix, fmt="ca", scale=False, set_values=True, order=None):
    ms = {}
    for k, s in enumerate(mix.ks):
        m = larch.Model()
        s.apply_structure(m, None, None)
        m.n_threads = 1
        if s.nests:
            m.graph = larch.model.tree.NestingTree()
            m.initialize_graph(alternative_codes=s.alts, alternative_names=[f"n{a}" for a in s.alts])
            s.add_nests(m)
        ms[k + 1] = m
    km = larch.Model()
    for a, t in mix.km.co.items(): km.utility_co[a] = __import__("vk.choice").choice._lin(t)
    m = LatentClassModel(km, ms if order is None else {k: ms[k] for k in order})
    d = dataframes(mix, fmt=fmt)
    if scale and d.data_wt is not None: d.autoscale_weights()
    m.dataframes = d
    m.unmangle()
    if set_values:
        for p, v in mix.values.items(): m.set_value(p, v, **({"holdfast": 1} if p in mix.held else {}))
    return m


def compare(m, mix, rec, tag, deep=True):
    names = list(m.pf.index)
    rec.expect(set(names) == set(mix.values), f"parameters:{tag}", lambda: f"{names}, {list(mix.values)}")
    r = mix.evaluate(names)
    free = [i for i, p in enumerate(names) if p not in mix.held]

    def chk(what, got, want, tol=1e-9):
        rec.step()
        if not close(got, want, rtol=tol, atol=tol): rec.violation(f"{what}:{tag}", f"{what} is\n{got}\nthe mixture of the classes gives\n{want}")

    chk("loglike", m.loglike(), r["ll"].sum())
    chk("probability", m.probability(), r["P"])
    z = m.loglike2()
    chk("loglike2", z.ll, r["ll"].sum())
    G, B = r["g"].sum(0), r["bhhh"].sum(0)
    chk("gradient", np.asarray(z.dll)[free], G[free], 1e-7)
    if mix.held: chk("held", np.asarray(z.dll)[[i for i in range(len(names)) if i not in free]], 0 * np.asarray(z.dll)[[i for i in range(len(names)) if i not in free]])
    if deep:
        chk("d_probability", m.d_probability()[:, :, free], r["dP"][:, :, free], 1e-7)
        z = m.loglike2_bhhh()
        chk("loglike2_bhhh", z.ll, r["ll"].sum())
        chk("bhhh-gradient", np.asarray(z.dll)[free], G[free], 1e-7)
        chk("bhhh", np.asarray(z.bhhh)[np.ix_(free, free)], B[np.ix_(free, free)], 1e-7)
        chk("d_loglike", np.asarray(m.d_loglike())[free], G[free], 1e-7)
        K = m.class_membership_probability()
        chk("membership", K.loc[:, list(range(1, len(mix.ks) + 1))], r["K"])
        n = len(r["ll"])
        for a, b, st in ((0, n, 1), (1, n, 1), (0, n - 1, 2), (2, 5, 1)):
            sl = slice(a, b, st)
            chk("range-probability", m.probability(start_case=a, stop_case=b, step_case=st), r["P"][sl])
            chk("range-loglike", m.loglike(start_case=a, stop_case=b, step_case=st), r["ll"][sl].sum())
            z = m.loglike2(start_case=a, stop_case=b, step_case=st)
            chk("range-loglike2", z.ll, r["ll"][sl].sum())
            chk("range-gradient", np.asarray(z.dll)[free], r["g"][sl].sum(0)[free], 1e-7)
        df = m.probability(return_dataframe=True)
        chk("frame", df.loc[mix.ks[0].caseids, mix.ks[0].alts], r["P"])
        chk("loglike-again", m.loglike(), r["ll"].sum())
        x = [mix.values[p] * .5 + .2 for p in names]
        m2 = Mix(mix.km, mix.ks, {**mix.values, **dict((p, v) for p, v in zip(names, x) if p not in mix.held)}, mix.held)
        r2 = m2.evaluate(names)
        chk("loglike-x", m.loglike(x), r2["ll"].sum())
        chk("gradient-x", np.asarray(m.d_loglike(x))[free], r2["g"].sum(0)[free], 1e-7)
        rec.expect(close([m.pf.loc[p, "value"] for p in names], [m2.values[p] for p in names]), f"values-x:{tag}", lambda: f"{m.pf.value}")
        chk("loglike-back", m.loglike(dict(mix.values)), r["ll"].sum())
    rec.outcome(round(float(r["ll"].sum()), 6))
    return r


def mixture(task, rec):
    cl, memb, sep, values, weights, held, fmt, scale, nalts, order = (*task, None)[:10]
    mix = make(cl, memb, sep, values, weights, held, nalts)
    held = tuple(h for h in held if h in mix.values)
    mix.held = set(held)
    m = model(mix, fmt, scale, order=order)
    compare(m, mix, rec, f"{'+'.join(sorted(set(cl)))}:{memb}:{weights}:{scale}:{fmt}:{bool(held)}")
    rec.eval(task)
    rec.state(task)
    rec.trace()


tasks = []
cls = list(CLASS)
for a, b in itertools.product(cls, cls):
    for memb in MEMB:
        for sep in ((0, 1) if T else (1,)):
            if memb == "share" and not ({a, b} & {"ca", "mix", "shared", "q", "qs"}): continue
            tasks.append(((a, b), memb, sep, "gen", "none", (), "ca", False, 3))
some = [("ca", "mix"), ("nl", "ca"), ("q", "qs"), ("co", "nl3"), ("shared", "nlq")]
for c in some:
    for weights, scale in (("w", False), ("w", True)):
        for fmt in ("ca", "ce"):
            if c == ("co", "nl3") and fmt == "ce": pass
            for held in ((), ("b1",), ("w", "a2")):
                tasks.append((c, "co", 1, "gen", weights, held, fmt, scale, 3))
    for held in (("b1",), ("w",), ("mu1",), ("b1", "b1.2", "w")):
        for sep in (0, 1, 2):
            tasks.append((c, "co", sep, "gen", "none", held, "ca", False, 3))
    tasks.append((c, "co", 1, "zero", "none", (), "ca", False, 3))
    tasks.append((c, "co", 2, "hot", "w", (), "ca", False, 3))
for c in itertools.product(("ca", "mix", "nl", "co") if T else ("mix", "nl", "co"), repeat=3):
    for memb in (MEMB if T else ("const", "co")):
        for sep in ((0, 1, 2, 3) if T else (0, 2)):
            tasks.append((c, memb, sep, "gen", "w", (), "ca", False, 3))
for c in (("ca", "ca"), ("ca", "shared"), ("shared", "ca")):
    for memb in MEMB:
        tasks.append((c, memb, 1, "gen", "none", (), "ca", False, 2))
for c in (("ca", "mix"), ("nl", "qs"), ("co", "ca")):   # class models listed in another order than their codes
    for memb in ("const", "co"):
        tasks.append((c, memb, 1, "gen", "w", (), "ca", False, 3, (2, 1)))
for c in (("ca", "mix", "co"), ("nl", "ca", "mix")):
    for o in itertools.permutations((1, 2, 3)):
        for sep in (0, 2): tasks.append((c, "co", sep, "gen", "none", (), "ca", False, 3, o))
CK.section("mixture", tasks, mixture)


# ------------------------------------------------------------ single cases
def single(task, rec):
    """every pair of cases by availability and choice: the value of one case does not depend on the other"""
    cl, rows, wt = task
    mix = make(cl, "co", 1)
    av, ch = specs.all_cases(3, empty=False)
    for s in mix.ks:
        s.av = np.array([av[i] for i in rows]); s.ch = np.array([ch[i] for i in rows])
        s.n = len(rows); s.caseids = [10 * i + 3 for i in range(len(rows))]
        s.cax = {k: v[:len(rows)] for k, v in s.cax.items()}; s.cox = {k: v[:len(rows)] for k, v in s.cox.items()}
        s.wt = wt
    mix.km.cox = {k: v[:len(rows)] for k, v in mix.km.cox.items()}
    mix.km.n = len(rows); mix.km.caseids = mix.ks[0].caseids
    m = model(mix)
    compare(m, mix, rec, f"single:{'+'.join(cl)}", deep=False)
    rec.state(task)
    rec.eval(task)
    rec.trace()


n = len(specs.all_cases(3, empty=False)[0])
CK.section("single", [(c, r, w) for c in (("ca", "nl"), ("mix", "q")) for r in itertools.product(range(n), repeat=2) for w in ((None, [2., .5]) if T else ([2., .5],))] , single)


# ------------------------------------------------------------ histories of parameter changes
def history(task, rec):
    cl, memb, sep, weights, seq = task
    mix = make(cl, memb, sep, "gen", weights)
    m = model(mix)
    names = list(m.pf.index)
    tag = "history"
    best = None
    for i, op in enumerate(seq):
        who, what = op
        o = {"m": m, "k": m._k_membership, "1": m._k_models[1], "2": m._k_models[2]}[who]
        v = dict(mix.values)
        if what == "one":
            p = names[0]; v[p] = .123 * (i + 1); o.set_value(p, v[p])
        elif what == "last":
            p = names[-1]; v[p] = -.2 * (i + 1); o.set_value(p, v[p])
        elif what == "dict":
            for j, p in enumerate(names): v[p] = v[p] * .5 + .1 * j
            o.set_values(v)
        elif what == "kw":
            v[names[1]] = .77 + i; o.set_values(**{names[1]: v[names[1]]}) if names[1].isidentifier() else o.set_values({names[1]: v[names[1]]})
        elif what == "x":
            for j, p in enumerate(names): v[p] = v[p] + .05 * (j + 1)
            o.loglike([v[p] for p in names]) if who == "m" else o.set_values([v[p] for p in names])
        elif what == "best":
            if best is None: continue
            m.set_values("best"); v = dict(best[1])
        elif what == "frame":
            f = o.pf.copy()
            for j, p in enumerate(names):
                v[p] = .9 if p.startswith("mu") else .3 - .07 * j
                f.loc[p, "value"] = v[p]
            o.set_frame(f)
        elif what == "mangle":
            o.mangle()
        mix = Mix(mix.km, mix.ks, v, mix.held)
        ll = mix.evaluate([])["ll"].sum()
        got = m.loglike()
        rec.step()
        rec.state(tuple(round(v[p], 9) for p in names))
        if not close(got, ll): rec.violation(f"history:{who}:{what}", f"{task} after {seq[:i + 1]}: log likelihood {got}, mixture of the classes {ll}; values in the group {dict(m.pf.value)}, expected {v}")
        for k in (m._k_membership, *m._k_models.values()):
            d = {p: x for p, x in k.pf.value.items() if p in v}
            if not all(close(x, v[p]) for p, x in d.items()): rec.violation(f"values:{who}:{what}", f"{task} after {seq[:i + 1]}: a member has {d}, expected {v}")
        if best is None or ll > best[0] + 1e-9: best = (ll, dict(v))
    compare(m, mix, rec, tag, deep=False)
    rec.eval(task)
    rec.trace()


OPS = [("m", "one"), ("m", "last"), ("m", "dict"), ("m", "kw"), ("m", "x"), ("m", "best"), ("m", "mangle"), ("k", "one"), ("1", "one"), ("2", "last"), ("1", "mangle"), ("k", "mangle"), ("m", "frame")]
CK.section("history", [(c, "co", 1, w, s) for c, w in ((("ca", "nl"), "none"), (("mix", "q"), "w")) for k in ((1, 2, 3) if T else (1, 2)) for s in itertools.product(OPS, repeat=k)], history)

CK.finish()
