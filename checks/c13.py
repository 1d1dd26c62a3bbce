"""C13: data container conversions keep every value with its case and alternative."""
import itertools, warnings, copy
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
import larch
from larch.model.tree import NestingTree
from vk.harness import Check

CK = Check("C13", "model_checking",
           assumptions=["tables number cases and alternatives by integers", "a case where nothing is chosen has no weight once weights embedded in choices are extracted"],
           bounds=dict(build="every set of present rows of 2 (thorough 3) cases by 3 alternatives x row orders x every form of giving choices (7), availability (7) and weights (5)",
                       named="alternatives by name or by ids of three types, case ids of four types, every row order of up to 4 (thorough 6) rows", histories="every sequence of up to 3 (thorough 4) of 11 operations on 12 containers",
                       summary="every choice and availability pattern of 2 cases by 2 alternatives (3 by 3 in part) x weights x nesting"))
T = CK.thorough
CASES, ALTS = (12, 5, 30), (3, 20, 41)
NAN = float("nan")
x_ = lambda c, a: c + a / 8
n_ = lambda c, a: c * a
z_ = lambda c: 1 + c / 16
v_ = lambda c: -c
w_ = lambda c: 1.5 + c / 4


def rows_of(t, cols=None):
    if t is None: return None
    t = t.to_frame() if isinstance(t, pd.Series) else t
    t = t if cols is None else t[cols]
    return {k: list(map(float, v)) for k, v in zip(t.index, np.asarray(t, float))}


def wide(t):
    if t is None: return None
    return {(c, a): float(v) for c, r in zip(t.index, np.asarray(t, float)) for a, v in zip(t.columns, r)}


def same(a, b):
    """equal up to rounding"""
    if a is None or b is None: return a is b
    return a.keys() == b.keys() and all(np.allclose(a[k], b[k], rtol=1e-12, atol=1e-14) for k in a)


class R:
    """reference: plain dictionaries by case and alternative"""
    def __init__(self, cases, alts, tab=None, co=None, ch=None, av=None, wt=None):
        self.cases, self.alts, self.tab, self.co, self.ch, self.av, self.wt, self.norm = sorted(cases), list(alts), tab, co, ch, av, wt, 1.
    def copy(self): return copy.deepcopy(self)
    def extract(self):
        tot = {c: sum(self.ch[c, a] for a in self.alts) for c in self.cases}
        if any(abs(t - 1) > 1e-8 for t in tot.values()):
            if self.wt is None: self.wt = {c: [1.] for c in self.cases}
            for c in self.cases:
                self.wt[c] = [self.wt[c][0] * tot[c]]
                if tot[c]:
                    for a in self.alts: self.ch[c, a] /= tot[c]
    def scale(self, s):
        self.extract()
        if self.wt is None:
            if s == 1: return
            self.wt = {c: [1.] for c in self.cases}
        for c in self.cases: self.wt[c] = [self.wt[c][0] / s]
        self.norm *= s
    def autoscale(self):
        self.extract()
        if self.wt is None: return
        s = sum(self.wt[c][0] for c in self.cases) / len(self.cases)
        if s: self.scale(s)
    def unscale(self):
        if self.wt is not None:
            for c in self.cases: self.wt[c] = [self.wt[c][0] * self.norm]
        self.norm = 1.
    def keep(self, cs):
        cs = [c for c in self.cases if c in cs]
        f = lambda d: None if d is None else {k: v for k, v in d.items() if (k[0] if isinstance(k, tuple) else k) in cs}
        self.cases, self.tab, self.co, self.ch, self.av, self.wt = cs, f(self.tab), f(self.co), f(self.ch), f(self.av), f(self.wt)


def compare(d, r, rec, key, msg):
    tab = d.data_ce if d.data_ce is not None else d.data_ca
    got = dict(tab=rows_of(tab, None if tab is None else ["x", "n"]), co=rows_of(d.data_co, None if d.data_co is None else ["z", "v"]),
               ch=wide(d.data_ch), av=wide(d.data_av), wt=rows_of(d.data_wt))
    ok = True
    for n, g in got.items():
        w = getattr(r, n)
        ok &= rec.expect(same(g, w), f"{key}:{n}", lambda: f"{msg}: {n} is {g}, expected {w}")
    ok &= rec.expect(abs(d.weight_normalization / r.norm - 1) < 1e-12, f"{key}:norm", lambda: f"{msg}: normalization {d.weight_normalization}, expected {r.norm}")
    ok &= rec.expect(list(d.alternative_codes()) == r.alts, f"{key}:alts", lambda: f"{msg}: alternatives {list(d.alternative_codes())}, expected {r.alts}")
    ok &= rec.expect(d.n_cases == len(r.cases) and list(d.caseindex) == r.cases, f"{key}:cases", lambda: f"{msg}: cases {list(d.caseindex)}")
    arrs = dict(ch=(d.array_ch(), r.ch), av=(d.array_av(), r.av))
    for n, (g, w) in arrs.items():
        if w is not None and ok:
            ok &= rec.expect(np.allclose(g, [[w[c, a] for a in r.alts] for c in r.cases]), f"{key}:array_{n}", lambda: f"{msg}: array_{n} is {g}")
    return ok


class Inputs:
    """the caller's frames, and whether they are as they were"""
    def __init__(self, **kw):
        self.kw = kw
        self.keep = {k: (v.copy(deep=True) if isinstance(v, (pd.DataFrame, pd.Series)) else copy.deepcopy(v)) for k, v in kw.items()}
        for k, v in self.keep.items():
            if isinstance(v, (pd.DataFrame, pd.Series)): v.index = v.index.copy(deep=True)
        self.idx = {k: v.index for k, v in kw.items() if isinstance(v, (pd.DataFrame, pd.Series))}
    def changed(self):
        out = []
        for k, v in self.kw.items():
            w = self.keep[k]
            if isinstance(v, pd.DataFrame):
                if not (v.index is self.idx[k] or v.index.equals(w.index) and v.index.dtype == w.index.dtype) or list(v.columns) != list(w.columns) or list(v.dtypes) != list(w.dtypes) or not v.equals(w) or v.index.dtype != w.index.dtype or not v.index.equals(w.index): out.append(k)
            elif isinstance(v, pd.Series):
                if not v.equals(w) or v.dtype != w.dtype or not v.index.equals(w.index): out.append(k)
            elif isinstance(v, np.ndarray):
                if not np.array_equal(v, w): out.append(k)
            elif v != w: out.append(k)
        return out


CHF = ("wide", "long", "sparse", "column", "as_ce", "code", "none")
AVF = ("wide", "permuted", "long", "sparse", "column", "co", "true", "none")
WTF = ("series", "frame", "co", "column", "none")


def build(task, rec):
    fmt, cs, present, order, chf, avf, wtf = task
    full = [(c, a) for c in cs for a in ALTS]
    keys = [full[i] for i in present]
    rows = full if fmt == "ca" else keys if fmt == "ce" else []
    if order == "rev": rows = rows[::-1]
    if order == "alt" : rows = sorted(rows, key=lambda k: (k[1], k[0]))
    pick = {c: [a for x, a in keys if x == c][-1] for c in cs}
    idx = pd.Index(cs, name="cid")
    ch = {(c, a): 1. * (pick[c] == a) for c in cs for a in ALTS}
    av = {(c, a): 1. * ((c, a) in keys) for c in cs for a in ALTS}
    mi = lambda ks: pd.MultiIndex.from_tuples(ks, names=["cid", "aid"])
    kw = dict(alt_codes=ALTS)
    ref = R(cs, ALTS, co={c: [z_(c), v_(c)] for c in cs}, ch=None if chf == "none" else ch, av=av, wt=None if wtf == "none" else {c: [w_(c)] for c in cs})
    co = pd.DataFrame({"z": [z_(c) for c in cs], "v": [v_(c) for c in cs]}, index=idx)
    if fmt != "co":
        tab = pd.DataFrame({"x": [x_(*k) for k in rows], "n": [n_(*k) for k in rows]}, index=mi(rows))
        if chf == "column": tab["chosen"] = [ch[k] for k in rows]
        if avf == "column": tab["avail"] = [int(av[k]) for k in rows]
        if wtf == "column": tab["w"] = [w_(c) for c, a in rows]
        kw[fmt] = tab
        ref.tab = {k: [x_(*k), n_(*k)] for k in rows}
    if chf == "code": co["chcode"] = [pick[c] for c in cs]
    if avf == "co":
        for a in ALTS: co[f"av{a}"] = [int(av[c, a]) for c in cs]
    if wtf == "co": co["w"] = [w_(c) for c in cs]
    kw["co"] = co
    wide_ = lambda d, alts=ALTS, t=float: pd.DataFrame({a: [t(d[c, a]) for c in cs] for a in alts}, index=idx)
    if chf == "wide": kw["ch"] = wide_(ch)
    if chf == "long": kw["ch"] = pd.Series([ch[k] for k in full], index=mi(full))
    if chf == "sparse": kw["ch"] = pd.Series([ch[k] for k in keys], index=mi(keys))
    if chf == "column": kw["ch"] = "chosen"
    if chf == "as_ce": kw["ch_as_ce"] = np.asarray([ch[k] for k in rows])
    if chf == "code": kw["ch"] = "chcode"
    if avf == "wide": kw["av"] = wide_(av, t=int)
    if avf == "permuted": kw["av"] = wide_(av, ALTS[::-1], t=int)
    if avf == "long": kw["av"] = pd.Series([int(av[k]) for k in full], index=mi(full))
    if avf == "sparse": kw["av"] = pd.Series([int(av[k]) for k in keys], index=mi(keys))
    if avf == "column": kw["av"] = "avail"
    if avf == "co": kw["av"] = {a: f"av{a}" for a in ALTS}
    if avf == "true":
        kw["av"] = True
        ref.av = {k: 1. for k in full}
    if avf == "none" and fmt != "ce": ref.av = None
    if avf == "none" and fmt == "ca" and list(cs) != sorted(cs): ref.av = {k: 1. for k in full}    # held as a sparse table
    if wtf == "series": kw["wt"] = pd.Series([w_(c) for c in cs], index=idx)
    if wtf == "frame": kw["wt"] = pd.DataFrame({"w": [w_(c) for c in cs]}, index=idx)
    if wtf in ("co", "column"): kw["wt"] = "w"
    msg = f"{fmt} cases {cs} rows {rows} choice {chf} avail {avf} weight {wtf}"
    key = f"build:{fmt}:{chf}:{avf}:{wtf}"
    ins = Inputs(**kw)
    rec.step(); rec.state(task); rec.eval(task)
    try:
        d = larch.DataFrames(**kw)
    except Exception as e:
        rec.violation(f"{key}:raises", f"{msg}: {type(e).__name__}: {e}")
        return
    compare(d, ref, rec, key, msg)
    rec.expect(not ins.changed(), f"build-input:{','.join(ins.changed())}", lambda: f"{msg}: building changed the caller's {ins.changed()}")
    d.computational = True
    compare(d, ref, rec, key + ":computational", msg)
    if chf != "none":
        d.autoscale_weights(); ref.autoscale()
        compare(d, ref, rec, key + ":autoscaled", msg)
    rec.expect(not ins.changed(), f"scale-input:{','.join(ins.changed())}", lambda: f"{msg}: autoscaling changed the caller's {ins.changed()}")
    rec.trace()


NAMED = ("walk", "auto", "bike")


def named(task, rec):
    """alternatives given by name, cases or alternatives numbered by other types than int64"""
    fmt, cs, present, perm, chf, ctype, atype = task
    NAMED = globals()["NAMED"] if atype == "name" else ALTS
    full = [(c, a) for c in cs for a in NAMED]
    keys = full if fmt == "ca" else [full[i] for i in present]
    rows = [keys[i] for i in perm] if perm else keys
    pick = {c: [a for x, a in keys if x == c][-1] for c in cs}
    val = {k: [k[0] + i / 8, k[0] * i * 1.] for k in full for i in [NAMED.index(k[1])]}
    conv = {"int64": int, "float64": float, "str": str, "int32": np.int32}[ctype]
    aconv = {"name": str, "str": str, "float": float, "int": int}[atype]
    mi = pd.MultiIndex.from_arrays([pd.Index([conv(c) for c, a in rows], dtype=object if ctype == "str" else ctype), [aconv(a) for c, a in rows]], names=["cid", "aid"])
    tab = pd.DataFrame({"x": [val[k][0] for k in rows], "n": [val[k][1] for k in rows]}, index=mi)
    tab["chosen"] = [1. * (pick[k[0]] == k[1]) for k in rows]
    kw = {fmt: tab, "co": pd.DataFrame({"z": [z_(c) for c in cs], "v": [v_(c) for c in cs]}, index=pd.Index([conv(c) for c in cs], dtype=object if ctype == "str" else ctype, name="cid"))}
    if chf == "column": kw["ch"] = "chosen"
    else: kw["ch_as_ce"] = tab["chosen"].to_numpy()
    ins = Inputs(**kw)
    msg = f"{fmt} alternatives {NAMED} rows {rows} cases as {ctype} alternatives as {atype} choice {chf}"
    rec.state(task); rec.step(); rec.eval(task)
    try:
        d = larch.DataFrames(**kw)
    except Exception as e:
        rec.violation(f"named:{fmt}:{chf}:{ctype}:raises", f"{msg}: {type(e).__name__}: {e}")
        return
    nm = dict(zip(d.alternative_codes(), d.alternative_names() if atype == "name" else d.alternative_codes()))
    if not rec.expect(sorted(nm.values()) == sorted(NAMED), "named:names", lambda: f"{msg}: alternatives {nm}"): return
    t = d.data_ce if d.data_ce is not None else d.data_ca
    tr = lambda g: {(c, nm[a]): v for (c, a), v in g.items()}
    got = tr(rows_of(t, ["x", "n"]))
    rec.expect(same(got, {k: val[k] for k in keys}), "named:values", lambda: f"{msg}: {got}")
    got = tr(wide(d.data_ch))
    rec.expect(same(got, {k: 1. * (pick[k[0]] == k[1]) for k in full}), "named:choice", lambda: f"{msg}: choices {got}")
    if fmt == "ce":
        got = tr(wide(d.data_av))
        rec.expect(same(got, {k: 1. * (k in keys) for k in full}), "named:available", lambda: f"{msg}: available {got}")
    got = rows_of(d.data_co)
    rec.expect(same(got, {c: [z_(c), v_(c)] for c in cs}), "named:co", lambda: f"{msg}: co {got}")
    rec.expect(not ins.changed(), f"named-input:{','.join(ins.changed())}", lambda: f"{msg}: building changed the caller's {ins.changed()}")
    rec.trace()


# ---------------------------------------------------------------- histories
BASES = ["ca", "ce", "ca-embedded", "ce-embedded", "ca-nowt", "ce-nowt-embedded", "co", "ca-empty", "ca-float", "ca-names", "ca-unused", "ce-unused"]


def base(name):
    cs = CASES
    idx = pd.Index(cs, name="cid")
    emb = "embedded" in name
    full = [(c, a) for c in cs for a in ALTS]
    keys = [k for i, k in enumerate(full) if i not in (1, 5, 6)]
    fmt = name.split("-")[0]
    rows = full if fmt == "ca" else keys
    ch = {(c, a): 0. for c, a in full}
    ch[12, 3], ch[5, 20], ch[30, 41] = (2., .75, 1.) if emb else (1., 1., 1.)
    if emb: ch[5, 3] = .5
    if "empty" in name: ch[5, 20] = 0.
    av = {k: 1. * (k in keys) for k in full}
    kw = dict(alt_codes=ALTS, co=pd.DataFrame({"z": [z_(c) for c in cs], "v": [v_(c) for c in cs]}, index=idx),
              ch=pd.DataFrame({a: [ch[c, a] for c in cs] for a in ALTS}, index=idx))
    r = R(cs, ALTS, co={c: [z_(c), v_(c)] for c in cs}, ch=ch, av=av)
    if fmt != "co":
        t = pd.DataFrame({"x": [x_(*k) for k in rows], "n": [n_(*k) for k in rows]}, index=pd.MultiIndex.from_tuples(rows, names=["cid", "aid"]))
        if "unused" in name:      # what is left of a larger table
            more = pd.DataFrame(-9., index=pd.MultiIndex.from_tuples([(c, a) for c in (1, 7, 99) for a in ALTS], names=["cid", "aid"]), columns=["x", "n"])
            t = pd.concat([more, t]).sort_index()
            t = t[t.n != -9.]
            assert len(t.index.levels[0]) == 6
        if "float" in name: t = t.astype("float64"); kw["co"] = kw["co"].astype("float64")
        kw[fmt] = t
        r.tab = {k: [x_(*k), n_(*k)] for k in rows}
    kw["av"] = pd.DataFrame({a: np.asarray([av[c, a] for c in cs], "int8" if "float" in name else "int64") for a in ALTS}, index=idx)
    if "nowt" not in name:
        kw["wt"] = pd.DataFrame({"w": [w_(c) for c in cs]}, index=idx)
        r.wt = {c: [w_(c)] for c in cs}
    if "names" in name: kw["alt_names"] = ["one", "two", "three"]
    ins = Inputs(**kw)
    return larch.DataFrames(**kw), r, ins


def sel(expr, f):
    def op(d, r):
        cs = [c for c in r.cases if f(c)]
        if not cs: return d, r            # (a container without cases is outside)
        names = d.alternative_names()
        d2 = d.selector_co(expr)
        assert (names is None) == (d2.alternative_names() is None) and (names is None or list(names) == list(d2.alternative_names()))
        r.keep(cs)
        return d2, r
    return op


def part(i):
    def op(d, r):
        if len(r.cases) < 2: return d, r
        d2 = d.split(2)[i]
        n = len(r.cases)
        r.keep(r.cases[:(n + 1) // 2] if i == 0 else r.cases[(n + 1) // 2:])
        return d2, r
    return op


def inplace(f, g):
    def op(d, r):
        f(d); g(r)
        return d, r
    return op


def promote(d, r):
    if d.data_ce is None: return d, r
    d.data_ce_as_ca("presence")
    r.tab = {(c, a): r.tab.get((c, a), [0., 0.]) for c in r.cases for a in r.alts}
    return d, r


OPS = {
    "autoscale": inplace(lambda d: d.autoscale_weights(), lambda r: r.autoscale()),
    "scale2.5": inplace(lambda d: d.scale_weights(2.5), lambda r: r.scale(2.5)),
    "scale1": inplace(lambda d: d.scale_weights(1.0), lambda r: r.scale(1.)),
    "unscale": inplace(lambda d: d.unscale_weights(), lambda r: r.unscale()),
    "select": sel("z > 1.5", lambda c: z_(c) > 1.5),
    "select-odd": sel("v != -12", lambda c: c != 12),
    "part0": part(0), "part1": part(1),
    "computational": inplace(lambda d: setattr(d, "computational", True), lambda r: None),
    "summary": inplace(lambda d: d.choice_avail_summary(), lambda r: None),
    "views": inplace(lambda d: (d.data_co_as_ce(), d.data_ch_as_ce(), d.data_av_as_ce(), d.data_wt_as_ce(), d.data_ca_as_ce(), d.data_co_combined()), lambda r: None),
    "promote": promote,
}


def history(task, rec):
    name, ops = task
    d, r, ins = base(name)
    if not compare(d, r, rec, f"base:{name}", name): return
    done = []
    parents = []
    for o in ops:
        done.append(o)
        before = d, r.copy()
        try:
            d, r = OPS[o](d, r)
        except Exception as e:
            rec.violation(f"{o}-raises:{type(e).__name__}", f"{name} after {done[:-1]}: {o} raises {type(e).__name__}: {e}")
            return
        rec.step()
        if d is not before[0]: parents.append(before)
        rec.state((name, tuple(done), repr(sorted(r.ch.items()) if r.ch else None), repr(r.wt), r.norm))
        if not compare(d, r, rec, f"{o}", f"{name} {done}"): return
    for p, pr in parents:    # what happens to a part does not show in the whole
        if not compare(p, pr, rec, "parent", f"{name} {done}: the container before"): return
    rec.eval(task)
    rec.expect(not ins.changed(), "history-input", lambda: f"{name} {done}: changed the caller's {ins.changed()}")
    rec.trace()


# ---------------------------------------------------------------- summary and cascades
def tree(kind, alts):
    g = NestingTree()
    for a in alts: g.add_node(a, name=f"n{a}")
    g.root_id = 0
    if kind == 1:
        g.new_node(children=list(alts[:2]), parameter="mu", name="nest")
    if kind == 2:
        b = g.new_node(children=list(alts[:2]), parameter="mu", name="nest")
        g.new_node(children=[b, *alts[2:3]], parameter="mu2", name="upper")
    return g


def summary(task, rec):
    n, alts, chs, avs, wt, kind = task
    cs = CASES[:n]
    idx = pd.Index(cs, name="cid")
    ch = {(c, a): float(v) for (c, a), v in zip(itertools.product(cs, alts), chs)} if chs is not None else None
    av = {(c, a): int(v) for (c, a), v in zip(itertools.product(cs, alts), avs)} if avs is not None else None
    w = {c: v for c, v in zip(cs, (1.5, .25, 3.))} if wt else None
    kw = dict(alt_codes=alts, co=pd.DataFrame({"z": [1.] * n}, index=idx))
    if ch is not None: kw["ch"] = pd.DataFrame({a: [ch[c, a] for c in cs] for a in alts}, index=idx)
    if av is not None: kw["av"] = pd.DataFrame({a: [av[c, a] for c in cs] for a in alts}, index=idx)
    if w: kw["wt"] = pd.Series([w[c] for c in cs], index=idx)
    d = larch.DataFrames(**kw)
    msg = f"choices {ch} available {av} weights {w} tree {kind}"
    rec.state(task); rec.eval(task); rec.step()
    g = None if kind is None else tree(kind, alts)
    under = {a: {a} for a in alts}
    if g is not None:
        for k in g.standard_sort:
            if k not in under:
                under[k] = {x for x in alts if k in _anc(g, x)}
        if ch is not None:
            got, want = wide(d.data_ch_cascade(g)), {(c, k): sum(ch[c, a] for a in under[k]) for c in cs for k in under}
            rec.expect(same(got, want), "cascade-ch", lambda: f"{msg}: {got} expected {want}")
        if av is not None:
            got, want = wide(d.data_av_cascade(g)), {(c, k): float(max(av[c, a] for a in under[k])) for c in cs for k in under}
            rec.expect(same(got, want), "cascade-av", lambda: f"{msg}: {got} expected {want}")
        if ch is None or av is None:
            return
    try:
        s = d.choice_avail_summary(g)
    except Exception as e:
        rec.violation(f"summary-raises:{type(e).__name__}", f"{msg}: {type(e).__name__}: {e}")
        return
    W = w or {c: 1. for c in cs}
    C = lambda k, ww, only=False: sum((sum(ch[c, a] for a in under[k]) if not only or not max(av[c, a] for a in under[k]) else 0.) * (W[c] if ww else 1) for c in cs)
    A = lambda k, ww: sum(max(av[c, a] for a in under[k]) * (W[c] if ww else 1) for c in cs)
    for k in under:
        if g is not None and k == g.root_id: continue
        row = s.loc[k]
        for col in s.columns:
            if col == "name": continue
            ww = col.endswith(" weighted") or (w and not col.endswith("unweighted"))
            v = None
            if col.startswith("chosen but"): v = C(k, ww, True) if av is not None else None
            elif col.startswith("chosen"): v = None if ch is None else C(k, ww)
            elif col.startswith("available"): v = None if av is None else A(k, ww)
            got = row[col]
            if v is None:
                rec.expect(got is None or got != got, f"summary:{col}", lambda: f"{msg}: {k} {col} is {got}")
            else:
                rec.expect(abs(float(got) - v) < 1e-12, f"summary:{col}", lambda: f"{msg}: {col} of {k} is {got}, expected {v}\n{s}")
    if ch is not None and av is not None:
        need = av is not None and any(C(a, False, True) for a in alts)
        rec.expect(bool(need) == any(c.startswith("chosen but") for c in s.columns) or (g is not None), "summary-columns", lambda: f"{msg}: {list(s.columns)}")
        for col in s.columns:
            if col.startswith("chosen") and not col.startswith("chosen but"):
                ww = col.endswith(" weighted") or (w and not col.endswith("unweighted"))
                want = sum(C(a, ww) for a in alts)
                got = s.loc["< Total All Alternatives >", col]
                rec.expect(abs(float(got) - want) < 1e-12, f"summary-total:{col}", lambda: f"{msg}: total {col} is {got}, expected {want}\n{s}")
    r = R(cs, alts, co=None, ch=ch, av=None if av is None else {k: float(v) for k, v in av.items()}, wt=None if w is None else {c: [v] for c, v in w.items()})
    got = dict(ch=wide(d.data_ch), av=wide(d.data_av), wt=rows_of(d.data_wt))
    for k, v in got.items():
        rec.expect(same(v, getattr(r, k)), f"summary-changes:{k}", lambda: f"{msg}: the summary changed {k} to {v}")
    rec.trace()


def _anc(g, x):
    out, todo = set(), [x]
    while todo:
        for p in g.predecessors(todo.pop()):
            if p not in out:
                out.add(p); todo.append(p)
    return out


def main():
    n = 3 if T else 2
    cs = CASES[:n]
    pats = [p for k in range(n, 3 * n + 1) for p in itertools.combinations(range(3 * n), k) if len({i // 3 for i in p}) == n]
    tasks = []
    for p in pats:
        for fmt in ("ca", "ce", "co"):
            for o in (("as", "rev", "alt") if fmt == "ce" else ("as",)):
                for chf, avf, wtf in itertools.product(CHF, AVF, WTF):
                    if fmt == "co" and "column" in (chf, avf, wtf) or fmt == "ce" and avf in ("column", "true") or chf == "as_ce" and fmt != "ce": continue
                    if fmt == "ce" and avf not in ("none", "wide") and o != "as": continue
                    if wtf == "column" and fmt == "ce" and o != "as": continue
                    if (fmt == "ce" or "sparse" in (chf, avf)) and {i % 3 for i in p} != {0, 1, 2}: continue    # (an alternative that appears nowhere is refused)
                    if not T and [chf != "wide", avf not in ("wide", "none"), wtf != "series"].count(True) > 1 and len(p) != 4: continue
                    tasks.append((fmt, cs, p, o, chf, avf, wtf))
    CK.section("build", tasks, build)
    nm = []
    for p in pats:
        if {i % 3 for i in p} != {0, 1, 2}: continue
        for fmt in ("ca", "ce"):
            k = 3 * n if fmt == "ca" else len(p)
            if fmt == "ca" and p != pats[-1]: continue
            perms = list(itertools.permutations(range(k))) if k <= (6 if T else 4) else [None, tuple(range(k))[::-1]]
            for perm, chf, ct, at in itertools.product(perms, ("column", "as_ce"), ("int64", "float64", "str", "int32"), ("name", "int", "str", "float")):
                if fmt == "ca" and chf == "as_ce": continue
                if not T and [chf != "column", ct != "int64", at != "name"].count(True) > 1 and (len(p) > 3 or fmt == "ca"): continue
                nm.append((fmt, cs, p, perm, chf, ct, at))
    CK.section("named", nm, named)
    depth = 4 if T else 3
    names = list(OPS)
    hist = [(b, h) for b in BASES for k in range(1, depth + 1) for h in itertools.product(names, repeat=k)
            if T and k < 4 or k < 3 or b in ("ca", "ce-embedded") or T and b == "ce-embedded"]
    CK.section("histories", hist, history)
    bits = lambda k: list(itertools.product((0, 1), repeat=k))
    sm = [(2, ALTS[:2], c, a, w, g) for c in [None] + bits(4) for a in [None] + bits(4) for w in (False, True) for g in (None, 0, 1) if c or a]
    sm += [(3, ALTS, c, a, w, g) for c in bits(9) if all(sum(c[i * 3:i * 3 + 3]) == 1 for i in range(3)) for a in (bits(9) if T else bits(9)[::37]) for w in (False, True) for g in (None, 1, 2)]
    CK.section("summary", sm, summary)
    CK.finish()


main()
