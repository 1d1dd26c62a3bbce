"""C15: the doctor reports exactly the bad cases, repairs them as documented and changes nothing else."""
import itertools, math, warnings, copy
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
import larch
import vk.fast, larch.numba
from larch import P, X
from larch.model.model_group import ModelGroup
from larch import troubleshooting as ts
from vk.harness import Check

CK = Check("C15", "model_checking",
           assumptions=["negative weights and infinite values are outside", "a weight of zero everywhere cannot be scaled, and is left zero"],
           bounds=dict(single="every availability, choice (none, either, both) and weight (0, 1, 2, NaN, or no weights) pattern of 2 cases by 2 alternatives x every check and repair mode x three memory layouts",
                       pairs="every ordered pair of repairs, and the complete doctor with every combination of repairs, over a set of patterns of 3 cases by 3 alternatives, for containers, models of both engines and groups",
                       absent="every subset of missing components"))
T = CK.thorough
NAN = float("nan")
ALTS = (5, 9, 20)


class S:
    """plain reference: tables by case position"""
    def __init__(self, av, ch, wt=None, co=None, q=None, norm=1.):
        self.av, self.ch, self.wt, self.co, self.q, self.norm = [list(r) for r in av] if av else av, [list(map(float, r)) for r in ch] if ch else ch, list(map(float, wt)) if wt else wt, [list(map(float, r)) for r in co] if co else co, q, norm
    def copy(self): return copy.deepcopy(self)
    @property
    def n(self): return len(self.av or self.ch or self.wt or self.co)

    # each returns the diagnosis as {label: (n, positions)} or None, and repairs in place
    def by_alt(self, bad):
        out = {a: [c for c in range(self.n) if (c, j) in bad] for j, a in enumerate(ALTS[:len(self.ch[0])])}
        out = {a: (len(v), v) for a, v in out.items() if v}
        return out or None
    def ch_av(self, repair=None):
        if not self.av or not self.ch: return None
        bad = {(c, j) for c in range(self.n) for j in range(len(self.av[0])) if not self.av[c][j] and self.ch[c][j] > 0}
        d = self.by_alt(bad)
        for c, j in bad:
            if repair == "+": self.av[c][j] = 1
            if repair == "-": self.ch[c][j] = 0.
        return d
    def ch_zq(self, repair=None):
        if not self.q: return None
        bad = {(c, j) for c in range(self.n) for j in range(len(self.av[0])) if self.av[c][j] and self.q[c][j] == 0 and self.ch[c][j] > 0}
        d = self.by_alt(bad)
        if repair == "-":
            for c, j in bad: self.ch[c][j] = 0.
        return d
    def noch(self, repair=None):
        if self.wt is None or not self.ch: return None
        bad = [c for c in range(self.n) if sum(self.ch[c]) == 0 and self.wt[c] > 0]
        if not bad: return None
        if repair:
            for c in bad: self.wt[c] = 0.
        if repair == "*": self.autoscale()
        return {"nothing_chosen_some_weight": (len(bad), bad)}
    def autoscale(self):
        if any(abs(sum(r) - 1) > 1e-8 for r in self.ch):
            for c, r in enumerate(self.ch):
                t = sum(r)
                if t: self.ch[c] = [x / t for x in r]
                self.wt[c] *= t
        total = sum(w for w in self.wt if w == w)
        if total:
            k = total / self.n
            self.wt = [w / k for w in self.wt]; self.norm *= k
    def nan_wt(self, repair=None):
        if self.wt is None: return None
        bad = [c for c in range(self.n) if self.wt[c] != self.wt[c]]
        if repair: self.wt = [0. if w != w else w for w in self.wt]
        return {"nan_weight": (len(bad), bad)} if bad else None
    def nan_co(self, repair=None):
        if not self.co: return None
        k = [sum(r[v] != r[v] for r in self.co) for v in range(len(self.co[0]))]
        if repair: self.co = [[0. if x != x else x for x in r] for r in self.co]
        return {f"v{i}": x for i, x in enumerate(k) if x} or None
    def low(self):
        if not self.co: return None
        out = []
        for v in range(len(self.co[0])):
            x = [r[v] for r in self.co if r[v] == r[v]]
            if len(x) > 1 and np.var(x, ddof=1) < 1e-3: out.append(f"v{v}")
        return out or None


def build(s, layout="one", fmt="ca"):
    """the real container. layout: one block of memory, one block per column, or column-major"""
    ix = pd.Index(range(101, 101 + s.n), name="cid")
    def frame(rows, cols, dt):
        if rows is None: return None
        a = np.array(rows, dtype=dt)
        if layout == "split":
            f = pd.DataFrame(index=ix)
            for j, c in enumerate(cols): f[c] = a[:, j].copy()
            return f
        return pd.DataFrame(np.asfortranarray(a) if layout == "fortran" else a, index=ix, columns=list(cols))
    na = len((s.av or s.ch or [ALTS])[0])
    av, ch = frame(s.av, ALTS[:na], np.int8), frame(s.ch, ALTS[:na], float)
    wt = frame([[w] for w in s.wt], ["wt"], float) if s.wt else None
    co = frame(s.co, [f"v{i}" for i in range(len(s.co[0]))], float) if s.co else None
    ca = None
    if s.q or not s.co:
        q = s.q or [[1.] * na] * s.n
        mi = pd.MultiIndex.from_product([ix, ALTS[:na]], names=["cid", "aid"])
        ca = frame2 = pd.DataFrame({"q": [float(x) for r in q for x in r], "x": [.25 * (i % 5) for i in range(s.n * na)]}, index=mi)
    return larch.DataFrames(co=co, ca=ca, av=av, ch=ch, wt=wt, alt_codes=ALTS[:na] if (av is not None or ch is not None) else None, computational=True)


def same(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True) or np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-12, atol=1e-12, equal_nan=True)


def agree(d, s, rec, key, msg):
    """the container holds what the reference holds, in its tables and in the arrays that are computed from"""
    ok = True
    def bad(what, got, want):
        nonlocal ok; ok = False
        rec.violation(f"{key}:{what}", f"{msg}: {what} is\n{got}\nexpected {want}")
    n = s.n
    if s.av is not None:
        if not same(d.data_av, s.av): bad("av", d.data_av, s.av)
        elif not same(d.array_av(), s.av): bad("av-array", d.array_av(), s.av)
    if s.ch is not None:
        if not same(d.data_ch, s.ch): bad("ch", d.data_ch, s.ch)
    if s.wt is not None:
        if not same(d.data_wt.values.ravel(), s.wt): bad("wt", d.data_wt, s.wt)
        tot = sum(w for w in s.wt if w == w) * s.norm
        if not same(d.total_weight(), tot): bad("wt-total", d.total_weight(), tot)
        if not same(d.weight_normalization, s.norm): bad("norm", d.weight_normalization, s.norm)
    elif d.data_wt is not None: bad("wt", d.data_wt, None)
    if s.co is not None and not same(d.data_co, s.co): bad("co", d.data_co, s.co)
    if list(d.caseindex) != list(range(101, 101 + n)): bad("cases", d.caseindex, n)
    rec.step()
    return ok


def judge(got, want, verbose, rec, key, msg):
    """a diagnosis table against {label: (n, positions)}"""
    rec.step()
    if want is None or got is None:
        if not (want is None and got is None): rec.violation(f"{key}:{'missed' if got is None else 'false'}", f"{msg}: diagnosis is\n{got}\nexpected {want}")
        return
    g = {i: (int(r["n"]), r["example rows"]) for i, r in got.iterrows()}
    w = {k: (n, ", ".join(map(str, pos[:verbose]))) for k, (n, pos) in want.items()}
    if g != w: rec.violation(f"{key}:table", f"{msg}: diagnosis is {g}, expected {w}")


def apply(op, d, s, rec, key, msg, verbose=3):
    """one check with one repair mode on both sides"""
    name, rep = op
    if name == "ch_av": x = ts.chosen_but_not_available(d, repair=rep, verbose=verbose); judge(x[1], s.ch_av(rep), verbose, rec, key, msg)
    elif name == "noch": x = ts.nothing_chosen_but_nonzero_weight(d, repair=rep, verbose=verbose); judge(x[1], s.noch(rep), verbose, rec, key, msg)
    elif name == "nan_wt": x = ts.nan_weight(d, repair=rep, verbose=verbose); judge(x[1], s.nan_wt(rep), verbose, rec, key, msg)
    elif name == "ch_zq": x = ts.chosen_but_zero_quantity(d, repair=rep, verbose=verbose); judge(x[1], s.ch_zq(rep), verbose, rec, key, msg)
    elif name == "nan_co":
        x = ts.nan_data_co(d, repair=rep, verbose=verbose); w = s.nan_co(rep)
        g = None if x[1] is None else {k: int(v) for k, v in x[1].iloc[:, 0].items()}
        if w is not None: w = dict(list(w.items())[:verbose])
        if g != w: rec.violation(f"{key}:table", f"{msg}: diagnosis is {g}, expected {w}")
    elif name == "low":
        x = ts.low_variance_data_co(d, verbose=verbose); w = s.low()
        g = None if x[1] is None else (int(x[1].loc["low_variance_co", "n"]), x[1].loc["low_variance_co", "example cols"])
        if g != (None if w is None else (len(w), ", ".join(w[:verbose]))): rec.violation(f"{key}:table", f"{msg}: diagnosis is {g}, expected {w}")
    if x[0] is not d: rec.violation(f"{key}:identity", f"{msg}: returned {type(x[0])}, not the given object")


OPS = [("ch_av", None), ("ch_av", "+"), ("ch_av", "-"), ("noch", None), ("noch", "-"), ("noch", "*"), ("nan_wt", None), ("nan_wt", True)]
CH2 = ((0, 0), (1, 0), (0, 1), (.25, .75))
WT = [None] + list(itertools.product((0., 1., 2., NAN) if T else (0., 2., NAN), repeat=2))


def attempt(rec, key, msg, f):
    try: return f()
    except Exception as e: rec.violation(f"raises:{key}:{type(e).__name__}", f"{msg}: {e!r}"); return False


# ------------------------------------------------------------ 1 every check on every small state
def single(task, rec):
    av, ch, layout = task
    for wt in WT:
        for op in OPS:
            if wt is None and op[0] != "ch_av" and op[1] is not None: continue
            s = S(av, ch, wt)
            msg = f"{layout}: available {av}, chosen {ch}, weights {wt}: {op}"
            key = f"{op[0]}{op[1] or ''}:{layout}"
            def go():
                d = build(s, layout)
                v = (0, 1, 3)[(sum(map(sum, av)) + OPS.index(op)) % 3]
                apply(op, d, s, rec, key, msg, v)
                if not agree(d, s, rec, key, msg): return
                apply(op, d, s, rec, key + ":again", msg + " again")          # a second time: nothing left to do
                agree(d, s, rec, key + ":again", msg + " again")
            attempt(rec, key, msg, go)
            rec.state((av, ch, wt, op)); rec.eval((task, wt, op))
    rec.trace()


AV2 = list(itertools.product(itertools.product((0, 1), repeat=2), repeat=2))
CK.section("single", [(a, c, l) for a in AV2 for c in itertools.product(CH2, repeat=2) for l in (("one", "split", "fortran") if T or sum(map(sum, a)) == 3 else ("one",))], single)


# ------------------------------------------------------------ 2 data by case
def bycase(task, rec):
    rows, layout = task
    for op in (("nan_co", None), ("nan_co", True), ("low", None)):
        for verbose in (1, 3):
            s = S(None, None, None, rows)
            msg = f"{layout}: data {rows}: {op}"
            key = f"{op[0]}{op[1] or ''}:{layout}"
            def go():
                d = build(s, layout)
                apply(op, d, s, rec, key, msg, verbose)
                if not agree(d, s, rec, key, msg): return
                apply(op, d, s, rec, key + ":again", msg + " again", verbose)
                agree(d, s, rec, key + ":again", msg + " again")
            attempt(rec, key, msg, go)
            rec.state((rows, op)); rec.eval((task, op, verbose))
    rec.trace()


VALS = (0., 1., 1.01, NAN)
CK.section("case-data", [(tuple(zip(*cols)), l) for cols in itertools.product(itertools.product(VALS, repeat=2 if not T else 3), repeat=2) for l in ("one", "split", "fortran")], bycase)


# ------------------------------------------------------------ 3 sequences, complete doctor, models and groups
STATES = []
for av in (((1, 1, 1), (0, 1, 1), (1, 0, 0)), ((0, 0, 1), (1, 1, 0), (1, 1, 1)), ((0, 0, 0), (1, 0, 1), (0, 1, 1))):
    for ch in (((1, 0, 0), (1, 0, 0), (0, 0, 0)), ((0, 1, 0), (0, 0, 0), (.25, 0, .75)), ((0, 0, 2), (0, 0, 1), (0, 1, 0))):
        for wt in (None, (1., 2., 3.), (NAN, 2., 0.), (0., NAN, 1.)):
            for q in (((1, 0, 2), (0, 1, 1), (0, 0, 0)), ((0, 2, 0), (1, 1, 0), (1, 0, 1))):
                for co in (((1., 2.), (1., NAN), (1., 0.)), ((NAN, 1.), (NAN, 1.001), (0., 1.002))):
                    STATES.append((av, ch, wt, q, co))
KIND = ("frames", "legacy", "numba-df", "group")


def model(s, d, kind):
    m = larch.Model() if kind != "numba-df" else larch.numba.Model()
    m.utility_ca = P.b * X.x
    m.utility_co[ALTS[1]] = P.c * X.v0
    m.quantity_ca = P.s * X.q
    if kind == "numba-df": m.choice_any = True; m.availability_any = True
    m.dataframes = d
    m.set_values(b=.4, c=-.3, s=0.)
    return m


def loglike(s):
    """reference log likelihood by case (None where it is not defined)"""
    out = 0.
    for c in range(s.n):
        w = 1. if s.wt is None else s.wt[c]
        u = {}
        for j in range(3):
            if s.av[c][j] and s.q[c][j]:
                z = s.co[c][0] if j == 1 else 0.
                if z != z: return None
                u[j] = .4 * .25 * ((c * 3 + j) % 5) + (-.3 * z if j == 1 else 0.) + math.log(s.q[c][j])
        tot = sum(math.exp(x) for x in u.values())
        if w != w: return None
        for j in range(3):
            if s.ch[c][j]:
                if j not in u: return None
                out += w * s.ch[c][j] * (u[j] - math.log(tot))
    return out * s.norm


ALLOPS = OPS + [("ch_zq", None), ("ch_zq", "-"), ("nan_co", None), ("nan_co", True), ("low", None)]


def sequence(task, rec):
    i, kind, seq = task
    av, ch, wt, q, co = STATES[i]
    s = S(av, ch, wt, co, q)
    msg = f"{kind}: available {av}, chosen {ch}, weights {wt}, quantities {q}, data {co}"
    def go():
        d = build(s, ("one", "split", "fortran")[i % 3])
        m = None
        if kind != "frames": m = model(s, d, kind)
        else: s.q = None
        for op in seq:
            if op[0] == "ch_zq" and kind == "frames": continue
            key = f"{op[0]}{op[1] or ''}:{kind}"
            apply(op, m or d, s, rec, key, msg + f" > {op}")
            dd = m.dataframes if m else d
            if not agree(dd, s, rec, key, msg + f" > {op}"): return
    attempt(rec, f"sequence:{kind}", f"{msg} > {seq}", go)
    rec.state(task); rec.eval(task); rec.trace()


pairs = list(itertools.product(ALLOPS, repeat=2))
CK.section("sequences", [(i, k, p) for i in (range(len(STATES)) if T else range(0, len(STATES), 2)) for k in ("frames", "legacy") for p in pairs if T or (i // 2 + pairs.index(p)) % 3 == (k == "frames")], sequence)


def complete(task, rec):
    i, kind, rep = task
    av, ch, wt, q, co = STATES[i]
    s = S(av, ch, wt, co, q)
    zq, cav, noch, nwt, nco = rep
    msg = f"{kind}: available {av}, chosen {ch}, weights {wt}, quantities {q}, data {co}: doctor(repair_ch_zq={zq!r}, repair_ch_av={cav!r}, repair_noch_nowt={noch!r}, repair_nan_wt={nwt!r}, repair_nan_data_co={nco!r})"
    kw = dict(repair_ch_zq=zq, repair_ch_av=cav, repair_noch_nowt=noch, repair_nan_wt=nwt, repair_nan_data_co=nco)
    def want():
        if kind == "frames": s.q = None
        w = dict(chosen_but_zero_quantity=s.ch_zq(zq), chosen_but_not_available=s.ch_av(cav), nothing_chosen_but_nonzero_weight=s.noch(noch), nan_weight=s.nan_wt(nwt), nan_data_co=s.nan_co(nco), low_variance_data_co=s.low())
        return {k: v for k, v in w.items() if v is not None}
    def go():
        d = build(s, ("one", "split", "fortran")[i % 3])
        t = None
        if kind == "frames": t = d; run = lambda: ts.doctor(d, **kw)
        elif kind == "group":
            m = model(s, d, "legacy")
            s2 = S(((1, 1, 1),) * 3, ((1, 0, 0),) * 3, (1., 1., 1.), ((1., 2.), (5., 8.), (3., 1.)), ((1, 1, 1),) * 3)
            m2 = model(s2, build(s2), "legacy")
            g = ModelGroup([m, m2]); t = m
            def run():
                r = g.doctor(**kw)
                if len(r) != 2 or r[0][0] is not m or r[1][0] is not m2 or len(r[1][1]): rec.violation("group", f"{msg}: {r}")
                return r[0]
        else:
            m = t = model(s, d, kind); run = lambda: m.doctor(**kw)
        if kind in ("legacy", "group") : attempt_ll(t, s, rec, kind, msg + " before")
        for again in ("", ":again"):
            key = f"doctor:{kind}{again}"
            w = want()
            x, problems = run()
            if x is not t: rec.violation(f"{key}:identity", f"{msg}: returned {x}")
            if set(problems) != set(w): rec.violation(f"{key}:problems", f"{msg}{again}: reported {sorted(problems)}, there are {sorted(w)}"); return
            for k in w:
                if k in ("nan_data_co", "low_variance_data_co"): continue
                judge(problems[k], w[k], 3, rec, f"{key}:{k}", msg + again)
            if not agree(x if kind == "frames" else x.dataframes, s, rec, key, msg + again): return
        if kind != "frames": attempt_ll(t, s, rec, kind, msg)
    def attempt_ll(m, s, rec, kind, msg):
        want = loglike(s)
        if want is None: return
        x = m.loglike()
        if not np.isclose(x, want, rtol=1e-9, atol=1e-10): rec.violation(f"loglike:{kind}", f"{msg}: log likelihood {x}, of the repaired data {want}")
        rec.step()
        rec.outcome((kind, round(want, 6)))
    attempt(rec, f"doctor:{kind}", msg, go)
    rec.state(task); rec.eval(task); rec.trace()


REP = list(itertools.product((None, "-"), (None, "+", "-"), (None, "-", "*"), (None, True), (None, True)))
CK.section("doctor", [(i, k, r) for i in range(len(STATES)) for k in ("frames", "legacy", "group") for n, r in enumerate(REP) if T or (n + i) % (7 if k == "group" else 5) == 0]
           + [(i, "numba-df", r) for i in range(0, len(STATES), 1 if T else 6) for n, r in enumerate(REP) if T or (n + i // 6) % 4 == 0], complete)


# ------------------------------------------------------------ 4 absent components
def absent(task, rec):
    has, rep = task
    A, C, W, O = has
    s = S(((1, 0), (1, 1)) if A else None, ((0, 1), (0, 0)) if C else None, (NAN, 2.) if W else None, ((1., NAN), (1., 2.)) if O else None)
    msg = f"components av={A} ch={C} wt={W} co={O}: doctor with {rep}"
    kw = dict(repair_ch_av=rep[0], repair_noch_nowt=rep[1], repair_nan_wt=rep[2], repair_nan_data_co=rep[2])
    def go():
        d = build(s)
        for again in ("", " again"):
            w = dict(chosen_but_not_available=s.ch_av(rep[0]), nothing_chosen_but_nonzero_weight=s.noch(rep[1]), nan_weight=s.nan_wt(rep[2]), nan_data_co=s.nan_co(rep[2]), low_variance_data_co=s.low())
            x, problems = ts.doctor(d, **kw)
            want = {k for k, v in w.items() if v is not None}
            if set(problems) != want: rec.violation("absent:problems", f"{msg}{again}: {sorted(problems)}, there are {sorted(want)}"); return
            if not agree(d, s, rec, "absent", msg + again): return
    attempt(rec, f"absent:av={A}:ch={C}", msg, go)
    rec.state(task); rec.eval(task); rec.trace()


CK.section("absent", [(h, r) for h in itertools.product((0, 1), repeat=4) if sum(h) for r in itertools.product((None, "+", "-"), (None, "-", "*"), (None, True))], absent)
CK.finish()
