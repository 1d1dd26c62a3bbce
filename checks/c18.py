"""C18: reported statistics equal their definitions, and asking for them disturbs nothing."""
import itertools, warnings, re
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
import larch
import vk.fast, larch.numba
from larch import P, X
from larch.model.model_group import ModelGroup
from larch.model.latentclass import LatentClassModel
from larch.model.constraints import RatioBound, OrderingBound, FixedBound
from vk.harness import Check
from vk.choice import Spec, close, _lin
from vk import specs

CK = Check("C18", "model_checking",
           assumptions=["second derivatives are finite differences of step 1.5e-8, compared to 1e-5", "nearly singular Hessians (smallest eigenvalue below 2e-3) are judged only for the warning they must give",
                        "statistics with no model and with constants only are not offered over Datasets (refused)", "statistics kept in the parameter table are as of the request that computed them"],
           bounds=dict(covariance="engines x structures (MNL, size, nested, groups, latent classes) x every subset of up to 3 parameters held fast x 9 sets of binding and slack constraints and bounds x weights",
                       references="engines x structures x weights x availability/choice patterns x held and null values, through every order of the reference statistics",
                       histories="every ordered pair of 27 reports and edits, and report-edit-report triples (thorough: all triples of both engines)"))
T = CK.thorough
ENG = ("legacy", "numba", "numba-df")
R0 = [0, 3, 4, 7, 8, 9, 12, 14, 15, 17, 1, 5, 9, 12, 6, 10, 2, 11]
R1 = [3, 6, 8, 12, 13, 16, 17, 1, 10, 14]


def spec(struct, nests=(), weights="none", rows=0, values="gen", hold=()):
    av, ch = specs.all_cases(3, empty=False)
    ix = (R0, R1)[rows]
    if struct == "over":    # a constant in every alternative: not identified
        s = specs.make("mix", nests=nests, weights=weights, rows=([av[i] for i in ix], [ch[i] for i in ix]), values=values, holdfast=hold)
        s.co = {1: [("a1", "1", 1)], **s.co}
        s.values = {**s.values, "a1": .2}
        if "a1" in hold: s.holdfast.add("a1")
        return s
    s = specs.make(struct, nests=nests, weights=weights, rows=([av[i] for i in ix], [ch[i] for i in ix]), values=values, holdfast=hold)
    if rows: s.cax = {k: v * 1.1 + .05 for k, v in s.cax.items()}
    if struct == "mix" and "hh" not in s.cox and "inc" in s.cox: s.cox["hh"] = np.asarray([specs.HH[i % 5] for i in range(s.n)])
    return s


def build(s, eng):
    if eng == "legacy": return s.legacy_model()
    if eng == "numba": return s.numba_model("ca")
    return s.legacy_model(cls=larch.numba.Model)


def derivs(parts, val, hold=()):
    """ll, gradient, Hessian, BHHH summed over the members, by name"""
    names = list(val)
    k = len(names); pos = {p: i for i, p in enumerate(names)}
    ll, g, B, H = 0., np.zeros(k), np.zeros((k, k)), np.zeros((k, k))
    for s in parts:
        s.holdfast = set(hold)
        v = {p: val[p] for p in s.values}
        ix = [pos[p] for p in v]
        r = s.evaluate(v)
        ll += r["ll"].sum(); g[ix] += r["g"].sum(0); B[np.ix_(ix, ix)] += r["bhhh"].sum(0)
        h = 1e-5
        for i, p in enumerate(v):
            if p in hold: continue
            a, b = s.evaluate({**v, p: v[p] + h})["g"].sum(0), s.evaluate({**v, p: v[p] - h})["g"].sum(0)
            H[pos[p], ix] += (a - b) / (2 * h)
    return ll, g, (H + H.T) / 2, B


def table(m):
    return m.pf[["value", "initvalue", "nullvalue", "minimum", "maximum", "holdfast"]].copy()


def undisturbed(m, before, rec, key, msg):
    after = table(m)
    if list(after.index) == list(before.index) and all(after[c].equals(before[c]) for c in before if c != "value"):
        d = (after.value - before.value)[after.value != before.value]
        if len(d) == 1 and 0 < abs(d.iloc[0]) < 1.6e-8:      # one difference step, see known findings; judged on from the values as they should be
            rec.violation("step-left", f"{msg}: {d.index[0]} was {before.value[d.index[0]]!r} and became {after.value[d.index[0]]!r}")
            m.set_values(before.value.to_dict())
            return True
    if list(after.index) != list(before.index) or not all(((after[c] == before[c]) | (after[c].isna() & before[c].isna())).all() for c in before):
        rec.violation(f"disturbed:{key}", f"{msg}: the parameter table was\n{before}\nand became\n{after}")
        return False
    return True


def nullval(m_or_names, hold, val):
    return {p: (val[p] if p in hold else 1. if p.startswith("mu") or p == "theta" else 0.) for p in val}


def reduce(S, rows):
    """covariance under the binding constraints: project onto the null space of their gradients (within the free parameters)"""
    A = np.asarray([r for r in rows], float)
    if not len(A): return S
    return S - S @ A.T @ np.linalg.pinv(A @ S @ A.T) @ A @ S


def check_covariance(m, val, hold, parts, grads, rec, tag, msg, like=True, bhhh=True, H=None):
    """judge what calculate_parameter_covariance left in the model. grads: gradients (dicts) of binding constraints"""
    names = list(m.pf.index)
    bad = lambda what, got, want: rec.violation(f"{what}:{tag}", f"{msg}\n{what} reported\n{got}\nby definition\n{want}")
    if set(names) != set(val): return bad("parameters", names, list(val))
    val = {p: val[p] for p in names}
    ll, g, H, B = derivs(parts, val, hold)
    free = [i for i, p in enumerate(names) if p not in hold]
    if not free:
        if np.nanmax(np.abs(np.asarray(m.covariance_matrix))) > 0: bad("covariance", m.covariance_matrix, "nothing is free")
        return "none free"
    eig = np.linalg.eigvalsh(-H[np.ix_(free, free)])
    small = np.abs(eig).min()
    over = m.possible_overspecification
    rec.step()
    if small < 5e-4 and not over: bad("overspecification", over, f"eigenvalues {eig}")
    if small > 2e-3 and over: bad("overspecification", over, f"eigenvalues {eig}")
    if small < 2e-3: return "singular"
    S = np.zeros_like(H); S[np.ix_(free, free)] = np.linalg.inv(-H[np.ix_(free, free)])
    R = S @ B @ S
    A = [[gr.get(p, 0.) if p not in hold else 0. for p in names] for gr in grads]
    C = reduce(S, A)
    scale = 1e-5 * max(1, np.abs(S).max()) * max(1, 1 / small)
    def near(a, b, tol=1.): return np.allclose(np.asarray(a, float), b, rtol=1e-4 * tol, atol=scale * tol)
    got = m.covariance_matrix
    if list(got.index) != names or list(got.columns) != names: return bad("labels", got, names)
    if not near(got, C): bad("covariance", got, pd.DataFrame(C, names, names))
    rob = m.robust_covariance_matrix
    if bhhh:
        if not near(rob, R, 10 * max(1, np.abs(R).max())): bad("robust-covariance", rob, pd.DataFrame(R, names, names))
    elif rob is not None and not np.isnan(np.asarray(rob)[np.ix_(free, free)]).all(): bad("robust-covariance", rob, "not available")
    pf = m.pf
    nul = dict(pf.nullvalue)
    for p in names:
        i = names.index(p)
        se, t = pf.loc[p, "std_err"], pf.loc[p, "t_stat"]
        rec.step()
        if p in hold:
            if not (se == 0 or np.isnan(se)): bad("held-std-err", se, 0)
            continue
        v = C[i, i]
        if v < -10 * scale:
            if not np.isnan(se): bad("std-err", f"{p}: {se}", f"variance {v}")
        elif v > 10 * scale + 1e-3:
            if not np.isclose(se, np.sqrt(v), rtol=1e-3, atol=np.sqrt(scale)): bad("std-err", f"{p}: {se}", np.sqrt(v))
            if not np.isclose(t, (val[p] - nul[p]) / se, rtol=1e-6, atol=1e-9): bad("t-stat", f"{p}: {t}", (val[p] - nul[p]) / se)
        elif not (np.isnan(se) or se < np.sqrt(20 * scale + 2e-3)): bad("std-err", f"{p}: {se}", np.sqrt(abs(v)))
        if grads and "unconstrained_std_err" in pf:
            ue, ut = pf.loc[p, "unconstrained_std_err"], pf.loc[p, "unconstrained_t_stat"]
            u = S[i, i]
            if u > 10 * scale + 1e-3 and not (np.isclose(ue, np.sqrt(u), rtol=1e-3) and np.isclose(ut, (val[p] - nul[p]) / ue)): bad("unconstrained-std-err", f"{p}: {ue} {ut}", np.sqrt(u))
        re_, rt = pf.loc[p, "robust_std_err"], pf.loc[p, "robust_t_stat"]
        if bhhh and R[i, i] > 1e-3:
            if not (np.isclose(re_, np.sqrt(R[i, i]), rtol=2e-3) and np.isclose(rt, (val[p] - nul[p]) / re_)): bad("robust-std-err", f"{p}: {re_} {rt}", np.sqrt(R[i, i]))
        if not bhhh and not np.isnan(re_): bad("robust-std-err", f"{p}: {re_}", "not available")
    # likelihood ratios kept in the table are current, or absent
    if "likelihood_ratio" in pf:
        for p in names:
            x = pf.loc[p, "likelihood_ratio"]
            if np.isnan(x): continue
            want = ll - sum(s.evaluate({q: ({**val, p: nul[p]})[q] for q in s.values}, grad=False)["ll"].sum() for s in parts)
            if not np.isclose(x, want, rtol=1e-8, atol=1e-6): bad("likelihood-ratio", f"{p}: {x}", want)
    if like:
        for p in names:
            if p not in hold and not np.isfinite(pf.loc[p, "t_stat"]) and ("likelihood_ratio" not in pf or np.isnan(pf.loc[p, "likelihood_ratio"])):
                bad("likelihood-ratio-missing", dict(pf.loc[p]), "no t statistic, so a likelihood ratio")
    if "constrained" in pf and not grads and not hold and any(pf["constrained"] != ""): bad("constrained-note", list(pf.constrained), "nothing binds")
    if "constrained" in pf:
        for p in names:
            note = pf.loc[p, "constrained"]
            if p in hold and note != "fixed value": bad("constrained-note", f"{p}: {note}", "fixed value")
            if p not in hold and bool(note) != any(p in gr for gr in grads): bad("constrained-note", f"{p}: {note!r}", f"binding {grads}")
    rec.outcome((tag, round(float(np.nansum(np.abs(C))), 3)))
    return "ok"


# ------------------------------------------------------------------ 1 covariance
def constrain(m, kind, val):
    """apply constraint set; returns list of gradients of those that bind"""
    if kind == "none": return []
    if kind == "ratio":         # b1 <= (b1/b2 now) * b2 : binding
        m.set_value("b2", maximum=0); r = val["b1"] / val["b2"]
        m.constraints = [RatioBound("b1", "b2", max_ratio=r)]
        return [{"b1": 1., "b2": -r}]
    if kind == "ratio-slack":
        m.set_value("b2", maximum=0)
        m.constraints = [RatioBound("b1", "b2", max_ratio=val["b1"] / val["b2"] + 9.)]
        return []
    if kind == "order":         # a3 <= a2, slack
        m.constraints = [OrderingBound("a3", "a2")]
        return []
    if kind == "order-equal":
        m.set_value("a3", val["a2"]); val["a3"] = val["a2"]
        m.constraints = [OrderingBound("a3", "a2")]
        return [{"a2": 1., "a3": -1.}]
    if kind == "bound":
        m.set_value("b1", minimum=val["b1"])
        return [{"b1": 1.}]
    if kind == "bound-slack":
        m.set_value("b1", minimum=val["b1"] - 1, maximum=val["b1"] + 1)
        return []
    if kind == "fixed":
        m.constraints = [FixedBound("a2", maximum=val["a2"])]
        return [{"a2": 1.}]
    if kind == "two":
        m.set_value("a3", val["a2"]); val["a3"] = val["a2"]
        m.set_value("b1", maximum=val["b1"])
        m.constraints = [OrderingBound("a3", "a2")]
        return [{"a2": 1., "a3": -1.}, {"b1": 1.}]
    raise ValueError(kind)


CONS = ["none", "ratio", "ratio-slack", "order", "order-equal", "bound", "bound-slack", "fixed", "two"]


def covariance(task, rec):
    eng, struct, nests, wt, hold, con = task
    s = spec(struct, nests, wt, hold=hold)
    if nests: s.values = {**s.values, **{c[1]: .8 for c in s.nests}}
    m = build(s, eng)
    val = dict(s.values)
    msg = repr(task)
    grads = constrain(m, con, val)
    grads = [g for g in grads if not set(g) <= set(hold)]
    # bounds are not constraints for parameters held fast; explicit ones are
    before = table(m)
    m.calculate_parameter_covariance(preserve_hessian=True)
    if not undisturbed(m, before, rec, f"covariance:{eng}", msg): return
    st = check_covariance(m, val, hold, [s], grads, rec, f"{eng}:{con}", msg)
    rec.count(st or "ok")
    rec.state(task); rec.eval(task); rec.trace()
    if not close(m.loglike(), s.evaluate({p: val[p] for p in s.values}, grad=False)["ll"].sum(), rtol=1e-9): rec.violation(f"later:{eng}", f"{msg}: log likelihood differs afterwards")
    if con == "none" and not hold and not nests:
        H = derivs([s], {p: val[p] for p in m.pf.index}, hold)[2]
        if not np.allclose(np.asarray(m.hessian_matrix), -H, rtol=1e-4, atol=1e-4 * max(1, np.abs(H).max())): rec.violation(f"hessian:{eng}", f"{msg}: {m.hessian_matrix}, {-H}")
    # dropping the constraints again: nothing of the first report may survive in the second
    if con not in ("none",):
        m.constraints = []
        for p in val: m.set_value(p, minimum=-np.inf, maximum=np.inf) if not p.startswith("mu") else None
        if hold: m.set_value(hold[0], holdfast=0)
        m.calculate_parameter_covariance()
        check_covariance(m, val, hold[1:], [s], [], rec, f"{eng}:again", msg + " then without constraints")


KIND = [("mix", ()), ("mix", ((101, (1, 2)),)), ("qs", ()), ("shared", ()), ("ca", ()), ("over", ()), ("qs", ((101, (2, 3)),))]
tasks = []
for eng in ENG:
    for st, ne in KIND:
        names = list(spec(st, ne).values)
        for n in range(0, 4 if T else 3):
            for hold in itertools.combinations(names, n):
                if n == 3 and len(names) > 5: continue
                for con in CONS if st == "mix" and not (ne and eng != "legacy" and not T) else ["none"]:
                    if con in ("order-equal", "two") and set(hold) & {"a2", "a3"}: continue
                    if con.startswith("ratio") and set(hold) & {"b1", "b2"}: continue
                    if con in ("bound", "bound-slack", "two") and "b1" in hold: continue
                    if con in ("fixed",) and "a2" in hold: continue
                    if con == "order" and set(hold) & {"a2", "a3"}: continue
                    for wt in ("none", "w") if (con in ("none", "ratio") or T) else ("w",):
                        if con != "none" and len(hold) > 1 and not T: continue
                        tasks.append((eng, st, ne, wt, hold, con))
CK.section("covariance", tasks, covariance, group=lambda t: repr(t[:3]) if t[0] == "numba" else repr(t))


# ------------------------------------------------------------------ 2 groups and latent classes
def composite(task, rec):
    kind, hold = task
    if kind.startswith("group"):
        a, b = spec("mix", weights="w", hold=hold), spec("ca" if kind != "group-nl" else "mix", nests=((101, (1, 2)),) if kind == "group-nl" else (), rows=1, hold=hold)
        if kind == "group-nl": b.values["mu1"] = .8
        parts = [a, b]
        e2 = "numba" if kind == "group-mixed" else "legacy"
        m = ModelGroup([build(a, "legacy"), build(b, e2)])
        bhhh = False
        val = {**b.values, **a.values}
    else:
        s = spec("mix", weights="w", hold=hold)
        parts = [s]
        ms = {}
        for k in (1, 2):
            q = larch.Model(); s.apply_structure(q, None, None); q.n_threads = 1; ms[k] = q
        km = larch.Model(); km.utility_co[2] = P.w
        m = LatentClassModel(km, ms)
        m.dataframes = s.dataframes()
        val = {**s.values}
        bhhh = True
    for p, v in val.items(): m.set_value(p, v, holdfast=int(p in hold))
    if kind == "latent":
        m.set_value("w", .3, holdfast=1); val["w"] = .3; hold = tuple(hold) + ("w",)
        class K(Spec):
            def __init__(s_, o): s_.__dict__.update(o.__dict__); s_.values = {**o.values, "w": .3}
        parts = [K(parts[0])]
    before = table(m)
    m.calculate_parameter_covariance()
    if undisturbed(m, before, rec, f"composite:{kind}", repr(task)):
        check_covariance(m, val, hold, parts, [], rec, kind, repr(task), bhhh=bhhh)
    rec.state(task); rec.eval(task); rec.trace()


comp = [(k, h) for k in ("group", "group-nl", "group-mixed", "latent") for n in (0, 1, 2) for h in itertools.combinations(["a2", "b1", "b2", "c2", "a3"], n)]
CK.section("composite", comp, composite, group=lambda t: t[0])


# ------------------------------------------------------------------ 3 reference log likelihoods
def nil_ll(s):
    w = np.ones(s.n) if s.wt is None else s.wt
    return sum(w[i] * s.ch[i, j] * -np.log(s.av[i].sum()) for i in range(s.n) for j in range(len(s.alts)) if s.ch[i, j])


def const_ll(s):
    """maximum over alternative constants (first alternative at zero), by Newton's method"""
    w = np.ones(s.n) if s.wt is None else s.wt
    k = len(s.alts)
    c = np.zeros(k)
    for it in range(200):
        g, H, ll = np.zeros(k), np.zeros((k, k)), 0.
        for i in range(s.n):
            e = np.exp(c) * s.av[i]; p = e / e.sum()
            tot = s.ch[i].sum() * w[i]
            g += w[i] * s.ch[i] - tot * p
            H -= tot * (np.diag(p) - np.outer(p, p))
            for j in range(k):
                if s.ch[i, j]: ll += w[i] * s.ch[i, j] * np.log(p[j])
        if np.abs(g[1:]).max() < 1e-10: break
        d = np.linalg.solve(H[1:, 1:], g[1:])
        c[1:] -= d / max(1, np.abs(d).max())
    return ll


def reference(task, rec):
    eng, struct, nests, wt, rows, hold, nulls, order = task
    s = spec(struct, nests, wt, rows, hold=hold)
    m = build(s, eng)
    val = dict(s.values)
    nv = nullval(m, hold, val)
    if nulls:
        for p in list(val)[:2]:
            m.set_value(p, nullvalue=.4)
            if p not in hold: nv[p] = .4
    before = table(m)
    msg = repr(task)
    ll = s.evaluate(val, grad=False)["ll"].sum()
    null = s.evaluate(nv, grad=False)["ll"].sum()
    free = len(val) - len(set(hold) & set(val))
    def judge(what, got, want, tol=1e-8):
        rec.step()
        if not np.isclose(got, want, rtol=tol, atol=tol): rec.violation(f"{what}:{eng}", f"{msg}: {what} is {got}, by definition {want}")
    for what in order:
        if what == "null": judge("null", m.loglike_null(), null)
        elif what == "rho-null": judge("rho-null", m.rho_sq_null(), 1 - ll / null); judge("rho-null-adj", m.rho_sq_null(adj=True), 1 - (ll - free) / null)
        elif what == "nil": judge("nil", m.loglike_nil(), nil_ll(s))
        elif what == "rho-nil": judge("rho-nil", m.rho_sq_nil(), 1 - ll / nil_ll(s)); judge("rho-nil-adj", m.rho_sq_nil(adj=True), 1 - (ll - free) / nil_ll(s))
        elif what == "constants": judge("constants", m.loglike_constants_only(), const_ll(s), 2e-4)
        elif what == "cached":
            for f, want in (("loglike_null", null),) + ((("loglike_nil", nil_ll(s)),) if eng != "numba" else ()):
                try: x = getattr(m, f)(use_cache=-1)
                except ValueError: continue
                judge(f"cached-{f}", x, want)
        elif what == "ratio":
            r = m.likelihood_ratio()
            for p in r.index:
                if p in hold: rec.expect(np.isnan(r[p]), f"ratio-held:{eng}", lambda: f"{msg}: {p}: {r[p]}")
                else: judge("ratio", r[p], ll - s.evaluate({**val, p: float(m.pf.loc[p, "nullvalue"])}, grad=False)["ll"].sum())
            r = m.likelihood_ratio(include_holdfast=True)
            for p in r.index: judge("ratio-all", r[p], ll - s.evaluate({**val, p: float(m.pf.loc[p, "nullvalue"])}, grad=False)["ll"].sum())
            p = list(val)[0]
            judge("ratio-value", m.likelihood_ratio(p, ref_value=.77), ll - s.evaluate({**val, p: .77}, grad=False)["ll"].sum())
        undisturbed(m, before, rec, f"{what}:{eng}", msg)
    judge("later", m.loglike(), ll)
    rec.state((eng, struct, nests, wt, rows, hold, nulls)); rec.eval(task); rec.trace(); rec.outcome((round(null, 6), round(nil_ll(s), 6)))


WHAT = {"legacy": ["null", "rho-null", "nil", "rho-nil", "constants", "cached", "ratio"], "numba": ["null", "rho-null", "cached", "ratio"]}
WHAT["numba-df"] = WHAT["legacy"]
tasks = []
for eng in ENG:
    for st, ne in KIND[:5] + [("co", ())]:
        for wt in ("none", "w"):
            for rows in (0, 1):
                names = list(spec(st, ne).values)
                for hold in [()] + [(p,) for p in names[:(None if T else 3)]]:
                    for nulls in (0, 1):
                        small = not hold and not nulls and st in ("mix", "ca")
                        for order in itertools.permutations(WHAT[eng], 3) if small and T else itertools.permutations(WHAT[eng], 2) if small else [WHAT[eng], WHAT[eng][::-1]]:
                            tasks.append((eng, st, ne, wt, rows, hold, nulls, tuple(order)))
CK.section("references", tasks, reference, group=lambda t: repr(t[:3]) if t[0] == "numba" else repr(t))


# ------------------------------------------------------------------ 4 histories of reports and edits
EDITS = ["set", "values", "lock", "unlock", "nullvalue", "term", "data", "data-back", "maximize", "sort"]
REPORTS = ["loglike", "loglike2", "null", "rho-null", "nil", "rho-nil", "constants", "covariance", "summary", "statistics", "ratio", "ratio-one", "d2", "check", "matrices", "neg3"]


class World:
    def __init__(w, eng):
        w.eng = eng
        w.s = spec("mix", weights="w")
        w.other = spec("mix", weights="none", rows=1)
        w.s0 = w.s
        w.m = build(w.s, eng)
        w.val = dict(w.s.values); w.hold = set(); w.nul = nullval(None, (), w.val)
        w.cov = None        # covariance by name as of its request
        w.est = None

    def use(w, base):
        s = Spec.__new__(Spec); s.__dict__.update(base.__dict__)
        s.ca, s.co = w.s.ca, w.s.co; s.values = dict(w.val); s.holdfast = set(w.hold)
        w.s = s

    def ll(w, **kw): return w.s.evaluate({p: ({**w.val, **kw})[p] for p in w.s.values}, grad=False)["ll"].sum()

    def null(w): return w.s.evaluate({p: (w.val[p] if p in w.hold else w.nul[p]) for p in w.val}, grad=False)["ll"].sum()


def rows_of(elem):
    out = {}
    for tr in elem.iter("tr"):
        t = ["".join(x.itertext()) for x in tr]
        if t: out[t[0]] = t[1:]
    return out


def history(task, rec):
    eng, seq = task
    w = World(eng); m = w.m
    msg = f"{eng} {' > '.join(seq)}"
    for pos, op in enumerate(seq):
        tag = f"{op}:{eng}"
        judge = lambda what, got, want, tol=1e-8: (rec.step(), None if np.isclose(got, want, rtol=tol, atol=tol) else rec.violation(f"{what}:{tag}", f"{msg} (at {op}): {what} is {got}, by definition {want}"))
        before = table(m); best = dict(m._get_cached_loglike_values())["best"]
        if op == "set": m.set_value("b1", .5 if w.val["b1"] != .5 else .2); w.val["b1"] = .5 if w.val["b1"] != .5 else .2
        elif op == "values":
            d = {"b2": w.val["b2"] - .1, "a2": w.val["a2"] + .15}
            d = {k: v for k, v in d.items() if k not in w.hold}
            m.set_values(d); w.val.update(d)
        elif op == "lock": m.lock_value("b1", .31); w.val["b1"] = .31; w.hold.add("b1")
        elif op == "unlock": m.set_value("b1", holdfast=0); w.hold.discard("b1")
        elif op == "nullvalue": m.set_value("a2", nullvalue=.4); w.nul["a2"] = .4
        elif op == "term":
            if "c0" in w.val: continue
            m.utility_co[1] = m.utility_co[1] + P.c0 * X.hh
            w.val["c0"] = 0.; w.nul["c0"] = 0.
            w.use(w.s)
            w.s.co = {**w.s.co, 1: [*w.s.co.get(1, []), ("c0", "hh", 1)]}
        elif op in ("data", "data-back"):
            base = w.other if op == "data" else w.s0
            w.use(base)
            if eng == "numba": m.datatree = w.s.dataset("ca"); m.weight_co_var = "wt_" if base.wt is not None else None
            else: m.dataframes = w.s.dataframes()
        elif op == "maximize":
            r = m.maximize_loglike(quiet=True, method="slsqp", maxiter=8) if not eng == "numba-df" else m.maximize_loglike(quiet=True, method="bhhh", maxiter=8)
            w.val = {p: float(m.pf.loc[p, "value"]) for p in w.val}
            w.est = float(r.loglike)
        elif op == "sort": m.pf_sort()
        # ---- reports
        elif op == "loglike": judge("loglike", m.loglike(), w.ll())
        elif op == "loglike2": judge("loglike", m.loglike2().ll, w.ll())
        elif op == "null": judge("null", m.loglike_null(), w.null())
        elif op == "rho-null": judge("rho", m.rho_sq_null(adj=True), 1 - (w.ll() - len(w.val) + len(w.hold)) / w.null())
        elif op in ("nil", "rho-nil", "constants") and eng == "numba": pass
        elif op == "nil": judge("nil", m.loglike_nil(), nil_ll(w.s))
        elif op == "rho-nil": judge("rho", m.rho_sq_nil(), 1 - w.ll() / nil_ll(w.s))
        elif op == "constants": judge("constants", m.loglike_constants_only(), const_ll(w.s), 2e-4)
        elif op == "covariance":
            m.calculate_parameter_covariance()
            st = check_covariance(m, w.val, w.hold, [w.s], [], rec, tag, msg)
            w.cov = m.covariance_matrix.copy()
        elif op == "summary":
            m.parameter_summary()
            x = rows_of(m.parameter_summary(output="xml"))
            for p, v in w.val.items():
                if p not in x: rec.violation(f"summary:{tag}", f"{msg}: no row for {p} in {x}")
                elif not np.isclose(float(x[p][0]), v, rtol=1e-3, atol=1e-12): rec.violation(f"summary:{tag}", f"{msg}: {p} shown as {x[p]}, is {v}")
            d = m.parameter_summary().data
            for p, v in w.val.items():
                if not np.isclose(float(d.loc[p, "Value"].replace("\xa0", "")), v, rtol=6e-3, atol=1e-12): rec.violation(f"summary-df:{tag}", f"{msg}: {p} shown as {d.loc[p, 'Value']}, is {v}")
        elif op == "statistics":
            x = rows_of(m.estimation_statistics())
            want = {"Number of Cases": w.s.n, "Log Likelihood at Null Parameters": w.null()}
            if "Log Likelihood with No Model" in x: want["Log Likelihood with No Model"] = nil_ll(w.s)
            if "Log Likelihood at Constants Only" in x: want["Log Likelihood at Constants Only"] = const_ll(w.s)
            if w.est is not None:
                want["Log Likelihood at Convergence"] = w.est
                want["Rho Squared w.r.t. Null Parameters"] = 1 - w.est / w.null()
                if "Rho Squared w.r.t. No Model" in x: want["Rho Squared w.r.t. No Model"] = 1 - w.est / nil_ll(w.s)
                if "Rho Squared w.r.t. Constants Only" in x: want["Rho Squared w.r.t. Constants Only"] = 1 - w.est / const_ll(w.s)
            for k, v in want.items():
                rec.step()
                if k not in x or abs(float(x[k][0]) - v) > (.0062 if "Rho" not in k else .00062): rec.violation(f"statistics:{tag}", f"{msg}: {k} is {x.get(k)}, by definition {v}")
                elif len(x[k]) > 1 and abs(float(x[k][1]) - v / w.s.n) > .0062: rec.violation(f"statistics-per-case:{tag}", f"{msg}: {k} is {x.get(k)}, by definition {v / w.s.n} per case")
        elif op == "ratio":
            r = m.likelihood_ratio()
            for p in w.val:
                if p not in w.hold: judge(f"ratio", r[p], w.ll() - w.ll(**{p: w.nul[p]}))
        elif op == "ratio-one": judge("ratio", m.likelihood_ratio("a3", ref_value=.9), w.ll() - w.ll(a3=.9))
        elif op in ("d2", "neg3"):
            names = list(m.pf.index)
            H = derivs([w.s], {p: w.val[p] for p in names}, w.hold)[2]
            if op == "d2": h = np.asarray(m.d2_loglike())
            else:
                a, b, h = m.neg_loglike3()
                judge("neg3", a, -w.ll()); h = -np.asarray(h)
            free = [i for i, p in enumerate(names) if p not in w.hold]
            if not np.allclose(h[np.ix_(free, free)], H[np.ix_(free, free)], rtol=1e-4, atol=1e-5 * max(1, np.abs(H).max())): rec.violation(f"hessian:{tag}", f"{msg}: second derivatives\n{h}\nby definition ({names})\n{H}")
        elif op == "check":
            t = m.check_d_loglike(stylize=False)
            g = derivs([w.s], {p: w.val[p] for p in m.pf.index}, w.hold)[1]
            col = [c for c in t.columns if "nalytic" in c or c == "analytic"]
            free = [p for p in m.pf.index if p not in w.hold]
            got = t[col[0]]
            if not np.allclose([got[p] for p in free], [dict(zip(m.pf.index, g))[p] for p in free], rtol=1e-6, atol=1e-7): rec.violation(f"check:{tag}", f"{msg}: {t}, {g}")
        elif op == "matrices":
            c = m.covariance_matrix
            if w.cov is None: rec.expect(c is None, f"matrices:{tag}", lambda: f"{msg}: a covariance matrix was never asked for: {c}")
            elif c is not None:
                for p in c.index:
                    for q in c.columns:
                        x = c.loc[p, q]
                        want = w.cov.loc[p, q] if p in w.cov.index and q in w.cov.index else np.nan
                        if not (np.isnan(x) or x == want): rec.violation(f"matrices:{tag}", f"{msg}: covariance of {p},{q} is {x}, was {want} when computed")
        rec.step()
        if op in REPORTS:
            if not undisturbed(m, before, rec, tag, msg): return
            b2 = m._get_cached_loglike_values()["best"]
            if b2 < best - 1e-12: rec.violation(f"best:{tag}", f"{msg}: best log likelihood was {best}, after {op} it is {b2}"); return
        b2 = m._get_cached_loglike_values()["best"]
        if np.isfinite(b2) and "best" in m.pf:
            x = w.s.evaluate({p: float(m.pf.loc[p, "best"]) for p in w.s.values}, grad=False)["ll"].sum()
            if not np.isclose(x, b2, rtol=1e-9): rec.violation(f"best-value:{tag}", f"{msg} (after {op}): best log likelihood {b2}, the best values give {x}"); return
        rec.state((eng, tuple(sorted(w.val.items())), tuple(sorted(w.hold)), w.s.n, w.cov is not None, w.est))
    x = m.loglike()
    if not np.isclose(x, w.ll(), rtol=1e-9): rec.violation(f"later:{seq[-1]}:{eng}", f"{msg}: afterwards the log likelihood is {x}, by definition {w.ll()}; values {dict(m.pf.value)}, expected {w.val}")
    rec.eval(task); rec.trace(); rec.outcome(round(float(x), 7))


hist = []
for eng in ENG:
    ops = [o for o in EDITS + REPORTS if not (eng == "numba" and o in ("nil", "rho-nil", "constants"))]
    hist += [(eng, s) for s in itertools.product(ops, repeat=2)]
    if T: hist += [(eng, s) for s in itertools.product(ops, repeat=3)]
    elif eng == "legacy": hist += [(eng, (a, b, c)) for a in ops if a in REPORTS for b in EDITS for c in ops if c in REPORTS and c not in ("loglike", "loglike2", "check", "ratio-one") and a not in ("loglike", "check", "summary", "ratio-one", "d2", "neg3", "rho-nil", "rho-null")]
# ------------------------------------------------------------------ 5 cross validation
def crossval(task, rec):
    eng, cv, method, wt = task
    av, ch = specs.all_cases(3, empty=False)
    ix = (R0 * 4)[:-3]
    s = specs.make("mix", weights=wt, rows=([av[i] for i in ix], [ch[i] for i in ix]))
    m = build(s, eng)
    ll = m.cross_validate(cv=cv, method=method)
    tot = 0.
    for f in range(cv):
        v = {p: float(m.pf.loc[p, f"cv_{f:03d}"]) for p in s.values}
        x = s.evaluate(v)
        tot += sum(x["ll"][i] for i in range(s.n) if i % cv == f)
        g = sum(x["g"][i] for i in range(s.n) if i % cv != f)
        rec.step()
        if np.abs(g).max() > 2e-2 * s.n: rec.violation(f"training:{eng}", f"{task}: fold {f}: the values {v} are not those of the training cases, gradient {g}")
    if not np.isclose(ll, tot, rtol=1e-8): rec.violation(f"crossval:{eng}", f"{task}: cross validated log likelihood {ll}, the holdout cases at the values of each fold give {tot}")
    rec.state(task); rec.eval(task); rec.trace(); rec.outcome(round(float(ll), 4))


CK.section("cross-validation", [(e, cv, k, w) for e in ENG for cv in (2, 3, 4, 5) for k in ("slsqp", "bhhh") for w in ("none", "w")], crossval, group=lambda t: t[0])

CK.section("histories", hist, history, group=lambda t: t[1][:1] if t[0] == "numba" else t)

CK.finish()
