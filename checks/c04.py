"""C04: evaluating parts of the cases - every slice, fold and pair of evaluations, both engines."""
import copy, itertools, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
import larch
import vk.fast
import larch.numba as lx
from vk.harness import Check
from vk.choice import close
from vk import specs

CK = Check("C04", "model_checking",
           assumptions=["numeric agreement to 1e-9 relative", "step >= 1 (a case range is walked forward)"],
           bounds=dict(cases="1-4 (1-6 thorough)", slices="start and stop omitted or from -n-1 to n+1, step omitted, 1, 2, 3, n+1",
                       folds="subsample 1..n+1, every fold, alone and combined with case ranges",
                       histories="every ordered pair (triple in thorough) of 20 evaluations of different parts"))
T = CK.thorough
ALL = larch.model.PERSIST_ALL
STOR = larch.model.PERSIST_ALL
AV = [[1, 1, 1], [1, 0, 1], [1, 1, 0], [0, 1, 1], [1, 1, 1], [1, 1, 1]]
CH = [[0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1], [.25, 0, .75]]
WT = [1.5, 0.5, 2.0, 0.75, 1.25, 3.0]
NESTS = {"nl": [(101, [2, 3])], "mnl": []}


def build(engine, struct, nest, n):
    s = specs.make(struct, nests=NESTS[nest], rows=(AV[:n], CH[:n]), caseids=[11, 5, 20, 8, 30, 2][:n])
    s.wt = np.asarray(WT[:n])
    if not s.cox: s.cox["zz"] = np.zeros(n)
    # cases are stored in the order of their ids in long tables
    if engine == "numba":
        m = s.numba_model("co" if struct == "co" else "ca")
        ids = list(m.dataset.coords[m.dataset.dc.CASEID].values)
    else:
        m = s.legacy_model("co" if struct == "co" else "ca", lx.Model if engine == "lxdf" else larch.Model)
        if engine.startswith("legacy"):
            m.n_threads = 3 if engine == "legacy3" else 1
        ids = list(m.dataframes.caseindex)
    r = s.evaluate()
    o = [s.caseids.index(c) for c in ids]
    pf = list(m.pf.index)
    q = [r["names"].index(p) for p in pf]
    na = len(s.alts)
    ref = dict(ll=r["ll"][o], g=r["g"][o][:, q], b=r["bhhh"][o][:, q][:, :, q], P=r["P"][o][:, :na], U=r["U"][o][:, :na],
               LS=r["U"][o][:, -1], ids=ids)
    return s, m, ref


def calls(engine, nest):
    """name -> (function(m, kwargs), expected(ref, rows))"""
    K = dict(
        loglike=(lambda m, k: m.loglike(**k), lambda r, i: r["ll"][i].sum()),
        d_loglike=(lambda m, k: np.asarray(m.d_loglike(**k)), lambda r, i: r["g"][i].sum(0)),
        loglike2=(lambda m, k: (lambda z: [z.ll, *np.asarray(z.dll)])(m.loglike2(**k)), lambda r, i: [r["ll"][i].sum(), *r["g"][i].sum(0)]),
        loglike2_bhhh=(lambda m, k: (lambda z: [z.ll, *np.asarray(z.dll), *np.asarray(z.bhhh).ravel()])(m.loglike2_bhhh(**k)),
                       lambda r, i: [r["ll"][i].sum(), *r["g"][i].sum(0), *r["b"][i].sum(0).ravel()]),
        bhhh=(lambda m, k: np.asarray(m.bhhh(**k)), lambda r, i: r["b"][i].sum(0)),
        neg_loglike=(lambda m, k: m.neg_loglike(**k), lambda r, i: -r["ll"][i].sum()),
        neg_d_loglike=(lambda m, k: np.asarray(m.neg_d_loglike(**k)), lambda r, i: -r["g"][i].sum(0)),
        neg_loglike2=(lambda m, k: (lambda z: [z[0], *np.asarray(z[1])])(m.neg_loglike2(**k)), lambda r, i: [-r["ll"][i].sum(), *-r["g"][i].sum(0)]),
        probability=(lambda m, k: np.asarray(m.probability(**k)), lambda r, i: r["P"][i]),
        probability_df=(lambda m, k: m.probability(return_dataframe=True if engine.startswith("legacy") else "idco", **k), lambda r, i: (r["P"][i], [r["ids"][j] for j in i])),
    )
    if engine.startswith("legacy"):
        na = 3
        K.pop("bhhh")      # has no case range in this engine
        K["casewise"] = (lambda m, k: m.loglike(persist=ALL, **k).ll_casewise, lambda r, i: r["ll"][i])
        K["persist_p"] = (lambda m, k: m.loglike(persist=ALL, **k).probability[:, :na], lambda r, i: r["P"][i])
        K["persist_d"] = (lambda m, k: np.asarray(m.loglike2_bhhh(persist=ALL, **k).dll_casewise), lambda r, i: r["g"][i])
        K["persist_u"] = (lambda m, k: np.asarray(m.loglike2(persist=ALL, **k).utility)[:, :na], lambda r, i: r["U"][i])
    else:
        na = 3
        K["loglike_casewise"] = (lambda m, k: np.asarray(m.loglike_casewise(**k)), lambda r, i: r["ll"][i])
        K["d_loglike_casewise"] = (lambda m, k: np.asarray(m.d_loglike_casewise(**k)), lambda r, i: r["g"][i])
        K["utility"] = (lambda m, k: np.asarray(m.utility(**k))[:, :na], lambda r, i: r["U"][i])
        K["logsums"] = (lambda m, k: np.asarray(m.logsums(**k)), lambda r, i: r["LS"][i])
    if engine == "lxdf":
        K.pop("probability_df")
    return K


NOCV = {"probability", "probability_df", "casewise", "persist_p", "persist_d", "persist_u", "utility", "logsums"}
tol = dict(rtol=1e-8, atol=1e-10)


def same(got, want):
    if isinstance(want, tuple):
        return list(got.index) == list(want[1]) and close(got.values, want[0], **tol)
    return close(got, want, **tol)


def slices(task, rec):
    engine, struct, nest, n, start = task
    s, m, ref = build(engine, struct, nest, n)
    K = calls(engine, nest)
    rec.state(("slice", task))
    for stop in [None] + list(range(-n - 1, n + 2)):
        for step in (None, 1, 2, 3, n + 1):
            kw = {k: v for k, v in (("start_case", start), ("stop_case", stop), ("step_case", step)) if v is not None}
            stp = None if (stop == -1 and engine.startswith("legacy")) else stop
            rows = list(range(n))[slice(start, stp, step)]
            rec.state(("rows", engine, struct, nest, n, tuple(rows)))
            for name, (f, want) in K.items():
                got = f(m, kw)
                rec.step()
                if not same(got, want(ref, rows)):
                    rec.violation(f"slice:{engine}:{name}", f"{name}({kw}) of {n} cases, expected rows {rows}:\n{got}\nwant {want(ref, rows)}")
            rec.trace()
            rec.outcome((engine, struct, nest, n, tuple(rows)))


def folds(task, rec):
    engine, struct, nest, n = task
    s, m, ref = build(engine, struct, nest, n)
    K = {k: v for k, v in calls(engine, nest).items() if k not in NOCV}
    rec.state(("fold", task))
    for sub in range(1, n + 2):
        for mode in ("leave_out", "keep_only", "both"):
            for fold in range(sub):
                for start, stop, step in ((None, None, None), (1, None, None), (None, None, 2), (None, n - 1, None), (1, n, 2)):
                    kw = {k: v for k, v in (("start_case", start), ("stop_case", stop), ("step_case", step)) if v is not None}
                    kw["subsample"] = sub
                    if mode == "both":
                        kw["leave_out"] = fold
                        kw["keep_only"] = (fold + 1) % sub
                        keep = lambda i: i % sub != fold and i % sub == (fold + 1) % sub
                    else:
                        kw[mode] = fold
                        keep = (lambda i: i % sub != fold) if mode == "leave_out" else (lambda i: i % sub == fold)
                    rows = [i for i in range(n)[slice(start, stop, step)] if keep(i)]
                    for name, (f, want) in K.items():
                        try:
                            got = f(m, kw)
                        except TypeError as e:
                            if "unexpected keyword" in str(e):
                                rec.count("no cross validation argument: " + name)
                                continue
                            raise
                        rec.step()
                        if not same(got, want(ref, rows)):
                            rec.violation(f"fold:{engine}:{name}", f"{name}({kw}) of {n} cases, expected rows {rows}:\n{got}\nwant {want(ref, rows)}")
                    rec.trace()
                    rec.outcome((engine, nest, n, "fold", tuple(rows)))


ENG = ("numba", "legacy", "legacy3", "lxdf")
NS = range(1, 7) if T else range(1, 5)
tasks = []
for n in NS:
    for engine in ENG:
        for struct, nest in (("mix", "nl"), ("mix", "mnl"), ("co", "nl")) + ((("qs", "nl"),) if T or n == 3 else ()):
            if struct == "co" and engine not in ("numba", "legacy") and not T: continue
            for start in [None] + list(range(-n - 1, n + 2)):
                tasks.append((engine, struct, nest, n, start))
CK.section("slices", tasks, slices, group=lambda t: (t[0], t[1]) if t[0] == "numba" and not T else (t[0], t[1], t[4]))
CK.section("folds", [(e, st, nest, n) for e in ENG for st in ("mix",) for nest in NESTS for n in NS], folds)


# -------------------------------------------------- ordered pairs / triples of evaluations
def evaluations(engine, n):
    K = calls(engine, None)
    ev = []
    kws = [({}, list(range(n))), (dict(start_case=1), list(range(1, n))), (dict(step_case=2), list(range(0, n, 2))),
           (dict(start_case=1, stop_case=2), [1])]
    for name in K:
        for kw, rows in (kws if name in ("loglike", "loglike2_bhhh", "probability") else kws[:1] + kws[2:3]):
            ev.append((name, kw, rows))
    return ev


def freeze(x):
    return x.copy(deep=True) if isinstance(x, pd.DataFrame) else np.array(x, copy=True) if isinstance(x, np.ndarray) else copy.deepcopy(x)


def histories(task, rec):
    engine, nest, first = task
    n = 4
    s, m, ref = build(engine, "mix", nest, n)
    K = calls(engine, nest)
    E = evaluations(engine, n)
    seqs = itertools.product(range(len(E)), repeat=2 if T else 1)
    for rest in seqs:
        hist = [E[first]] + [E[i] for i in rest]
        rec.state((engine, nest, first, rest))
        res = []
        for name, kw, rows in hist:
            got = K[name][0](m, kw)
            rec.step()
            if not same(got, K[name][1](ref, rows)):
                rec.violation(f"history:{engine}:{name}", f"{name}({kw}) after {hist} gives {got}, want {K[name][1](ref, rows)}")
            res.append((name, kw, got, freeze(got)))
        for name, kw, got, was in res[:-1]:
            ok = got.equals(was) if isinstance(got, pd.DataFrame) else np.array_equal(np.asarray(got, float), np.asarray(was, float), equal_nan=True)
            rec.expect(ok, f"overwritten:{engine}:{name}", lambda: f"the result of {name}({kw}) changed from {was} to {got} during {hist}")
        rec.trace()
        rec.outcome((engine, nest, tuple(h[0] for h in hist)))


def best(task, rec):
    """evaluating a part (whose log likelihood is closer to zero) must not become the remembered best"""
    engine, nest, k = task
    n = 4
    s, m, ref = build(engine, "mix", nest, n)
    K = calls(engine, nest)
    parts = [(name, kw) for name in K for kw in (dict(start_case=1, stop_case=2), dict(step_case=3), dict(leave_out=0, subsample=2), dict(keep_only=1, subsample=2))
             if not ("subsample" in kw and name in NOCV)]
    if k >= len(parts): return
    name, kw = parts[k]
    rec.state((engine, nest, name, sorted(kw.items())))
    names = [p for p in s.values if not p.startswith("mu")]
    full = m.loglike()
    b0 = dict(m.pf["best"]) if "best" in m.pf.columns else None
    v0 = {p: m.get_value(p) for p in names}
    for d in (0.75, -0.75, 1.5, -1.5, 3, -3):
        worse = {p: v0[p] + d for p in names}
        s2 = s.evaluate({**s.values, **worse}, grad=False)
        if s2["ll"].sum() < full - 0.1: break
    else:
        raise AssertionError("bounds: the second point must be worse")
    m.set_values(**worse)
    try:
        K[name][0](m, kw)
    except TypeError as e:
        if "unexpected keyword" in str(e): return
        raise
    rec.step()
    b1 = dict(m.pf["best"]) if "best" in m.pf.columns else None
    rec.expect(b1 == b0, f"best:{engine}:{name}", lambda: f"{name}({kw}) at a worse point changed the best values from {b0} to {b1}")
    m.set_values("best")
    got = {p: m.get_value(p) for p in names}
    rec.expect(got == v0, f"best-values:{engine}:{name}", lambda: f"after {name}({kw}) set_values('best') gives {got}, want {v0}")
    rec.expect(close(m.loglike(), full), f"best-ll:{engine}:{name}", lambda: f"{m.loglike()} vs {full}")
    rec.trace()


tasks = [(e, nest, i) for e in ("numba", "legacy", "legacy3", "lxdf") for nest in NESTS for i in range(len(evaluations(e, 4)))]
CK.section("histories", tasks, histories)
CK.section("best", [(e, nest, k) for e in ("numba", "legacy", "lxdf") for nest in NESTS for k in range(50)], best)
CK.finish()
