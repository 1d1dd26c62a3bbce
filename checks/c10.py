"""C10: estimation reports what it really reached, whatever the optimizer does."""
import itertools, math, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
import scipy.optimize
import vk.fast
import larch, larch.numba as lx
from larch import P, X
from larch.exceptions import BHHHSimpleStepFailure
from vk.harness import Check, Violation
from vk.choice import Spec, close
from vk import specs

CK = Check("C10", "model_checking",
           assumptions=["scipy.optimize.minimize returns one of the points it evaluated, with the value it was given there"],
           bounds=dict(scripts="all scripts of up to 3 (thorough 4) objective/slope/callback actions over 3 points, ending in success or failure at any evaluated point, or in one of 3 exceptions",
                       bhhh="every sequence of up to 3 (thorough 6) outcomes of the likelihood evaluations BHHH asks for",
                       real="11 scipy methods and BHHH, interrupted after 1-4 iterations and at convergence, 3 starts, every held-fast subset, bounds, both engines"))
T = CK.thorough
INF = math.inf
N = ["a", "b", "c"]
S0 = Spec([1, 2, 3], [], [("a", "x", 1), ("b", "y", 1)], {2: [("c", "1", 1)]}, [], None,
          {v: ([r[:3] for r in specs.X3[v]] + [[r[1], r[2] * .5, r[0] - .25] for r in specs.X3[v]])[:8] for v in "xy"}, {"inc": [1., 2., .5, 0., 3., 1., 2., 4.]},
          None, [[[1, 0, 0], [0, 1, 0], [0, 0, 1]][i] for i in (1, 0, 2, 1, 1, 0, 2, 1)], [1, 2, 1, .5, 1, 3, 1, 1.5], dict(a=0., b=0., c=0.))
S0.ch = np.asarray(S0.ch, float)
CACHE = {}


def model(engine, start=(0., 0., 0.), hold=(), bounds=None):
    if engine == "numba":
        if "ds" not in CACHE: CACHE["ds"] = S0.dataset("ca")
        m = S0.numba_model("ca", ds=CACHE["ds"])
    else:
        m = S0.legacy_model("ca")
    S0.set_params(m)
    for n, v in zip(N, start):
        m.set_value(n, v, holdfast=int(n in hold), **((bounds or {}).get(n, {})))
    m.unmangle()
    return m


def ref(v):
    """log likelihood and slopes by case, at a table of values"""
    k = tuple(v[n] for n in N)
    if k not in CACHE:
        r = S0.evaluate(dict(zip(N, k)))
        CACHE[k] = (np.asarray(r["ll"]), np.asarray(r["g"]))
    return CACHE[k]


def vals(m):
    v = dict(zip(m.pf.index, m.pf["value"].tolist()))
    return {n: v[n] for n in N}


def final_state(rec, tag, msg, m, result, start, hold, bounds, rows=None, evaluated=None, flat=False):
    """what must be true of the model and of the result after any return"""
    def bad(what, t): rec.violation(f"{what}:{tag}", f"{msg}: {t}")
    v = vals(m)
    names = list(m.pf.index)
    for n in hold:
        if v[n] != start[n]: bad("held", f"parameter {n} is held fast at {start[n]} but is now {v[n]}")
    ll, g = ref(v)
    sel = slice(None) if rows is None else rows
    want = ll[sel].sum()
    if result is not None:
        x = result.get("x")
        if x is None or list(x.index) != names: bad("x-names", f"{x}")
        elif any(x[n] != v[n] for n in N): bad("x", f"the result says {dict(x)}, the model says {v}")
        if not close(result.loglike, want, rtol=1e-9): bad("loglike", f"reported {result.loglike}, but {want} at the reported values {v}")
        if result.get("n_cases") != 8: bad("n_cases", result.get("n_cases"))
        if not close(result.logloss, -result.loglike / S0.wt.sum(), rtol=1e-9): bad("logloss", f"{result.logloss}")
        d = result.get("d_loglike")
        if d is not None:
            for n in N:
                w = 0. if n in hold else g[sel, N.index(n)].sum()
                if not close(d[n], w, rtol=1e-6, atol=1e-6): bad("d_loglike", f"reported slope {dict(d)}, but {w} for {n} at {v}")
    # best so far
    best = m._cached_loglike_best
    if np.isfinite(best):
        bv = {n: float(m.pf.loc[n, "best"]) for n in N}
        if not close(ref(bv)[0].sum(), best, rtol=1e-9): bad("best", f"best log likelihood {best}, but {ref(bv)[0].sum()} at the best values {bv}")
        for e in evaluated or []:
            if ref(e)[0].sum() > best + 1e-8: bad("best-missed", f"best {best}, but {ref(e)[0].sum()} was seen at {e}")
    elif evaluated: bad("best-missing", f"{best}")
    if not close(m.loglike(), ll.sum(), rtol=1e-9): bad("later-loglike", f"{m.loglike()} instead of {ll.sum()}")
    dl = m.d_loglike()
    for n in N:
        if not close(float(np.asarray(dl)[names.index(n)]), 0. if n in hold else g[:, N.index(n)].sum(), rtol=1e-7, atol=1e-9):
            bad("later-slope", f"{dl}, expected {g.sum(0)}")
    for n in N:
        r = m.pf.loc[n]
        b = bounds.get(n, {})
        if bool(r.holdfast) != (n in hold) or r.minimum != b.get("minimum", -INF) or r.maximum != b.get("maximum", INF):
            bad("table", f"{r}")
    return v, want


# ------------------------------------------------------------ 1 scripted optimizers
PTS = [dict(a=0., b=0., c=0.), dict(a=.5, b=-.25, c=.75), dict(a=-.5, b=.5, c=-.25)]
START = dict(a=.25, b=.25, c=0.)
HOLD = [(), ("b",), ("a", "c")]


class Stop(Exception):
    pass


class script_minimize:
    def __init__(self, script, end, names, log):
        self.script, self.end, self.names, self.log = script, end, names, log

    def __call__(self, fun, x0, args=(), method=None, jac=None, bounds=None, callback=None, options=None, constraints=(), **kw):
        self.x0, self.bounds, self.method = np.array(x0), bounds, method
        seen, slope = {}, {}
        for a, i in self.script:
            x = np.array([PTS[i][n] for n in self.names])
            if a == "f":
                seen[i] = fun(x, *args)
            elif a == "g":
                slope[i] = np.array(jac(x, *args))
            elif callback is not None:
                callback(x)
            self.log.append((a, i))
        kind, i = self.end
        if kind == "raise":
            raise [ValueError("bad"), Stop(), KeyboardInterrupt()][i]
        r = scipy.optimize.OptimizeResult(x=np.array([PTS[i][n] for n in self.names]), fun=seen[i], success=kind == "ok", status=0, message=kind, nit=len(self.script))
        if i in slope: r.jac = slope[i]
        return r


def endings(script):
    out = [("raise", i) for i in range(3)]
    for i in sorted({i for a, i in script if a == "f"}):
        out += [("ok", i), ("fail", i)]
    return out


class patched:
    def __init__(self, f): self.f = f
    def __enter__(self):
        self.keep = scipy.optimize.minimize
        scipy.optimize.minimize = self.f
    def __exit__(self, *a): scipy.optimize.minimize = self.keep


def scripts(task, rec):
    engine, hold, first, quiet = task
    key = ("m", engine, hold)
    if key not in CACHE: CACHE[key] = model(engine, hold=hold)
    m = CACHE[key]
    names = list(m.pf.index)
    acts = [(a, i) for a in "fg" for i in range(3)] + ([("c", 1)] if not quiet else [])
    for length in range(0, (4 if T else 3)):
        for rest in itertools.product(acts, repeat=length):
            sc = (first, *rest)
            if not quiet and (length > 1 or not any(a == "c" for a, i in sc)): continue
            for end in endings(sc):
                for n in N: m.pf.loc[n, "holdfast"] = 0
                m.set_values(START)
                for n in hold: m.pf.loc[n, "holdfast"] = 1
                m.set_values(START)
                m.clear_best_loglike()
                m._most_recent_estimation_result = None
                log = []
                st = script_minimize(sc, end, names, log)
                msg = f"{engine} held {hold} script {sc} end {end}"
                tag = f"script-{engine}"
                res, err = None, None
                with patched(st):
                    try:
                        res = m.maximize_loglike(method="slsqp", quiet=quiet)
                    except BaseException as e:
                        err = e
                if end[0] == "raise":
                    if not isinstance(err, (ValueError, Stop, KeyboardInterrupt)[end[1]]): rec.violation(f"swallowed:{tag}", f"{msg}: got {err!r}, {res}")
                elif err is not None:
                    rec.violation(f"raised:{tag}", f"{msg}: {err!r}")
                    continue
                held = lambda p: {n: START[n] if n in hold else p[n] for n in N}
                if any(st.x0[names.index(n)] != START[n] for n in N): rec.violation(f"x0:{tag}", f"{msg}: optimizer started from {st.x0}")
                v = vals(m)
                if end[0] != "raise":
                    if v != held(PTS[end[1]]): rec.violation(f"values:{tag}", f"{msg}: the optimizer returned {held(PTS[end[1]])}, the model has {v}")
                    if m._most_recent_estimation_result is None or any(m._most_recent_estimation_result["x"][n] != v[n] for n in N):
                        rec.violation(f"remembered:{tag}", f"{msg}: {m._most_recent_estimation_result}")
                elif v not in [START] + [held(PTS[i]) for a, i in sc]:
                    rec.violation(f"values:{tag}", f"{msg}: the model is left at {v}")
                final_state(rec, tag, msg, m, res, START, hold, {}, evaluated=[held(PTS[i]) for a, i in sc if a == "f"])
                rec.eval((task, sc, end))
                rec.step(len(sc) + 1)
                rec.trace()
                rec.outcome((end, tuple(v.values())))
                rec.state((engine, hold, tuple(v.values()), m._cached_loglike_best, err is None))


CK.section("scripts", [(e, h, (a, i), q) for e in ("numba", "legacy") for h in HOLD for q in (True, False) for a in "fg" for i in range(3)], scripts)


# ------------------------------------------------------------ 2 scripted BHHH
OUT = ["up", "same", "down", "nan"]


def bhhh(task, rec):
    engine, hold, maxiter, first = task
    m = model(engine, hold=hold)
    names = list(m.pf.index)
    free = [i for i, n in enumerate(names) if n not in hold]
    dll0 = np.array([0. if n in hold else 1. + .5 * i for i, n in enumerate(names)])
    bh0 = np.diag(np.where(dll0 == 0, 0., 1.)) * 4.
    seqs = [(first, *r) for k in range(0, (6 if T else 3)) for r in itertools.product(OUT, repeat=k)]
    for seq in seqs:
        for tail in ("down", "conv", "NI", "KI", "VE"):
            seen = []          # (values, ll, slopes)
            it = iter(seq)

            def outcome(x=None, **kw):
                o = next(it, tail)
                top = max([l for _, l, _ in seen if l == l], default=-100.)
                if o in ("NI", "KI", "VE"):
                    seen.append((vals(m), -INF, None))
                    raise {"NI": NotImplementedError, "KI": KeyboardInterrupt, "VE": ValueError}[o]()
                if len(seen) == 0: ll = -100. if o != "nan" else math.nan
                else: ll = {"up": top + 1, "conv": top + 1, "same": top, "down": top - 1 - len(seen), "nan": math.nan}[o]
                d = dll0 * (1e-6 if o == "conv" else 1.)
                seen.append((vals(m), ll, d))
                return ll, d, bh0

            if engine == "numba":
                m.loglike2_bhhh = lambda x=None, **kw: larch.util.dictx(zip(("ll", "dll", "bhhh", "penalty"), (*outcome(), 0.)))
            else:
                m._loglike2_bhhh_tuple = lambda *a, **kw: outcome()
            for n in N: m.pf.loc[n, "holdfast"] = 0
            m.set_values(START)
            for n in hold: m.pf.loc[n, "holdfast"] = 1
            m.set_values(START)
            fb = []

            def fallback(fun, x0, args=(), method=None, **kw):
                fb.append((method, np.array(x0)))
                return scipy.optimize.OptimizeResult(x=np.array(x0), fun=100., success=True, message="stub")

            res, err = None, None
            with patched(fallback):
                try:
                    res = m.maximize_loglike(method="bhhh", quiet=True, maxiter=maxiter)
                except BaseException as e:
                    err = e
            tag = f"bhhh-{engine}"
            msg = f"{engine} held {hold} maxiter {maxiter} outcomes {seq} then {tail}; seen {[(l, v) for v, l, _ in seen][:8]}"
            v = vals(m)
            # (a start whose likelihood is not a number can not be improved on)
            good = [(l, i) for i, (_, l, d) in enumerate(seen) if d is not None and l == l] if seen[0][1] == seen[0][1] else []
            top = max(good, key=lambda t: (t[0], -t[1]))[1] if good else 0
            for n in hold:
                if any(p[n] != START[n] for p, _, _ in seen): rec.violation(f"held:{tag}", msg)
            last = seen[-1]
            if last[2] is None and tail in ("KI", "VE"):
                if not isinstance(err, {"KI": KeyboardInterrupt, "VE": ValueError}[tail]): rec.violation(f"swallowed:{tag}", f"{msg}: {err!r}")
                if v not in [p for p, _, _ in seen] + [START]: rec.violation(f"values:{tag}", f"{msg}: left at {v}")
            elif err is not None:
                rec.violation(f"raised:{tag}", f"{msg}: {err!r}")
            elif fb:
                (method, x0), = fb
                w = seen[top][0]
                if method != "slsqp": rec.violation(f"fallback:{tag}", f"{msg}: {method}")
                if last[2] is not None and any(x0[names.index(n)] != w[n] for n in N):
                    rec.violation(f"fallback:{tag}", f"{msg}: BHHH gave up and the next method starts from {x0}, but {w} was the best found")
                if last[2] is None and {n: x0[names.index(n)] for n in N} not in [p for p, _, _ in seen]: rec.violation(f"fallback:{tag}", f"{msg}: {x0}")
                if any(res["x"][n] != v[n] for n in N) or res.loglike != -100.: rec.violation(f"x:{tag}", f"{msg}: {res}, model {v}")
            else:
                w, l, d = seen[top]
                if v != w: rec.violation(f"values:{tag}", f"{msg}: the best found is {w}, the model has {v}")
                if res.loglike != l: rec.violation(f"loglike:{tag}", f"{msg}: best {l}, reported {res.loglike}")
                if any(res["x"][n] != v[n] for n in N): rec.violation(f"x:{tag}", f"{msg}: {res['x']}")
                tol = float((d[free] ** 2).sum() / 4)
                if not close(float(res.tolerance), tol, rtol=1e-9, atol=1e-12): rec.violation(f"tolerance:{tag}", f"{msg}: {res.tolerance}, expected {tol}")
                if ("success" in res.message) != (tol <= 1e-5): rec.violation(f"message:{tag}", f"{msg}: {res.message!r}, tolerance {tol}")
                steps = len(res.steps)
                if tol > 1e-5 and steps != maxiter: rec.violation(f"stopped:{tag}", f"{msg}: stopped after {steps} steps of {maxiter} without converging")
                if steps > maxiter: rec.violation(f"maxiter:{tag}", f"{msg}: {steps} steps")
            rec.eval((task, seq, tail))
            rec.step(len(seen))
            rec.trace()
            rec.state((engine, hold, maxiter, [l for _, l, _ in seen]))
            rec.outcome((err is None, bool(fb), getattr(res, "message", "")))


CK.section("bhhh", [(e, h, mi, o) for e in ("numba", "legacy") for h in HOLD for mi in (100, 1, 3) for o in OUT], bhhh)



# ------------------------------------------------------------ 3 real optimizers, stopped at any point
METHODS = ["bhhh", "SLSQP", "L-BFGS-B", "trust-constr", "TNC", "Nelder-Mead", "Powell", "CG", "BFGS", "Newton-CG", "COBYLA", None]
STARTS = [dict(a=0., b=0., c=0.), dict(a=1.5, b=-1., c=.5), dict(a=-.5, b=.75, c=-1.)]
BND = [{}, dict(a=dict(minimum=-.25, maximum=.25), b=dict(minimum=-.5, maximum=.25), c=dict(minimum=-1., maximum=1.)), dict(b=dict(maximum=.1))]


def real(task, rec):
    engine, method, hold, bi = task
    bounds = BND[bi]
    m = model(engine, hold=hold, bounds=bounds)
    names = list(m.pf.index)
    for start0 in STARTS:
        start = {n: min(max(start0[n], bounds.get(n, {}).get("minimum", -INF)), bounds.get(n, {}).get("maximum", INF)) for n in N}
        for maxiter in (1, 2, 3, 5, 500) if not T else (1, 2, 3, 4, 5, 6, 8, 12, 20, 500):
            for n in N: m.pf.loc[n, "holdfast"] = 0
            m.set_values(start)
            for n in hold: m.pf.loc[n, "holdfast"] = 1
            m.set_values(start)
            m.clear_best_loglike()
            log = []
            kind = type(m)

            class Spy:
                pass
            start_ll = ref(start)[0].sum()
            tag = f"real-{engine}-{method}"
            msg = f"{engine} {method} held {hold} bounds {bounds} start {start} maxiter {maxiter}"
            if method == "TNC" and maxiter < 3: continue
            opts = {"maxfun": maxiter * 3} if method == "TNC" else None
            try:
                res = m.maximize_loglike(method=method, quiet=True, **(dict(options=opts) if opts else dict(maxiter=maxiter)))
            except Exception as e:
                rec.violation(f"raised:{tag}", f"{msg}: {e!r}")
                continue
            v, want = final_state(rec, tag, msg, m, res, start, hold, bounds)
            used = res.method.lower()
            if used != (method or ("slsqp" if bounds else "bhhh")).lower() and not (method in ("bhhh", None) and used == "bhhh|slsqp"):
                rec.violation(f"method:{tag}", f"{msg}: {res.method}")
            if used in ("bhhh", "slsqp", "l-bfgs-b", "nelder-mead", "powell", "cg", "bfgs", "newton-cg") and maxiter == 500 or used == "bhhh":
                if want < start_ll - 1e-7: rec.violation(f"worse:{tag}", f"{msg}: {want} is worse than {start_ll} at the start")
            if used in ("slsqp", "l-bfgs-b", "tnc") or used == "trust-constr" and maxiter == 500:
                for n, b in bounds.items():
                    if n not in hold and not b.get("minimum", -INF) - 1e-8 <= v[n] <= b.get("maximum", INF) + 1e-8:
                        rec.violation(f"bounds:{tag}", f"{msg}: {n} ends at {v[n]}")
            if maxiter == 500 and used in ("bhhh", "slsqp", "l-bfgs-b", "trust-constr", "bfgs", "nelder-mead", "newton-cg"):
                g = ref(v)[1].sum(0)
                for n in N:
                    if n in hold: continue
                    b = bounds.get(n, {}) if used in ("slsqp", "l-bfgs-b", "tnc", "trust-constr") else {}
                    d = g[N.index(n)]
                    at_max, at_min = v[n] > b.get("maximum", INF) - 1e-3, v[n] < b.get("minimum", -INF) + 1e-3
                    if d > .02 and not at_max or d < -.02 and not at_min:
                        rec.violation(f"optimum:{tag}", f"{msg}: stopped at {v} with slope {d} for {n}: {res.get('message')}")
            if used == "bhhh":
                n_iter = len(res.steps)
                if n_iter > maxiter: rec.violation(f"maxiter:{tag}", f"{msg}: {n_iter}")
                if ("success" in res.message) != (abs(res.tolerance) <= 1e-5) or n_iter < maxiter and "success" not in res.message:
                    rec.violation(f"message:{tag}", f"{msg}: {res.message}, tolerance {res.tolerance}")
                _, g = ref(v)
                free = [i for i, n in enumerate(N) if n not in hold]
                if free:
                    bh = S0.evaluate(dict(v))["bhhh"].sum(0)[np.ix_(free, free)]
                    tol = g.sum(0)[free] @ np.linalg.solve(bh, g.sum(0)[free])
                    if not close(float(res.tolerance), tol, rtol=1e-4, atol=1e-9): rec.violation(f"tolerance:{tag}", f"{msg}: reported {res.tolerance}, at the reported values {tol}")
            rec.eval((task, tuple(start.values()), maxiter))
            rec.trace()
            rec.step(int(res.get("nfev", 1) or 1))
            rec.state((task, [round(q, 6) for q in v.values()]))
            rec.outcome((res.method, res.get("message"), res.get("success")))


ALLHOLD = [(), ("a",), ("b",), ("c",), ("a", "b"), ("b", "c"), ("a", "c"), ("a", "b", "c")]
CK.section("real", [(e, me, h, bi) for e in ("numba", "legacy") for me in METHODS for h in (ALLHOLD if T else (ALLHOLD[0], ALLHOLD[2], ALLHOLD[6])) for bi in range(3)], real)


# ------------------------------------------------------------ 4 subsets of cases, jump starts, repeated estimation
def subsets(task, rec):
    engine, what, k = task
    m = model(engine)
    msg, tag = f"{task}", f"subset-{engine}-{what}"
    if what == "cv":
        cv, method = k
        m.loglike()
        z = m.cross_validate(cv, method=method)
        want = 0.
        for f in range(cv):
            v = dict(zip(m.pf.index, m.pf[f"cv_{f:03d}"]))
            ll, g = ref(v)
            out = [i for i in range(8) if i % cv == f]
            want += ll[out].sum()
            ing = g[[i for i in range(8) if i % cv != f]].sum(0)
            if method != "bhhh" and np.abs(ing).max() > .02: rec.violation(f"fold:{tag}", f"{msg}: fold {f} ends at {v} with slope {ing} over the other folds")
        if not close(z, want, rtol=1e-8): rec.violation(f"total:{tag}", f"{msg}: {z} but the values stored for the folds give {want}")
        b = {n: m.pf.loc[n, "best"] for n in N}
        if not close(ref(b)[0].sum(), m._cached_loglike_best, rtol=1e-9): rec.violation(f"best:{tag}", f"{msg}: best {m._cached_loglike_best} is not that of {b}")
    elif what == "part":
        kind, sub, i, method = k
        res = m.maximize_loglike(quiet=True, method=method, subsample=sub, **{kind: i})
        rows = [r for r in range(8) if (r % sub == i) == (kind == "keep_only")]
        v = vals(m)
        ll, g = ref(v)
        if not close(res.loglike, ll[rows].sum(), rtol=1e-8): rec.violation(f"loglike:{tag}", f"{msg}: {res.loglike}, expected {ll[rows].sum()}")
        if method != "bhhh" and np.abs(g[rows].sum(0)).max() > .05: rec.violation(f"optimum:{tag}", f"{msg}: slope {g[rows].sum(0)}")
        if np.isfinite(m._cached_loglike_best): rec.violation(f"best:{tag}", f"{msg}: best {m._cached_loglike_best} although the whole data was never evaluated")
    elif what == "jump":
        jump, split, maxiter, start = k
        m.set_values(start)
        res = m.maximize_loglike(quiet=True, method="bhhh", jumpstart=jump, jumpstart_split=split, maxiter=maxiter)
        final_state(rec, tag, msg, m, res, start, (), {})
    elif what == "start":
        soft, maxiter, method, hold = k
        m = model(engine, hold=hold)
        start = STARTS[1]
        for n in N: m.pf.loc[n, "holdfast"] = 0
        m.set_values(start)
        for n in hold: m.pf.loc[n, "holdfast"] = 1
        m.set_values(start)
        res = m.maximize_loglike(quiet=True, bhhh_start=soft, maxiter=maxiter, method=method)
        final_state(rec, tag, msg, m, res, start, hold, {})
        if not res.method.startswith("bhhh"): rec.violation(f"method:{tag}", f"{msg}: {res.method}")
        if getattr(m, "constraint_intensity", 0) != 0: rec.violation(f"intensity:{tag}", f"{msg}: {m.constraint_intensity}")
    elif what == "again":
        a, b, bump = k
        r1 = m.maximize_loglike(quiet=True, method=a, maxiter=3)
        best1 = m._cached_loglike_best
        if bump: m.set_values(STARTS[2])
        start = vals(m)
        o = {"maxiter": 2}
        r2 = m.maximize_loglike(quiet=True, method=b, options=o, prior_result=r1)
        if o != {"maxiter": 2}: rec.violation(f"options:{tag}", f"{msg}: {o}")
        final_state(rec, tag, msg, m, r2, start, (), {})
        if m._cached_loglike_best < best1: rec.violation(f"best:{tag}", f"{msg}: {best1} forgotten, now {m._cached_loglike_best}")
        if r2.iteration_number < r1.iteration_number: rec.violation(f"iteration:{tag}", msg)
    rec.eval(task)
    rec.state(task)
    rec.step()
    rec.trace()


SUB = [(e, "cv", (cv, me)) for e in ("numba", "legacy") for cv in (2, 3) for me in ("bhhh", "slsqp")] \
    + [(e, "part", (kind, sub, i, me)) for e in ("numba", "legacy") for kind, sub, i in (("leave_out", 2, 0), ("leave_out", 4, 3), ("leave_out", 8, 7), ("keep_only", 2, 1), ("keep_only", 2, 0)) for me in ("bhhh", "slsqp", "l-bfgs-b")] \
    + [(e, "jump", (j, sp, mi, st)) for e in ("numba", "legacy") for j in (1, 2) for sp in (1, 2, 3, 5) for mi in (1, 2, 3, 50) for st in STARTS] \
    + [(e, "start", (so, mi, me, h)) for e in ("numba", "legacy") for so in (1, 2, 5) for mi in (2, 50) for me in (None, "bhhh", "slsqp", "l-bfgs-b") for h in HOLD] \
    + [(e, "again", (a, b, bump)) for e in ("numba", "legacy") for a in METHODS[:6] for b in METHODS[:6] if "TNC" not in (a, b) for bump in (0, 1)]
CK.section("subsets", SUB, subsets)


# ------------------------------------------------------------ 5 constraints through penalties
def penal(task, rec):
    intensity, sharp, soft, maxiter, method, start, con = task
    m = model("numba", bounds=BND[1] if con == "bounds" else {})
    if con == "order": m.constraints.append(larch.model.constraints.OrderingBound("b", "a"))
    if con == "fixed": m.constraints.append(larch.model.constraints.FixedBound("a", None, .1))
    m.constraint_intensity, m.constraint_sharpness = intensity, sharp
    m.set_values(start)
    tag, msg = f"penalty-{con}", f"{task}"
    res = m.maximize_loglike(quiet=True, method=method, bhhh_start=soft, maxiter=maxiter)
    if (m.constraint_intensity, m.constraint_sharpness) != (intensity, sharp):
        rec.violation(f"restored:{tag}", f"{msg}: intensity and sharpness {m.constraint_intensity}, {m.constraint_sharpness}")
    m.constraint_intensity = 0
    v = vals(m)
    if any(res["x"][n] != v[n] for n in N): rec.violation(f"x:{tag}", f"{msg}: {res['x']}, model {v}")
    want = ref(v)[0].sum()
    if not close(m.loglike(), want, rtol=1e-9): rec.violation(f"later:{tag}", msg)
    if not intensity and not close(res.loglike, want, rtol=1e-9): rec.violation(f"loglike:{tag}", f"{msg}: reported {res.loglike}, {want} at {v}")
    if res.loglike > want + 1e-7: rec.violation(f"loglike:{tag}", f"{msg}: reported {res.loglike}, more than {want} at {v}")
    if res.get("success") or "success" in str(res.get("message")):
        bad = m.constraint_violation("return")
        if bad and (method != "bhhh" or intensity) and not all(c.fun(m.pvals) > -1e-6 for c in m.constraints): rec.violation(f"feasible:{tag}", f"{msg}: {res.message} but {bad}")
    rec.eval(task)
    rec.state((task, [round(q, 6) for q in v.values()]))
    rec.step()
    rec.trace()
    rec.outcome((con, res.get("message")))


CK.section("penalty", [(i, s, so, mi, me, st, con) for con in ("order", "fixed", "bounds") for i, s in ((0., 0.), (0., 1.), (1., 1.)) for so in ((0, 3) if T else (3,)) for mi in ((3, 60) if T else (60,))
                       for me in (None, "bhhh", "slsqp") for st in STARTS if me == "bhhh" or not i], penal, group=lambda t: t[-1])

CK.finish()
