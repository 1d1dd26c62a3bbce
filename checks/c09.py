"""C09: declared parameter constraints mean the inequality they state, in every representation, after any history."""
import itertools, math, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
import numba
import larch
import vk.fast
import larch.numba as lx
from larch import P, X
from larch.model.constraints import RatioBound, OrderingBound, FixedBound, interpret_contraint
from vk.harness import Check, Violation
from vk.choice import Spec, close
from vk import specs

CK = Check("C09", "model_checking",
           assumptions=["the denominator of a bounded ratio has bounds of one sign, declared before the constraint and not reversed afterwards",
                        "a soft penalty may be up to log(2)/sharpness (in the scale of the constraint) for a feasible vector"],
           bounds=dict(parameters="3-5 names, with others before and after them in the table", values="full grid over 5-9 values per constrained parameter, with all boundary points",
                       constraints="every type, direction, sign of limits and scale; every subset of up to 3 of 8 constraints; list histories of 2-3 operations"))
T = CK.thorough
INF = math.inf
GRID = [-4., -2., -1., -.5, 0., .5, 1., 2., 4.]
NAMES = ["a", "b", "c", "z"]


class Con:
    """a declared constraint and what it says"""

    def __init__(self, kind, p, q=None, lo=None, hi=None, scale=None):
        self.kind, self.p, self.q, self.lo, self.hi, self.scale = kind, p, q, lo, hi, scale

    def make(self):
        kw = {} if self.scale is None else dict(scale=self.scale)
        if self.kind == "order":
            return OrderingBound(self.p, self.q, **kw)
        if self.kind == "fixed":
            return FixedBound(self.p, self.lo, self.hi, **kw)
        return RatioBound(self.p, self.q, self.lo, self.hi, **kw)

    def sides(self, v):
        """signed distance of each limit (positive: satisfied), for a table of values"""
        out = []
        if self.kind == "order":
            return [v[self.q] - v[self.p]]
        x = v[self.p] if self.kind == "fixed" else v[self.p] / v[self.q]
        if self.lo is not None: out.append(x - self.lo)
        if self.hi is not None: out.append(self.hi - x)
        return out

    def slack(self, v):
        return min(self.sides(v), default=INF)

    def text(self):
        """ways to write it, if there is one"""
        f = lambda x: repr(x)
        if self.kind == "order":
            return [f"{self.p}<={self.q}", f"{self.p} < {self.q}", f"{self.q} >= {self.p}", f" {self.q}>{self.p} "]
        e = self.p if self.kind == "fixed" else f"{self.p}/{self.q}"
        e2 = self.p if self.kind == "fixed" else f" {self.p} / {self.q} "
        out = []
        if self.lo is not None and self.hi is not None:
            out += [f"{f(self.lo)}<={e}<={f(self.hi)}", f"{f(self.lo)} < {e2} < {f(self.hi)}", f"{self.lo:e} <={e} < {self.hi:+}"]
        elif self.lo is not None:
            out += [f"{e}>={f(self.lo)}", f"{e2} > {f(self.lo)}"]
            if self.kind == "fixed": out += [f"{f(self.lo)} <= {e}", f"{f(self.lo)}<{e}"]
        elif self.hi is not None:
            out += [f"{e}<={f(self.hi)}", f"{e2} < {f(self.hi)}"]
            if self.kind == "fixed": out += [f"{f(self.hi)} >= {e}", f"{f(self.hi)}>{e}"]
        return out

    def __repr__(self):
        return f"Con({self.kind},{self.p},{self.q},{self.lo},{self.hi},{self.scale})"

    def params(self):
        return [self.p] if self.q is None else [self.p, self.q]


FIX = {}


def fixture(engine="legacy", den="b", sign=1, names=NAMES, extra=()):
    """a model with the given parameters, whose denominator has bounds of the given sign"""
    if engine == "legacy":
        m = larch.Model()
        m.graph = larch.model.tree.NestingTree()
        m.initialize_graph(alternative_codes=[1, 2, 3])
    else:
        if "ds" not in FIX:
            FIX["spec"] = s = Spec([1, 2, 3], [], [("a", v, 1) for v in "xyzw"], {2: [("b", "inc", 1)]}, [], None,
                                   {v: [r[:3] for r in specs.X3[v][:4]] for v in "xyzw"}, {"inc": specs.INC[:4]},
                                   [[1, 1, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 0]], None, dict(a=0, b=0))
            FIX["ds"] = s.dataset("ca")
        m = lx.Model(FIX["ds"])
        m.choice_ca_var, m.availability_var = "ch_", "av_"
    data = dict(zip(list(names) + list(extra), "xyzwxyzw"))
    m.utility_ca = sum((P(n) * X(data[n]) for n in list(names)[1:]), P(names[0]) * X(data[names[0]]))
    m.unmangle()
    for n in names:
        m.set_value(n, .5)
    if den is not None:
        m.set_value(den, **(dict(minimum=0) if sign > 0 else dict(maximum=0)))
    return m


def vectors(m, con, sign, den="b", grid=GRID):
    names = list(m.pf.index)
    for c in itertools.product(grid, repeat=len(con.params())):
        v = {n: .25 * i - 1.5 for i, n in enumerate(names)}
        v.update(zip(con.params(), c))
        if den in v and con.q == den and (v[den] * sign <= 0 if con.kind == "ratio" else False):
            continue
        yield v, np.asarray([v[n] for n in names])


def check_con(c, con, v, x, rec, tag, exact=True):
    """one constraint object at one vector against what it says"""
    def bad(what, msg):
        rec.violation(f"{what}:{tag}", f"{con} at {v}: {msg}")
    s = con.slack(v)
    f = c.fun(x)
    if not (f > 0 if s > 1e-12 else f < 0 if s < -1e-12 else abs(f) < 1e-9):
        bad("sign", f"value {f} but the distance from the stated limit is {s}")
    g = con.sides(v)
    # linear form
    ok = True
    for lc in c.as_linear_constraints():
        z = np.asarray(lc.A) @ x
        d = np.concatenate([np.atleast_1d(z - lc.lb), np.atleast_1d(lc.ub - z)])
        ok = ok and d.min() >= -1e-9
        if s > 1e-12 and d.min() < -1e-9 or s < -1e-12 and d.min() >= 0:
            bad("linear", f"the linear form gives {z} in [{lc.lb}, {lc.ub}], distance from the stated limit {s}")
    for dct in c.as_constraint_dicts():
        if dct["type"] != "ineq" or dct["fun"](x) != f or not np.array_equal(dct["jac"](x), c.jac(x)):
            bad("dict", f"{dct}")
    # slope
    j = np.asarray(c.jac(x), float)
    h = 2.0 ** -20
    for i, n in enumerate(v):
        e = np.zeros(len(x)); e[i] = h
        if np.isfinite(f):
            up, dn = (c.fun(x + e) - f) / h, (f - c.fun(x - e)) / h
            lo, hi = min(up, dn), max(up, dn)
            t = 1e-5 * max(1, abs(lo), abs(hi))
            if not (lo - t <= j[i] <= hi + t):
                bad("jac", f"slope for {n} is {j[i]}, differences give {dn} and {up}")
    # binding
    near = [abs(q) < 1e-12 for q in g]
    if c.is_binding(x) != any(near) and (not any(near) and min((abs(q) for q in g), default=1) > .01 or s == 0):
        bad("binding", f"is_binding is {c.is_binding(x)}, distances from the limits are {g}")
    if s == 0 and con.kind != "order" and len(g) == 2:
        note = c.get_binding_note(x)
        want = "≥" if g[0] == 0 else "≤"
        lim = con.lo if g[0] == 0 else con.hi
        if g[0] != g[1] and (want not in note or not note.endswith(str(lim))):
            bad("note", note)
    if s == 0 and len(g) == 1:
        note = c.get_binding_note(x)
        want = "≤" if con.kind == "order" or con.hi is not None else "≥"
        if want not in note:
            bad("note", note)
    rec.eval((repr(con), tuple(x)))
    return f


# ------------------------------------------------------------ 1 each constraint over the grid
LIMS = [-2., -.5, 0., .5, 1., 2.]


def configs():
    for p, q in itertools.permutations(("a", "b", "c"), 2):
        for sc in (None, .25, 3.):
            yield Con("order", p, q, scale=sc), 1
    for p in ("a", "c", "z"):
        for sc in (None, 2.):
            for lo, hi in itertools.product([None] + LIMS, repeat=2):
                if (lo, hi) != (None, None) and (lo is None or hi is None or lo <= hi):
                    yield Con("fixed", p, None, lo, hi, sc), 1
    for p in ("a", "c"):
        for sign in (1, -1):
            for sc in (None, .125) if p == "a" else (None,):
                for lo, hi in itertools.product([None] + LIMS, repeat=2):
                    if (lo, hi) != (None, None) and (lo is None or hi is None or lo <= hi):
                        yield Con("ratio", p, "b", lo, hi, sc), sign


def single(task, rec):
    con, sign = task
    m = fixture(sign=sign)
    c = con.make()
    m.constraints.append(c)
    c = m.constraints[0]
    for v, x in vectors(m, con, sign):
        f = check_con(c, con, v, x, rec, con.kind)
        rec.outcome((con.kind, np.sign(f)))
    rec.state(repr(con) + str(sign))
    # text
    for t in con.text():
        try:
            d = interpret_contraint(t)
        except Exception as e:
            rec.violation(f"text-raises:{con.kind}", f"{t!r} stating {con} raises {e!r}")
            continue
        plain = Con(con.kind, con.p, con.q, con.lo, con.hi)
        if not (d == plain.make() and plain.make() == d):
            rec.violation(f"text:{con.kind}", f"{t!r} gives {d}, expected {con}")
        m2 = fixture(sign=sign)
        m2.constraints.append(t)
        for v, x in vectors(m2, con, sign, grid=GRID[1:-1:2]):
            s, f = con.slack(v), m2.constraints[0].fun(x)
            if not (f > 0 if s > 1e-12 else f < 0 if s < -1e-12 else abs(f) < 1e-9):
                rec.violation(f"text-sign:{con.kind}", f"{t!r} at {v} has value {f} (distance {s})")
        rec.trace()
    # equality holds exactly for the same statement
    for other in (Con("order", "b", "a"), Con("order", "a", "b"), Con("fixed", "a", None, .5, None), Con("fixed", "a", None, None, .5),
                  Con("ratio", "a", "b", .5, None), Con("ratio", "a", "b", None, .5), Con("ratio", "b", "a", .5, None)):
        same = (con.kind, con.p, con.q, con.lo, con.hi) == (other.kind, other.p, other.q, other.lo, other.hi)
        if (c == other.make()) != same:
            rec.violation(f"equality:{con.kind}", f"{c} == {other} is {c == other.make()}")
    rec.step()


CK.section("single", list(configs()), single)


# ------------------------------------------------------------ 2 names and numbers in text
TOK = ["aaa", "e1", "E", "b:c", "x#2", "c*d", "_q", "m1e5", "é", "A&B"]
NUM = ["3", "-2", "+.5", "0", "1.", "1e1", "2.5E-1", "1/4", "3/2"]


def texts(task, rec):
    t1, t2 = task
    val = lambda s: eval(s)
    bank = [(f"{t1} < {t2}", Con("order", t1, t2)), (f"{t1}>={t2}", Con("order", t2, t1))] if t1 != t2 else []
    for n in NUM:
        v = val(n)
        bank += [(f"{t1} < {n}", Con("fixed", t1, None, None, v)), (f"{t1}>={n}", Con("fixed", t1, None, v, None)),
                 (f"{n}<{t1}", Con("fixed", t1, None, v, None)), (f"{n} >= {t1}", Con("fixed", t1, None, None, v)),
                 (f"{t1}/{t2} <= {n}", Con("ratio", t1, t2, None, v)), (f"{t1} / {t2}>{n}", Con("ratio", t1, t2, v, None))]
        for n2 in ("5", "1/2"):
            bank += [(f"{n} <= {t1} < {n2}", Con("fixed", t1, None, v, val(n2))), (f"{n} < {t1}/{t2} <= {n2}", Con("ratio", t1, t2, v, val(n2)))]
    for t, con in bank:
        try:
            d = interpret_contraint(t)
        except Exception as e:
            rec.violation(f"parse-raises:{con.kind}", f"{t!r} raises {e!r}")
            continue
        got = (type(d).__name__, *d.get_parameters(), getattr(d, "min_ratio", getattr(d, "minimum", None)), getattr(d, "max_ratio", getattr(d, "maximum", None)))
        w = con.make()
        want = (type(w).__name__, *w.get_parameters(), con.lo, con.hi)
        if got != want:
            rec.violation(f"parse:{con.kind}", f"{t!r} gives {got}, states {want}")
        rec.eval(t)
        rec.trace()
    for t in (f"{t1}", f"{t1} <", f"< {t1}", f"{t1} = {t2}", f"{t1} << {t2}", f"{t1} < {t2} <", f"{t1}//{t2} < 1", f"{t1} < 1.2.3", f"1 < {t1} > 2", f"{t1} - {t2} < 3", f"{t1}/{t2}/{t1} < 2", f"{t1} < 1/0x", f"{t1} <> {t2}", "", "< 3", f"{t1}/{t2}"):
        try:
            d = interpret_contraint(t)
        except Exception:
            rec.eval(t)
            continue
        rec.violation("parse-accepts", f"{t!r} is taken to mean {d}")
    rec.state(task)


CK.section("text", [(a, b) for a in TOK for b in TOK], texts)


# ------------------------------------------------------------ 3 soft penalties (compiled)
def pen_configs():
    out = [(Con("order", "c", "a", scale=s), 1) for s in (1., 10.)]
    for lo, hi in ((-.5, None), (None, .5), (-.5, 1.)):
        out += [(Con("fixed", "c", None, lo, hi, 4.), 1)]
        for sign in (1, -1):
            out += [(Con("ratio", "a", "b", lo, hi, 1.), sign)]
    out += [(Con("ratio", "c", "b", .5, 2., 3.), 1), (Con("ratio", "a", "b", 0., None, 1.), 1), (Con("ratio", "c", "b", None, 0., 1.), -1), (Con("ratio", "a", "b", -2., -1., 1.), -1)]
    return out


def penalty_props(con, fns, c, m, sign, rec, dt=np.float64, grid=None):
    pen, dpen, dbind = fns
    for k, sh in ((1., 1.), (.5, 4.), (10., 2.)):
        prev = []
        for v, x in vectors(m, con, sign, grid=grid or [-4., -1., -.5, 0., .25, .5, 1., 2.]):
            x = x.astype(dt)
            tag = f"{con.kind}"
            f = c.fun(x)
            p = pen(x, k, sh)
            s = con.slack(v)
            # never a reward; feasible: at most log(2)/sharpness; otherwise at least the violation
            if not p <= 1e-12:
                rec.violation(f"penalty-reward:{tag}", f"{con} at {v} intensity {k} sharpness {sh}: {p}")
            if s >= 0 and p < -math.log(2) / sh - 1e-9:
                rec.violation(f"penalty-feasible:{tag}", f"{con} at {v} (feasible) intensity {k} sharpness {sh}: {p}")
            if s < 0 and not p <= f * k * min(1, c.scale) + 1e-6:
                rec.violation(f"penalty-violated:{tag}", f"{con} at {v} (distance {s}, value {f}) intensity {k} sharpness {sh}: {p}")
            prev.append((f, p))
            d = dpen(x, k, sh)
            h = 2.0 ** -16
            for i, n in enumerate(v):
                e = np.zeros(len(x)); e[i] = h
                up, dn = (pen(x + e, k, sh) - p) / h, (p - pen(x - e, k, sh)) / h
                lo, hi = min(up, dn), max(up, dn)
                t = 2e-3 * max(1, abs(lo), abs(hi))
                if abs(p) > 9 / sh and abs(abs(p) - 10 / sh) < .5 * k * c.scale:   # the switch to the linear branch
                    t += 2e-3 / h * 0 + 5e-5 / sh / h
                if not (lo - t <= d[i] <= hi + t):
                    rec.violation(f"penalty-slope:{tag}", f"{con} at {v} intensity {k} sharpness {sh}: slope for {n} is {d[i]}, differences give {dn}, {up}")
            b = dbind(x, k)
            if abs(s) > .05 and con.kind != "order" and np.any(np.asarray(b) != 0) and all(abs(q) > .01 for q in con.sides(v)):
                rec.violation(f"penalty-binding:{tag}", f"{con} at {v}: slope at binding {b} but no limit is near")
            if s == 0 and min((q for q in con.sides(v) if q != 0), default=1) > .01:
                j = c.jac(x)
                if not np.all(np.sign(np.round(b, 9)) == np.sign(np.round(j, 9))):
                    rec.violation(f"penalty-binding:{tag}", f"{con} at {v}: slope at binding {b}, slope of the constraint {j}")
            rec.eval((repr(con), k, sh, tuple(x)))
        prev.sort()
        for (f0, p0), (f1, p1) in zip(prev, prev[1:]):
            if f1 > f0 + 1e-9 and p1 < p0 - 5e-5 / sh or f1 <= 0 and f1 > f0 + 1e-6 and not p1 > p0:
                rec.violation(f"penalty-order:{con.kind}", f"{con} intensity {k} sharpness {sh}: value {f0} has penalty {p0}, value {f1} has {p1}")


def penalties(task, rec):
    con, sign = task
    m = fixture(sign=sign)
    m.constraints.append(con.make())
    if con.scale: m.constraints.rescale(con.scale)
    c = m.constraints[0]
    penalty_props(con, c.as_soft_penalty(), c, m, sign, rec)
    rec.state(task)
    rec.step()


CK.section("penalty", pen_configs(), penalties)


# ------------------------------------------------------------ 4 penalties inside the numba model
class plain_njit:
    """keep the compiler out of the way where only the behaviour of the closures matters"""

    def __enter__(self):
        self.keep = numba.njit
        numba.njit = lambda *a, **k: (a[0] if a and callable(a[0]) else (lambda f: f))

    def __exit__(self, *a):
        numba.njit = self.keep


BOUNDS = [dict(), dict(minimum=-.5), dict(maximum=.5), dict(minimum=-.5, maximum=.5), dict(minimum=.5, maximum=.5)]
MODEL_CONS = [[], [Con("order", "a", "c")], [Con("ratio", "a", "b", .5, 2.)], [Con("fixed", "c", None, 0., None), Con("order", "c", "z")]]


def loglike_at(m, v):
    s = FIX["spec"]
    data = dict(zip(NAMES, "xyzw"))
    sp = Spec(s.alts, [], [(n, data[n], 1) for n in NAMES], {}, [], None, s.cax, s.cox, s.av, s.ch, None, dict(v))
    return sp.evaluate(grad=False)["ll"]


def modelpen(task, rec):
    ba, bc, ci, (k, sh) = task
    with plain_njit():
        m = fixture("numba")
        for n, b in (("a", ba), ("c", bc)):
            if b: m.set_value(n, **b)
        for c in MODEL_CONS[ci]:
            m.constraints.append(c.make())
        m.unmangle()
        m.constraint_intensity, m.constraint_sharpness = k, sh
        objs = list(zip(MODEL_CONS[ci], m.constraints))
        for a, c in itertools.product([-1., -.5, .25, .5, 1.5], repeat=2):
            v = dict(a=a, b=.5, c=c, z=.75)
            x = np.asarray([v[n] for n in NAMES])
            tag = f"{'bounds' if ci == 0 else 'constraints'}"
            feas = all(b.get("minimum", -INF) <= v[n] <= b.get("maximum", INF) for n, b in (("a", ba), ("c", bc))) and all(q.slack(v) >= 0 for q, _ in objs)
            ll = loglike_at(m, v)
            m.set_values(x)
            z = m.loglike()
            pen, dp, _ = m.constraint_penalty()
            msg = f"bounds a {ba} c {bc} constraints {objs} intensity {k} sharpness {sh} at {v}"
            if k == 0:
                if not close(z, ll.sum()): rec.violation(f"no-penalty:{tag}", f"{msg}: log likelihood {z}, expected {ll.sum()}")
            else:
                if not close(z, ll.sum() + len(ll) * pen, rtol=1e-9): rec.violation(f"added:{tag}", f"{msg}: log likelihood {z} is not {ll.sum()} plus {len(ll)} x penalty {pen}")
                nb = sum((q is not None) for b in (ba, bc) for q in (b.get("minimum"), b.get("maximum"))) + 1
                room = (nb * k + len(objs)) * math.log(2) / sh
                worst = sum(max(0, b.get("minimum", -INF) - v[n], v[n] - b.get("maximum", INF)) for n, b in (("a", ba), ("c", bc))) * k \
                    + sum(max(0., -o.fun(x)) * k * min(1, o.scale) for q, o in objs)
                if not (pen <= -worst + 1e-7): rec.violation(f"too-low:{tag}", f"{msg}: penalty {pen}, violated by {worst}")
                if feas and pen < -room - 1e-9: rec.violation(f"feasible:{tag}", f"{msg}: penalty {pen} of a feasible vector exceeds {room}")
                if not close(m.loglike(start_case=1, stop_case=3), ll[1:3].sum() + 2 * pen, rtol=1e-9): rec.violation(f"slice:{tag}", msg)
            # slope of the sum
            r = m.loglike2(return_series=False)
            h = 1e-6
            for i, n in enumerate(NAMES):
                e = np.zeros(4); e[i] = h
                m.set_values(x + e); up = m.loglike()
                m.set_values(x - e); dn = m.loglike()
                fw, bw = (up - z) / h, (z - dn) / h
                lo, hi = min(fw, bw), max(fw, bw)
                if not lo - 1e-3 * max(1, abs(lo)) <= r.dll[i] <= hi + 1e-3 * max(1, abs(hi)):
                    rec.violation(f"slope:{tag}", f"{msg}: slope for {n} is {r.dll[i]}, differences give {bw}, {fw}")
            m.set_values(x)
            got = m.constraint_violation("return")
            if bool(got) == feas:
                rec.violation(f"violation-report:{tag}", f"{msg}: reported {got!r}")
            got2 = m.constraint_violation("return", intensity_check=True)
            if got2 != (got if k else ""):
                rec.violation(f"violation-report:{tag}", f"{msg}: reported {got2!r} with the intensity check")
            try:
                m.constraint_violation()
                raised = False
            except ValueError:
                raised = True
            if raised == feas:
                rec.violation(f"violation-report:{tag}", f"{msg}: raised {raised}")
            rec.eval((repr(task), tuple(x)))
            rec.trace()
    rec.state(repr(task))


CK.section("model", [(ba, bc, ci, ks) for ba in BOUNDS for bc in BOUNDS for ci in range(len(MODEL_CONS)) for ks in ((0., 1.), (1., 2.), (4., 10.))
                     if T or ci == 0 or bc == {} or ks[0] == 1 and ba == {}], modelpen)


# ------------------------------------------------------------ 5 several constraints together
MANY = [Con("order", "a", "c"), Con("order", "c", "z"), Con("fixed", "a", None, -1., None), Con("fixed", "c", None, None, 1.), Con("fixed", "z", None, -.5, .5),
        Con("ratio", "a", "b", .5, None), Con("ratio", "c", "b", None, 2.), Con("ratio", "z", "b", -1., 1.)]


def subsets(task, rec):
    sel, sign, bnd = task
    m = fixture(sign=sign)
    if bnd: m.set_value("z", minimum=-1., maximum=1.)
    if bnd == 2: m.set_value("z", holdfast=1)
    for c in sel:
        m.constraints.append(c.make())
    names = list(m.pf.index)
    for a, b, c, z in itertools.product([-1., 0., 1.], [.5 * sign, sign], [-1., .5, 1.], [-1., -.5, .5]):
        v = dict(a=a, b=b, c=c, z=z)
        x = np.asarray([v[n] for n in names])
        want = all(q.slack(v) >= 0 for q in sel)
        for meth in ("slsqp", "COBYLA", "trust-constr"):
            ok = True
            for k in m._get_constraints(meth):
                if isinstance(k, dict):
                    ok = ok and k["fun"](x) >= -1e-12
                else:
                    q = np.asarray(k.A) @ x
                    ok = ok and bool(np.all(q >= k.lb - 1e-12) and np.all(q <= k.ub + 1e-12))
            if ok != want:
                rec.violation(f"feasible-set:{meth}", f"{sel} at {v}: {ok}, expected {want}")
        m.set_values(v, respect_holdfast=False)
        got = sorted(str(k) for k in m.get_all_binding_contraints())
        exp = [q.make() for q in sel if any(s == 0 for s in q.sides(v)) and q.slack(v) == 0]
        if bnd == 1 and z == -1: exp.append(FixedBound("z", -1., 1.))
        # denominators carry a bound of their own at zero, never met here
        wantb = sorted(str(k) for k in exp)
        if got != wantb:
            rec.violation("binding-list", f"{sel} bounds {bnd} at {v}: {got}, expected {wantb}")
        rec.eval((repr(task), tuple(x)))
    rec.state(repr(task))
    if m._get_constraints("bhhh") != ():
        rec.violation("other-method", "constraints for an optimizer without constraints")


def combos():
    for n in (1, 2, 3):
        for sel in itertools.combinations(MANY, n):
            for sign in (1, -1):
                for bnd in (0, 1, 2):
                    yield sel, sign, bnd


CK.section("subsets", list(combos()), subsets)


# ------------------------------------------------------------ 6 histories of list and model edits
OPS = {}


def op(name, when=lambda w: True):
    def deco(f):
        OPS[name] = (f, when)
        return f
    return deco


class W:
    def __init__(self):
        self.cx = []
        self.names = list(NAMES)

    def add(self, i, con):
        if any((k.kind, k.p, k.q, k.lo, k.hi) == (con.kind, con.p, con.q, con.lo, con.hi) for k in self.cx):
            return
        self.cx.insert(i, con)


O, R, F = Con("order", "a", "c"), Con("ratio", "c", "b", .5, 2.), Con("fixed", "c", None, -1., 1.)


@op("append order")
def _(m, w): m.constraints.append(O.make()); w.add(len(w.cx), O)
@op("append ratio")
def _(m, w): m.constraints.append(R.make()); w.add(len(w.cx), R)
@op("append text")
def _(m, w): m.constraints.append("z <= c"); w.add(len(w.cx), Con("order", "z", "c"))
@op("append fixed text")
def _(m, w): m.constraints.append("-1 <= c <= 1"); w.add(len(w.cx), F)
@op("insert 0")
def _(m, w): m.constraints.insert(0, F.make()); w.add(0, F)
@op("insert -1")
def _(m, w): c = Con("order", "c", "z"); m.constraints.insert(-1, c.make()); w.add(-1, c)
@op("insert far")
def _(m, w): c = Con("ratio", "a", "b", None, 3.); m.constraints.insert(9, c.make()); w.add(9, c)
@op("extend")
def _(m, w):
    m.constraints.extend([O.make(), R.make()])
    w.add(len(w.cx), O); w.add(len(w.cx), R)
@op("+=")
def _(m, w): c = Con("fixed", "a", None, None, .75); m.constraints += [c.make()]; w.add(len(w.cx), c)
@op("self")
def _(m, w): m.constraints = m.constraints
@op("slice self", lambda w: w.cx)
def _(m, w): m.constraints = list(m.constraints)[::-1]; w.cx = w.cx[::-1]
@op("setitem", lambda w: w.cx)
def _(m, w):
    c = Con("order", "z", "a"); m.constraints[0] = c.make()
    if not any(k.kind == "order" and k.p == "z" and k.q == "a" for k in w.cx): w.cx[0] = c
@op("del 0", lambda w: w.cx)
def _(m, w): del m.constraints[0]; del w.cx[0]
@op("pop", lambda w: w.cx)
def _(m, w): m.constraints.pop(); w.cx.pop()
@op("remove", lambda w: w.cx)
def _(m, w): m.constraints.remove(w.cx[-1].make()); w.cx.pop()
@op("assign")
def _(m, w): m.constraints = [R.make(), O.make()]; w.cx = [R, O]
@op("assign empty")
def _(m, w): m.constraints = []; w.cx = []
@op("assign none")
def _(m, w): m.constraints = None; w.cx = []
@op("delete")
def _(m, w): del m.constraints; w.cx = []
@op("rescale")
def _(m, w): m.constraints.rescale(.25)
@op("rescale 1", lambda w: w.cx)
def _(m, w): m.constraints.rescale(5., index=0)
@op("share")
def _(m, w):
    m2 = fixture(names=["b", "c", "a", "z", "aa"])
    m2.constraints = m.constraints
    m2.unmangle()
@op("share object", lambda w: w.cx)
def _(m, w):
    o = fixture(names=["a", "b", "c"] if all("z" not in k.params() for k in w.cx) else NAMES)
    o.constraints = m.constraints
    o.constraints.rescale(.1)
@op("reject unknown")
def _(m, w):
    try: m.constraints.append(OrderingBound("a", "nope"))
    except KeyError: return
    raise Violation("accepted", "a constraint on an unknown parameter was accepted")
@op("reject text")
def _(m, w):
    try: m.constraints.append("a plus b")
    except ValueError: return
    raise Violation("accepted", "a text without a constraint was accepted")
@op("reject type")
def _(m, w):
    try: m.constraints.append(3)
    except TypeError: return
    raise Violation("accepted", "a number was accepted as a constraint")
@op("reject ratio")
def _(m, w):
    try: m.constraints.append(RatioBound("a", "z", 1., 2.))
    except ValueError: return
    raise Violation("accepted", "a ratio with a denominator of unknown sign was accepted")
@op("add parameter")
def _(m, w): m.utility_co[3] = P("aa") * X.inc; w.names = sorted({*w.names, "aa"})
@op("add last")
def _(m, w): m.utility_co[2] = P("zz"); w.names = sorted({*w.names, "zz"})
@op("drop parameter")
def _(m, w): m.utility_co[3] = P.a; m.utility_co[3] = P.c; m.remove_unused_parameters(verbose=False)
@op("unused parameter")
def _(m, w):
    m.utility_ca = P.c * X.z + P.z * X.w; m.remove_unused_parameters(verbose=False)
    for n in {q for k in w.cx for q in k.params()}: m.get_value(n)
    m.utility_ca = P.a * X.x + P.b * X.y + P.c * X.z + P.z * X.w; m.unmangle(); m.set_value("b", minimum=0)
@op("bound gone")
def _(m, w): m.set_value("b", minimum=-INF); m.mangle(); m.unmangle(); m.set_value("b", minimum=0)
@op("frame")
def _(m, w): f = m.pf.copy(); f.loc["a", "value"] = .125; m.set_frame(f.iloc[::-1])
@op("unmangle")
def _(m, w): m.unmangle()
@op("value")
def _(m, w): m.set_value("b", .75)
@op("new parameter")
def _(m, w): m.set_value("bb", .1); w.names = sorted({*w.names, "bb"})
@op("ll", lambda w: True)
def _(m, w):
    if isinstance(m, lx.Model): m.loglike()
    else: m.pf


def history(task, rec):
    engine, prefix, more = task
    with plain_njit():
        for rest in itertools.product(OPS, repeat=more):
            seq = [*prefix, *rest]
            m, w = fixture(engine), W()
            hist = []
            try:
                for o in seq:
                    f, when = OPS[o]
                    if not when(w): break
                    hist.append(o)
                    f(m, w)
                    rec.step()
                if len(hist) < len(seq): continue
                rec.state((engine, seq))
                verify(m, w, rec, engine, hist)
            except Violation as e:
                rec.violation(f"{e.key}:{seq[-1]}", f"{engine} {hist}: {e}")
            except Exception as e:
                import traceback
                rec.violation(f"raises:{engine}:{hist[-1]}:{type(e).__name__}", f"{engine} history {hist} of {seq} raises {e!r}\n{traceback.format_exc()[-1500:]}")


def verify(m, w, rec, engine, hist):
    names = list(m.pf.index)
    tag = hist[-1]
    if len(m.constraints) != len(w.cx) or any(c != k.make() for c, k in zip(m.constraints, w.cx)):
        return rec.violation(f"list:{tag}", f"{engine} {hist}: constraints {m.constraints}, expected {w.cx}")
    pts = [dict(a=.5, b=1., c=1., z=.25), dict(a=2., b=.5, c=-2., z=3.), dict(a=-1., b=2., c=4., z=-3.), dict(a=1., b=1., c=.5, z=1.)]
    for k, v in enumerate(pts):
        vv = {n: v.get(n, -7. - i) for i, n in enumerate(names)}
        x = np.asarray([vv[n] for n in names])
        for c, con in zip(m.constraints, w.cx):
            check_con(c, con, vv, x, rec, f"{con.kind}-after-{tag}")
        if engine == "numba" and k == 1:
            m.set_values(x)
            m.constraint_intensity, m.constraint_sharpness = 1., 2.
            pen = m.constraint_penalty()[0]
            base = bounds_only(m)
            want = sum(-soft(-c.fun(x) * (c.scale if isinstance(c, RatioBound) else 1), 2.) for c in m.constraints)
            if not close(pen - base, want, atol=1e-4):
                rec.violation(f"penalty:{tag}", f"{engine} {hist}: penalty {pen - base} for {w.cx} at {vv}, expected {want}")
            m.constraint_intensity = m.constraint_sharpness = 0.
    rec.outcome((engine, tuple(map(repr, w.cx)), tuple(names)))
    rec.trace()


def soft(i, s):
    return i if i > 10 / s else math.log1p(math.exp(i * s)) / s


def bounds_only(m):
    f, m._constraint_funcs = m._constraint_funcs, []
    try:
        return m.constraint_penalty()[0]
    finally:
        m._constraint_funcs = f


CK.section("history-legacy", [("legacy", (a, b), k) for a in OPS for b in OPS for k in ((0, 1) if T else (0,))] + [("legacy", (a,), 0) for a in OPS]
           + ([] if T else [("legacy", (a, b), 1) for a in ("append order", "assign", "append ratio") for b in OPS]), history)
CK.section("history-numba", [("numba", (a,), 0) for a in OPS] + [("numba", (a, b), 0) for a in OPS for b in OPS]
           + [("numba", ("assign", b), 1) for b in (OPS if T else ("add parameter", "rescale", "ll", "frame", "setitem"))], history)
CK.finish()
