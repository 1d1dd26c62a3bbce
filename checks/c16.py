"""C16: a group of models evaluates to the sum of its members."""
import itertools, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
import larch
import vk.fast, larch.numba
from larch import P, X
from larch.model.model_group import ModelGroup
from larch.model.latentclass import LatentClassModel
from vk.harness import Check
from vk.choice import Spec, close, _lin
from vk import specs

CK = Check("C16", "model_checking",
           assumptions=["members agree on which parameters are held fast", "the group's values win over values set in a member", "groups do not offer BHHH matrices or case ranges (refused)"],
           bounds=dict(members="every list of up to 3 of 6 members (MNL idca/idco, size terms, nested logit, weighted) in either engine, mixed engines and a latent class member, with data of their own",
                       sharing="every assignment of names from a pool of 3 to two parameters of 2 and 3 members",
                       histories="every sequence of up to 2 (in part 3; thorough 3, in part 4) of 22 operations on the group and its members"))
T = CK.thorough

ROWS = {0: [0, 3, 7, 12, 15], 1: [1, 4, 6, 13, 16, 17], 2: [2, 5, 9, 14], 3: [8, 10, 11, 12, 18]}


def spec(struct, nests=(), rows=0, weights="none", rename=None, values="gen"):
    av, ch = specs.all_cases(3, empty=False)
    ix = ROWS[rows]
    s = specs.make(struct, nests=nests, values=values, weights=weights, rows=([av[i] for i in ix], [ch[i] for i in ix]))
    if rows: # other attributes
        s.cax = {k: v * (1 + .1 * rows) + .05 * rows for k, v in s.cax.items()}
    if rename:
        r = lambda p: rename.get(p, p)
        s.ca = [(r(p), v, x) for p, v, x in s.ca]
        s.co = {a: [(r(p), v, x) for p, v, x in t] for a, t in s.co.items()}
        s.values = {r(p): v for p, v in s.values.items()}
    return s


POOL = {
    "ca": lambda: spec("ca"), "mix": lambda: spec("mix", rows=1, weights="w"), "co": lambda: spec("co", rows=2),
    "nl": lambda: spec("mix", ((101, [1, 2]),), rows=3), "qs": lambda: spec("qs", rows=1), "shared": lambda: spec("shared", rows=2, weights="w")}


def build(s, eng):
    if eng == "legacy": return s.legacy_model()
    if eng == "numba": return s.numba_model("ca")
    if eng == "scaled":
        m = s.legacy_model()
        d = m.dataframes
        if d.data_wt is not None: d.autoscale_weights()
        m.dataframes = d
        return m
    raise ValueError(eng)


class LC(Spec):
    """two equal classes: the same as the class model itself, whatever the membership"""
    def __init__(self, s):
        self.__dict__.update(s.__dict__)
        self.values = {**s.values, "w": .3}


def build_lc(s):
    ms = {}
    for k in (1, 2):
        m = larch.Model(); s.apply_structure(m, None, None); m.n_threads = 1
        ms[k] = m
    km = larch.Model(); km.utility_co[2] = P.w
    m = LatentClassModel(km, ms)
    m.dataframes = s.dataframes()
    for p, v in s.values.items(): m.set_value(p, v)
    return m


def sums(members, val, held=()):
    """reference: sums over members, matched by name"""
    out = dict(ll=0., g={p: 0. for p in val}, null=0., n=0, w=0., parts=[])
    for s in members:
        s.holdfast = set(held)
        r = s.evaluate({p: val[p] for p in s.values})
        out["ll"] += r["ll"].sum()
        out["parts"].append(r["ll"].sum())
        for p, v in zip(r["names"], r["g"].sum(0)):
            if p not in held: out["g"][p] += v
        out["n"] += s.n
        wt = np.ones(s.n) if s.wt is None else s.wt
        # scaling takes weights embedded in the choices out of them
        out["w"] += (wt * s.ch.sum(1)).sum() if getattr(s, "scaled", False) and (s.wt is not None) else wt.sum()
    return out


def compare(g, members, val, rec, tag, held=(), msg="", null=None):
    def chk(what, got, want, tol=1e-8):
        rec.step()
        if not close(got, want, rtol=tol, atol=tol): rec.violation(f"{what}:{tag}", f"{msg}\n{what} of the group is\n{got}\nthe members sum to\n{want}")
    names = list(g.pf.index)
    if set(names) != set(val):
        rec.violation(f"parameters:{tag}", f"{msg}: the group has {names}, expected {list(val)}")
        return
    if not close([g.pf.loc[p, "value"] for p in val], list(val.values())):
        rec.violation(f"values:{tag}", f"{msg}: the group has {dict(g.pf.value)}, expected {val}")
        return
    r = sums(members, val, held)
    G = [r["g"][p] for p in names]
    chk("loglike", g.loglike(), r["ll"])
    z = g.loglike2()
    chk("loglike2", z.ll, r["ll"])
    rec.expect(list(z.dll.index) == names, f"labels:{tag}", lambda: f"{list(z.dll.index)}, {names}")
    chk("gradient", np.asarray(z.dll), G, 1e-7)
    chk("d_loglike", np.asarray(g.d_loglike()), G, 1e-7)
    y = g.loglike(persist=larch.model.PERSIST_ALL)
    chk("loglike-persist", y.ll, r["ll"])
    chk("parts", y.ll_parts, r["parts"])
    for k, s in zip(g, members):
        if not all(close(k.pf.loc[p, "value"], val[p]) for p in s.values): rec.violation(f"member-values:{tag}", f"{msg}: a member has {dict(k.pf.value)}, the group {val}")
    chk("member-sum", sum(k.loglike() for k in g), r["ll"])
    if null is not None:
        chk("null", g.loglike_null(), null)
        chk("values-after-null", [g.pf.loc[p, "value"] for p in val], list(val.values()))
    chk("n_cases", g.n_cases, r["n"])
    chk("total_weight", g.total_weight(), r["w"])
    rec.outcome(round(float(r["ll"]), 7))


def join(members):
    val = {}
    for s in members:
        for p, v in s.values.items(): val.setdefault(p, v)
    return val


def nullvals(val): return {p: 1. if p.startswith("mu") or p == "theta" else 0. for p in val}


def group(task, rec):
    kinds, engs, held, nested = task
    members = []
    for i, k in enumerate(kinds):
        s = POOL[k]()
        s.values = {p: v * (1 - .25 * i) for p, v in s.values.items()}     # later members disagree on values
        if engs[i] == "lc": s = LC(s)
        s.scaled = engs[i] == "scaled"
        members.append(s)
    ms = [build_lc(s) if e == "lc" else build(s, e) for s, e in zip(members, engs)]
    g = ModelGroup(ms) if not nested else ModelGroup([ModelGroup(ms[:2]), *ms[2:]])
    val = join(members)
    held = tuple(p for p in held if p in val)
    g.unmangle()
    for p in held: g.lock_value(p, val[p])
    tag = "+".join(sorted(set(engs))) + (":held" if held else "")
    compare(g, members, val, rec, tag, held, str(task), None if held else sums(members, nullvals(val))["ll"])
    x = [val[p] * .5 + .1 for p in g.pf.index]
    v2 = {p: (val[p] if p in held else y) for p, y in zip(g.pf.index, x)}
    got, r2 = g.loglike(x), sums(members, v2, held)
    rec.expect(close(got, r2["ll"], rtol=1e-8), f"loglike-x:{tag}", lambda: f"{task}: {got} {r2['ll']}")
    got = g.loglike2(dict(val))
    rec.expect(close(got.ll, sums(members, val, held)["ll"], rtol=1e-8), f"loglike2-x:{tag}", lambda: f"{task}: {got}")
    rec.eval(task); rec.state(task); rec.trace()


tasks = []
for k in (1, 2, 3):
    for kinds in itertools.product(POOL, repeat=k):
        if k == 3 and not T and len(set(kinds)) < 3: continue
        if k == 3 and not T and kinds != tuple(sorted(kinds)): engset = [("legacy",) * 3]
        elif k < 3 or T: engset = list(itertools.product(("legacy", "numba"), repeat=k)) + [("scaled",) * k]
        else: engset = [("legacy",) * 3, ("numba", "legacy", "numba"), ("numba",) * 3]
        for e in engset:
            tasks.append((kinds, e, (), False))
            if k == 2: tasks.append((kinds, e, ("b1", "a2"), False))
            if k == 3 and kinds == tuple(sorted(kinds)): tasks.append((kinds, e, ("b1",), True))
for kinds in itertools.product(("ca", "co", "mix"), repeat=2):
    for e in (("lc", "legacy"), ("numba", "lc"), ("lc", "lc")):
        tasks.append((kinds, e, (), False))
CK.section("groups", tasks, group, group=lambda t: tuple(sorted(set(t[0]))) if "numba" in t[1] else t)


# ------------------------------------------------------------ sharing patterns
def sharing(task, rec):
    pats, eng = task
    members = [spec("ca", rows=i, rename=dict(b1=a, b2=b)) for i, (a, b) in enumerate(pats)]
    for i, (s, (a, b)) in enumerate(zip(members, pats)):
        s.values = {p: .3 - .17 * i - .11 * j for j, p in enumerate(dict.fromkeys((a, b)))}
    g = ModelGroup([build(s, eng) for s in members])
    val = join(members)
    compare(g, members, val, rec, f"sharing:{eng}", (), str(task), sums(members, nullvals(val))["ll"])
    rec.eval(task); rec.state(task); rec.trace()


names = [(a, b) for a in "pqr" for b in "pqr"]
CK.section("sharing", [(p, "legacy") for k in (2, 3) for p in itertools.product(names, repeat=k)] + [(p, "numba") for p in itertools.product(names, repeat=2)], sharing,
           group=lambda t: t[0] if t[1] == "legacy" else t[0][0])


# ------------------------------------------------------------ histories
def history(task, rec):
    eng, kinds, seq = task
    members = [POOL[k]() for k in kinds]
    for i, s in enumerate(members): s.values = {p: v * (1 - .25 * i) for p, v in s.values.items()}
    ms = [build(s, eng) for s in members]
    g = ModelGroup(ms)
    val = join(members)
    g.unmangle()
    nulls = nullvals(val)
    inits = dict(g.pf.initvalue)
    best = [-np.inf, None]
    g.loglike()
    if "null-first" in seq: g.loglike_null()

    def seen():
        ll = sums(members, val)["ll"] if members else 0.
        if ll > best[0] + 1e-10: best[:] = [ll, dict(val)]

    def fresh(): best[:] = [-np.inf, None]
    seen()
    for i, op in enumerate(seq):
        msg = f"{eng} {kinds} after {seq[:i + 1]}"
        if op == "set":
            p = list(g.pf.index)[0]; val[p] = .31 + .1 * i; g.set_value(p, val[p])
        elif op == "set-last":
            p = list(g.pf.index)[-1]; val[p] = .42 - .1 * i; g.set_value(p, val[p])
        elif op == "dict":
            d = {p: val[p] * .5 + .07 * j for j, p in enumerate(val)}
            val.update(d); g.set_values(d)
        elif op == "kw":
            val["b1"] = -.15; g.set_values(b1=-.15)
        elif op == "vector":
            d = [val[p] * .8 + .03 * j for j, p in enumerate(g.pf.index)]
            val.update(zip(g.pf.index, d)); g.set_values(d)
        elif op == "x":
            d = [val[p] * .9 + .02 * j for j, p in enumerate(g.pf.index)]
            val.update(zip(g.pf.index, d)); g.loglike2(d); seen()
        elif op == "null":
            g.set_values("null"); val.update({p: nulls[p] for p in val})
        elif op == "init":
            v = dict(g.pf.initvalue); g.set_values("init"); val.update(v)
        elif op == "best":
            g.loglike()   # (the log likelihood at the current values, of the current members)
            seen()
            g.set_values("best")
            val = {**val, **best[1]}
        elif op == "null-ll":
            rec.expect(close(g.loglike_null(), sums(members, {p: nulls[p] for p in val})["ll"], rtol=1e-8), f"null-ll:{eng}", lambda: msg)
            nv = {p: nulls[p] for p in val}
            keep, val = val, nv
            seen()
            val = keep
        elif op == "member-set":
            if members: g[0].set_value("b1", 7.); g[0].loglike()
        elif op == "member-values":
            if members: g[-1].set_values({p: .9 for p in g[-1].pf.index})
        elif op == "member-ll":
            if members: g[0].loglike(); g[-1].d_loglike()
        elif op in ("append", "insert0", "replace"):
            s = POOL["qs" if op == "append" else "co"]()
            s.values = {p: v + .2 for p, v in s.values.items()}
            m = build(s, eng)
            if op == "append": g.append(m); members.append(s)
            elif op == "insert0": g.insert(0, m); members.insert(0, s)
            elif members: g[-1] = m; members[-1] = s
            else: continue
            for q in members:
                for p, v in q.values.items():
                    if p not in val: val[p] = v
            nulls = nullvals(val)
            fresh()
        elif op == "del0" and len(members) > 1: del g[0]; del members[0]; fresh()
        elif op == "del-1" and len(members) > 1: del g[-1]; del members[-1]; fresh()
        elif op == "twice": g.append(g[0]); members.append(members[0]); fresh()
        elif op == "edit" and members:     # a new term in a member
            if eng == "legacy":
                s = members[0]; s = members[0] = __import__("copy").copy(s)
                for j in range(1, len(members)):
                    if g[j] is g[0]: members[j] = s
                s.values = {**s.values, "knew": val.get("knew", 0.)}
                if s.ca:
                    s.ca = [*s.ca, ("knew", s.ca[0][1], 2)]
                    g[0].utility_ca = g[0].utility_ca + P.knew * X(s.ca[0][1]) * 2
                else:
                    s.co = dict(s.co); s.co[3] = [*s.co.get(3, []), ("knew", "1", 1)]
                    g[0].utility_co[3] = _lin(s.co[3])
                val.setdefault("knew", 0.)
                nulls = nullvals(val)
                fresh()
        elif op == "mangle": g.mangle(); fresh()
        elif op == "lock": pass
        rec.step()
        got = g.loglike()
        ll = sums(members, val)["ll"]
        if not close(got, ll, rtol=1e-8):
            rec.violation(f"loglike:{eng}:{op}", f"{msg}: the group's log likelihood is {got}, the members sum to {ll}; group values {dict(g.pf.value)}, expected {val}")
            return
        seen()
        rec.state((tuple(sorted(val.items())), len(members)))
        if abs(g._get_cached_loglike_values()["best"] - best[0]) > 1e-8: rec.violation(f"best:{eng}:{op}", f"{msg}: best log likelihood {g._get_cached_loglike_values()['best']}, best evaluated so far {best}")
    compare(g, members, val, rec, f"history:{eng}:{seq[-1]}", (), f"{eng} {kinds} {seq}", sums(members, nullvals(val))["ll"])
    rec.eval(task); rec.trace()


OPS = ["set", "set-last", "dict", "kw", "vector", "x", "null", "init", "best", "null-ll", "member-set", "member-values", "member-ll", "append", "insert0", "replace", "del0", "del-1", "twice", "edit", "mangle"]
CORE = ["set", "vector", "best", "null-ll", "member-set", "append", "replace", "del0", "twice", "edit"]
hist = [("legacy", k, s) for k in (("ca", "mix"), ("nl", "ca")) for n in ((1, 2, 3) if T else (1, 2)) for s in itertools.product(OPS, repeat=n)]
hist += [("legacy", ("ca", "mix"), s) for s in itertools.product(CORE, repeat=4 if T else 3)]
hist += [("numba", ("ca", "mix"), s) for n in ((1, 2, 3) if T else (1, 2)) for s in itertools.product(OPS if n < 3 else CORE, repeat=n)]
CK.section("history", hist, history, group=lambda t: t if t[0] == "legacy" else t[2][:1])

CK.finish()
