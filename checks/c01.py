"""C01: numba engine evaluates (nested) logit with size terms exactly as the theory says,
for every nesting structure / availability pattern / choice pattern / data layout within bounds."""
import itertools, sys, warnings
warnings.simplefilter("ignore")
import numpy as np
import vk.fast
import larch.numba as lx
from vk.harness import Check
from vk.choice import close
from vk import specs

CK = Check("C01", "model_checking",
           assumptions=["numeric agreement to 1e-9 relative (1e-6 where |utility| > 100)",
                        "numba kernels run single-threaded here; C05 covers schedules"],
           bounds=dict(alts="2-3 (4 in thorough)", nests="<=2 (3 in thorough), incl. unary/chained nests",
                       cases="every availability subset x available choice, split/multi/zero choices, empty choice set"))
T = CK.thorough


def compare(m, s, rec, tag, tol):
    r = s.evaluate()
    names = r["names"]
    pf = list(m.pf.index)
    rec.expect(set(pf) == set(names), f"param-set:{tag}", lambda: f"parameters {pf} vs {names}")
    ix = [pf.index(p) for p in names]
    free = [k for k, p in enumerate(names) if p not in s.holdfast]
    nodes = s.nodes()
    order = list(m.graph.standard_sort)
    col = [order.index(c) for c in nodes]
    na = len(s.alts)
    k = dict(rtol=tol, atol=tol * 0.01)
    # derivatives of log(P) are only representable while P itself is (P > 1e-250 in double precision)
    na_ = len(s.alts)
    chosen_p = np.where(s.ch > 0, r["P"][:, :na_], 1.0)
    dok = bool(chosen_p.min() > 1e-200)
    rec.count("gradients_compared" if dok else "gradients_skipped_underflow")

    def bad(what, got, want):
        rec.violation(f"{what}:{tag}", f"{what} differs from theory\n got={got}\nwant={want}")

    z = m.loglike2_bhhh()
    rec.step()
    g = np.asarray(z.dll)[ix]
    if not close(z.ll, r["ll"].sum(), **k): bad("loglike", z.ll, r["ll"].sum())
    if dok and not close(g[free], r["g"].sum(0)[free], rtol=tol * 100, atol=tol): bad("gradient", g[free], r["g"].sum(0)[free])
    b = np.asarray(z.bhhh)[np.ix_(ix, ix)][np.ix_(free, free)]
    if dok and not close(b, r["bhhh"].sum(0)[np.ix_(free, free)], rtol=tol * 100, atol=tol):
        bad("bhhh", b, r["bhhh"].sum(0)[np.ix_(free, free)])
    held = [k_ for k_ in range(len(names)) if k_ not in free]
    if held and (np.any(g[held]) or np.any(np.asarray(z.bhhh)[np.ix_(ix, ix)][held])): bad("held-gradient", g[held], 0)
    llc = np.array(m.loglike_casewise()); rec.step()
    if not close(llc, r["ll"], **k): bad("loglike_casewise", llc, r["ll"])
    gc = np.array(m.d_loglike_casewise())[:, ix]; rec.step()
    if dok and not close(gc[:, free], r["g"][:, free], rtol=tol * 100, atol=tol): bad("d_loglike_casewise", gc, r["g"])
    if held and np.any(gc[:, held]): bad("held-gradient-casewise", gc[:, held], 0)
    P = np.array(m.probability(include_nests=True)); rec.step()
    if not close(P[:, col], r["P"], **k): bad("probability", P[:, col], r["P"])
    pa = P[:, [order.index(a) for a in s.alts]]
    tot = pa.sum(1)
    hasav = np.array([(u > -np.inf) for u in r["U"][:, nodes.index(s.root)]])
    if not close(tot, hasav.astype(float), rtol=1e-9, atol=1e-9): bad("prob-sum", tot, hasav)
    if not np.all(pa[s.av == 0] == 0): bad("prob-unavailable", pa, s.av)
    U = np.array(m.utility()); rec.step()
    if not close(U[:, col], r["U"], **k): bad("utility", U[:, col], r["U"])
    ls = np.array(m.logsums()); rec.step()
    if not close(ls, r["U"][:, nodes.index(s.root)], **k): bad("logsums", ls, r["U"][:, nodes.index(s.root)])
    # the evaluation-order / aliasing angle: plain entry points again, after the others
    l1 = m.loglike(); d1 = np.array(m.d_loglike()); rec.step(2)
    if not close(l1, r["ll"].sum(), **k): bad("loglike-again", l1, r["ll"].sum())
    if dok and not close(d1[ix][free], r["g"].sum(0)[free], rtol=tol * 100, atol=tol): bad("d_loglike", d1, r["g"].sum(0))
    bh = np.array(m.bhhh()); rec.step()
    if not close(bh[np.ix_(ix, ix)][np.ix_(free, free)], b, rtol=1e-12, atol=1e-14): bad("bhhh()", bh, b)
    df = m.probability(return_dataframe="idco"); rec.step()
    if list(df.columns) != order[:na] or list(df.index) != sorted(s.caseids) and list(df.index) != list(s.caseids):
        bad("prob-labels", (list(df.columns), list(df.index)), (order[:na], s.caseids))
    dn = m.probability(return_dataframe="names")
    if list(dn.columns) != list(m.graph.standard_sort_names[:na]): bad("prob-names", list(dn.columns), m.graph.standard_sort_names)
    if s.q:
        q = np.array(m.quantity()); rec.step()
        # an available alternative with size zero and an unavailable one both report zero
        got = q[:, [order.index(a) for a in s.alts]]
        if not close(got, r["Q"], **k): bad("quantity", got, r["Q"])
    rec.outcome((tag, np.round(r["ll"].sum(), 6), tuple(np.round(pa.ravel(), 5))))
    rec.trace()


def run(task, rec):
    kw, fmt, choice, avail = task
    s = specs.make(**kw)
    m = s.numba_model(fmt, choice, avail)
    rec.state((fmt, choice, avail, sorted(kw.items(), key=str)))
    tol = {"huge": 1e-6, "hot": 1e-8}.get(kw.get("values"), 1e-9)
    if kw.get("struct") in ("q", "qs") and kw.get("values") == "huge":
        tol = 1e-5
    compare(m, s, rec, f"{fmt}/{kw['struct']}", tol)
    if rec.done < 1:
        rec.sample(dict(task=repr(task), ll=float(s.evaluate(grad=False)["ll"].sum())))


trees3 = specs.laminar_trees([1, 2, 3], 3 if T else 2)
trees3r = [t for t in specs.laminar_trees([1, 2, 3], 2, codes=(104, 103, 102)) if len(t) > 1]
trees2 = specs.laminar_trees([1, 2], 3)
trees4 = specs.laminar_trees([1, 2, 3, 4], 2 if T else 1)

tasks = []
for t in trees3 + trees3r:
    for st in ("mix", "ca", "q", "qs", "shared"):
        for v in ("gen", "hot") if not T else ("gen", "hot", "zero", "huge"):
            if not T and v == "hot" and st != "mix":
                continue
            tasks.append((dict(struct=st, nests=t, values=v, weights="w"), "ca", None, None))
    tasks.append((dict(struct="co", nests=t, values="gen", weights="w", multi=True), "co", "co", None))
    for st in ("mix", "q") if not T else ("mix", "q", "qs", "shared", "ca"):
        tasks.append((dict(struct=st, nests=t, values="gen", weights="w", empty=False), "ce", None, None))
for t in trees2 + trees4:
    tasks.append((dict(struct="mix", nests=t, values="gen", alts=(1, 2) if t in trees2 else (1, 2, 3, 4), weights="w"), "ca", None, None))
CK.section("structures", tasks, run, group=lambda t: (t[0]["struct"], t[1]))

# data layouts / choice and availability declarations x structures x weights x alternative codes
tasks = []
few = [[], [(101, [1, 2])], [(101, [2, 3]), (102, [1, 101])]]
recode = lambda t, mp: [(c, [mp.get(k, k) for k in kids]) for c, kids in t]
for t in few:
    for codes in ((1, 2, 3), (30, 10, 20), (7, 8, 60)):
        mp = dict(zip((1, 2, 3), codes))
        tt = recode(t, mp)
        for w in ("none", "w"):
            for v in ("gen", "zero", "huge"):
                for single in (True, False):
                    base = dict(nests=tt, values=v, weights=w, alts=codes, empty=False, multi=not single)
                    for choice in (("code", "co") if single else ("co",)):
                        for av in ("co",):
                            tasks.append((dict(base, struct="co"), "co", choice, av))
                    # data layouts that sort alternatives by code: give the spec in that order
                    sc = tuple(sorted(codes))
                    b2 = dict(base, alts=sc, nests=recode(t, dict(zip((1, 2, 3), sc))))
                    for choice in (("ca", "code", "co") if single else ("ca", "co")):
                        for av in ("ca", "co"):
                            tasks.append((dict(b2, struct="mix"), "ca", choice, av))
                    for st in ("mix", "q", "qs"):
                        tasks.append((dict(b2, struct=st), "ca-sparse", None, None))
                        tasks.append((dict(b2, struct=st), "ce", "ca", None))
                        tasks.append((dict(b2, struct=st), "ce-full", "ca", None))
                    for st in ("mix", "q"):
                        tasks.append((dict(b2, struct=st), "ce", "ca", "co"))
                        tasks.append((dict(b2, struct=st), "ce-full", "ca", "co"))
                        for f in ("ce-rev", "ce-alt", "ca-rev"):
                            tasks.append((dict(b2, struct=st), f, None, None))
if not T:
    tasks = [t for t in tasks if not (t[0]["values"] == "zero" and t[0]["weights"] == "none")]
CK.section("layouts", tasks, run, group=lambda t: (t[0]["struct"], t[1], tuple(t[0]["alts"])))

# every held-fast subset
tasks = []
for st, ps in (("mix", ["b1", "b2", "a2", "c2", "a3", "mu1"]), ("qs", ["b1", "a2", "c2", "g1", "g2", "theta", "mu1"]),
               ("shared", ["b1", "a2", "mu1"])):
    for r in range(len(ps) + 1):
        for h in itertools.combinations(ps, r):
            for fmt in ("ca", "ce"):
                tasks.append((dict(struct=st, nests=[(101, [1, 2])], values="gen", weights="w", holdfast=h,
                                   empty=False), fmt, None, None))
CK.section("holdfast", tasks, run, group=lambda t: (t[0]["struct"], t[1]))

# shared dissimilarity parameter across nests
tasks = [(dict(struct=st, nests=t, values=v, weights="none", musame=True), "ca", None, None)
         for t in trees3 if len(t) == 2 for st in ("mix", "qs") for v in ("gen", "hot")]
CK.section("shared-mu", tasks, run, group=lambda t: t[0]["struct"])

# one parameter in several roles; alternatives of size zero
tasks = []
for t in (trees3 if T else [[], [(101, [1, 2])], [(101, [1])], [(101, [1, 2]), (102, [3, 101])], [(101, [1, 2, 3])]]):
    for st in ("qq", "qx", "mux", "q0"):
        for v in ("gen", "hot"):
            for h in ((), ("g1",), ("theta",), ("mu1",), ("g2",)):
                if h and h[0] not in {"qq": ["g1"], "qx": ["g1", "theta"], "mux": ["g1", "mu1"], "q0": ["g2"]}[st]: continue
                tasks.append((dict(struct=st, nests=t, values=v, weights="w", holdfast=h), "ca", None, None))
                tasks.append((dict(struct=st, nests=t, values=v, weights="w", holdfast=h, empty=False), "ce", None, None))
CK.section("roles", tasks, run, group=lambda t: (t[0]["struct"], t[1]))
CK.finish()
