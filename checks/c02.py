"""C02: the Cython engine evaluates (nested) logit with size terms exactly as the theory says."""
import itertools, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
import larch
from vk.harness import Check
from vk.choice import close
from vk import specs

CK = Check("C02", "model_checking",
           assumptions=["numeric agreement to 1e-9 relative"],
           bounds=dict(alts="2-3 (4 in thorough)", nests="<=2 (3 in thorough), incl. unary/chained nests", threads="1 and 3",
                       cases="every availability subset x available choice, split/multi/zero choices, empty choice set"))
T = CK.thorough
ALL = larch.model.PERSIST_ALL
NPERM = [("b1", .44), ("mu1", .55)]


def compare(m, s, rec, tag, tol, fmt):
    r = s.evaluate()
    names = r["names"]
    pf = list(m.pf.index)
    rec.expect(set(pf) == set(names), f"param-set:{tag}", lambda: f"parameters {pf} vs {names}")
    ix = [pf.index(p) for p in names]
    free = [k for k, p in enumerate(names) if p not in s.holdfast]
    nodes = s.nodes()
    na = len(s.alts)
    order = list(m.graph.standard_sort)
    mnl = not s.nests
    k = dict(rtol=tol, atol=tol * 0.01)
    kg = dict(rtol=tol * 100, atol=tol)
    dok = float(np.where(s.ch > 0, r["P"][:, :na], 1.0).min()) > 1e-200
    wn = m.dataframes.weight_normalization
    cod = list(m.dataframes.alternative_codes())
    pa_ = [cod.index(a) for a in s.alts]
    col = [order.index(c) for c in nodes]

    def bad(what, got, want):
        rec.violation(f"{what}:{tag}", f"{what} differs from theory\n got={got}\nwant={want}")

    def chk(what, got, want, kk=k):
        if not close(got, want, **kk): bad(what, got, want)

    G, B = r["g"].sum(0), r["bhhh"].sum(0)
    z = m.loglike2_bhhh(persist=ALL); rec.step()
    chk("loglike", z.ll, r["ll"].sum())
    if dok:
        chk("gradient", np.asarray(z.dll)[ix][free], G[free], kg)
        chk("bhhh", np.asarray(z.bhhh)[np.ix_(ix, ix)][np.ix_(free, free)], B[np.ix_(free, free)], kg)
        chk("dll_casewise", np.asarray(z.dll_casewise)[:, ix][:, free], r["g"][:, free], kg)
        rec.expect(list(z.dll.index) == pf, f"dll-labels:{tag}", lambda: f"{list(z.dll.index)} {pf}")
    held = [k_ for k_ in range(len(names)) if k_ not in free]
    if held and (np.any(np.asarray(z.dll)[ix][held]) or np.any(np.asarray(z.bhhh)[np.ix_(ix, ix)][held])):
        bad("held-gradient", np.asarray(z.dll)[ix][held], 0)
    chk("ll_casewise", z.ll_casewise, r["ll"])
    chk("probability-persist", np.asarray(z.probability)[:, pa_], r["P"][:, :na])
    # second evaluation path without derivatives
    y = m.loglike(persist=ALL); rec.step()
    chk("loglike-noderiv", y.ll, r["ll"].sum())
    chk("ll_casewise-noderiv", y.ll_casewise, r["ll"])
    # without persistence: the same work is done in per-thread buffers
    chk("loglike-plain", m.loglike(), r["ll"].sum()); rec.step()
    y = m.loglike2(); rec.step()
    chk("loglike2", y.ll, r["ll"].sum())
    if dok: chk("loglike2-dll", np.asarray(y.dll)[ix][free], G[free], kg)
    y = m.loglike2_bhhh(); rec.step()
    chk("loglike2_bhhh", y.ll, r["ll"].sum())
    if dok:
        chk("loglike2_bhhh-dll", np.asarray(y.dll)[ix][free], G[free], kg)
        chk("loglike2_bhhh-bhhh", np.asarray(y.bhhh)[np.ix_(ix, ix)][np.ix_(free, free)], B[np.ix_(free, free)], kg)
        chk("d_loglike", np.asarray(m.d_loglike())[ix][free], G[free], kg); rec.step()
        chk("d_loglike_casewise", np.asarray(m.d_loglike_casewise())[:, ix][:, free] if hasattr(m, "d_loglike_casewise") else r["g"][:, free], r["g"][:, free], kg)
        chk("bhhh()", np.asarray(m.bhhh())[np.ix_(ix, ix)][np.ix_(free, free)], B[np.ix_(free, free)], kg)
    P = np.asarray(m.probability()); rec.step()
    chk("probability", P[:, pa_], r["P"][:, :na])
    hasav = r["U"][:, nodes.index(s.root)] > -np.inf
    chk("prob-sum", P.sum(1), hasav.astype(float), dict(rtol=1e-9, atol=1e-9))
    if not np.all(P[:, pa_][s.av == 0] == 0): bad("prob-unavailable", P, s.av)
    if not mnl:
        PN = np.asarray(m.probability(include_nests=True)); rec.step()
        chk("probability-nests", PN[:, col], r["P"])
    U = np.asarray(m.utility()); rec.step()
    chk("utility", U[:, pa_] if mnl else U[:, col], r["U"][:, :na] if mnl else r["U"])
    ls = np.asarray(m.logsums()); rec.step()
    chk("logsums", ls, r["U"][:, nodes.index(s.root)])
    if mnl:
        eu = np.asarray(m.exputility())
        chk("exputility", eu[:, pa_], np.exp(r["U"][:, :na]))
    df = m.probability(return_dataframe=True); rec.step()
    if list(df.columns) != cod or list(df.index) != list(s.caseids): bad("prob-labels", (list(df.columns), list(df.index)), (cod, s.caseids))
    dn = m.utility(return_dataframe="names")
    if list(dn.index) != list(s.caseids) or list(dn.columns)[:na] != [f"n{a}" for a in (cod if mnl else order[:na])]:
        bad("utility-names", (list(dn.columns), list(dn.index)), s.caseids)
    dp = None
    if dok and not s.holdfast and not mnl:
        dp = np.asarray(m.d_probability())
        # derivative of every alternative's probability by complex-step of the reference
        for i in range(s.n):
            for q, p in enumerate(names):
                v2 = dict(s.values); v2[p] = complex(v2[p], 1e-30)
                _, lp, _ = s.eval_case(i, v2)
                for j, a in enumerate(s.alts):
                    x = lp[a]
                    want = 0.0 if x is None else (np.exp(complex(x)).imag / 1e-30)
                    got = dp[i, order.index(a), ix[q]]
                    if not close(got, want, rtol=1e-7, atol=1e-9):
                        bad("d_probability", (i, a, p, got), want)
                        break
        rec.step()
    # evaluation at values given in the call
    for p, v in NPERM:
        if p in names and p not in s.holdfast:
            r2 = s.evaluate(dict(s.values, **{p: v}), grad=False)
            chk("utility(x)", np.asarray(m.utility(x={p: v}))[:, pa_ if mnl else [order.index(a) for a in s.alts]], r2["U"][:, :na])
            chk("loglike(x)", m.loglike(), r2["ll"].sum()); rec.step(2)
            r3 = s.evaluate(grad=False)
            chk("loglike(x back)", m.loglike({p: s.values[p]}), r3["ll"].sum()); rec.step()
    rec.outcome((tag, np.round(r["ll"].sum(), 6), tuple(np.round(r["P"][:, :na].ravel(), 5))))
    rec.trace()


def run(task, rec):
    kw, fmt, nthreads, scale = task
    s = specs.make(**kw)
    if not s.cox:       # this engine sizes constants from an idco table, so one must exist
        s.cox["zz"] = np.zeros(s.n)
    dfs = s.dataframes(fmt)
    m = s.legacy_model(fmt, dfs=dfs)
    m.n_threads = nthreads
    if scale:
        m.dataframes.autoscale_weights()
    rec.state((fmt, nthreads, scale, sorted(kw.items(), key=str)))
    tol = {"hot": 1e-8}.get(kw.get("values"), 1e-9)
    if scale: tol = max(tol, 1e-7)
    compare(m, s, rec, f"{fmt}/{kw['struct']}", tol, fmt)
    if rec.done < 1:
        rec.sample(dict(task=repr(task), ll=float(s.evaluate(grad=False)["ll"].sum())))


trees3 = specs.laminar_trees([1, 2, 3], 3 if T else 2)
trees3r = [t for t in specs.laminar_trees([1, 2, 3], 2, codes=(104, 103, 102)) if len(t) > 1]
trees2 = specs.laminar_trees([1, 2], 3)
trees4 = specs.laminar_trees([1, 2, 3, 4], 2 if T else 1)
tasks = []
for t in trees3 + trees3r:
    for st in ("mix", "ca", "q", "qs", "shared", "co"):
        for v in ("gen", "hot", "zero") if T else ("gen", "hot"):
            for fmt in ("ca", "ce"):
                if fmt == "ce" and st == "co": continue
                for nt in (1, 3) if (T or st == "mix") else (1,):
                    tasks.append((dict(struct=st, nests=t, values=v, weights="w", empty=(fmt == "ca")), fmt, nt, False))
for t in trees2 + trees4:
    tasks.append((dict(struct="mix", nests=t, values="gen", alts=(1, 2) if t in trees2 else (1, 2, 3, 4), weights="w"), "ca", 1, False))
CK.section("structures", tasks, run)

tasks = []
few = [[], [(101, [1, 2])], [(101, [2, 3]), (102, [1, 101])]]
recode = lambda t, mp: [(c, [mp.get(k, k) for k in kids]) for c, kids in t]
for t in few:
    for codes in ((1, 2, 3), (30, 10, 20), (7, 8, 60)):
        for w, sc in (("none", False), ("w", False), ("w", True)):
            for v in ("gen", "zero"):
                for st in ("mix", "q", "qs", "co", "ca", "shared"):
                    for fmt in ("ca", "ce"):
                        if fmt == "ce" and st == "co": continue
                        # idca / idce data carry alternatives sorted by code
                        cc = codes if st == "co" else tuple(sorted(codes))
                        tt = recode(t, dict(zip((1, 2, 3), cc)))
                        for cid in (None, "rev"):
                            n = len(specs.all_cases(3, False)[0])
                            ids = None if cid is None else [100 + 3 * i for i in range(n)]
                            tasks.append((dict(nests=tt, values=v, weights=w, alts=cc, empty=False, struct=st, caseids=ids), fmt, 1, sc))
CK.section("layouts", tasks, run)

tasks = []
for st, ps in (("mix", ["b1", "b2", "a2", "c2", "a3", "mu1"]), ("qs", ["b1", "a2", "c2", "g1", "g2", "theta", "mu1"]),
               ("shared", ["b1", "a2", "mu1"])):
    for r in range(len(ps) + 1):
        for h in itertools.combinations(ps, r):
            for t in ([(101, [1, 2])], []):
                if not t and "mu1" in h: continue
                for fmt in ("ca", "ce"):
                    tasks.append((dict(struct=st, nests=t, values="gen", weights="w", holdfast=h, empty=False), fmt, 2, False))
CK.section("holdfast", tasks, run)

tasks = [(dict(struct=st, nests=t, values=v, weights="none", musame=True), "ca", 1, False)
         for t in trees3 if len(t) == 2 for st in ("mix", "qs") for v in ("gen", "hot")]
CK.section("shared-mu", tasks, run)

# one parameter in several roles; alternatives of size zero
tasks = []
for t in (trees3 if T else [[], [(101, [1, 2])], [(101, [1])], [(101, [1, 2]), (102, [3, 101])], [(101, [1, 2, 3])]]):
    for st in ("qq", "qx", "mux", "q0"):
        for v in ("gen", "hot"):
            for h in ((), ("g1",), ("theta",), ("mu1",), ("g2",)):
                if h and h[0] not in {"qq": ["g1"], "qx": ["g1", "theta"], "mux": ["g1", "mu1"], "q0": ["g2"]}[st]: continue
                tasks.append((dict(struct=st, nests=t, values=v, weights="w", holdfast=h), "ca", 1, False))
                tasks.append((dict(struct=st, nests=t, values=v, weights="w", holdfast=h, empty=False), "ce", 1, False))
CK.section("roles", tasks, run)
CK.finish()
