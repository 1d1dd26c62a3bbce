"""C03: results depend on data content only - every row order, relabelling, layout, container, engine."""
import itertools, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
import xarray as xr
import larch
import vk.fast
import larch.numba as lx
from vk.harness import Check
from vk.choice import close, Spec
from vk import specs

CK = Check("C03", "model_checking",
           assumptions=["numeric agreement to 1e-9 relative"],
           bounds=dict(long="2 cases x 3 alternatives dense (720 row orders), 5 sparse rows (120), with a case of one row",
                       wide="4 cases (24 row orders), all column orders of 3 availability and choice columns",
                       parts="independent case order of each part of the container (2 cases: 2^5, 3 cases: 6^4, thorough 6^5)",
                       labels="every assignment of 2-3 cases and 3 alternatives to code sets of 4-5 values",
                       weights="integer weights 0..2 (0..3 thorough) on 3 cases"))
T = CK.thorough
W = [1.5, 0.5, 2.0, 3.0]


def spec2(alts=(1, 2, 3), caseids=(4, 9), sparse=False, nests="n", weights=True, struct="mix"):
    av = [[1, 1, 1], [1, 0, 1]] if sparse else [[1, 1, 1], [0, 1, 1]]
    ch = [[0, 1, 0], [0, 0, 1]]
    nn = {"n": [(101, [alts[1], alts[2]])], "": []}[nests]
    s = specs.make(struct, nests=nn, rows=(av, ch), alts=alts, caseids=list(caseids))
    if weights: s.wt = np.asarray(W[:2])
    if not s.cox: s.cox["inc"] = np.asarray([1.25, .5])
    return s


def spec3(alts=(1, 2, 3), caseids=(4, 9, 11), nests="n", n=3, struct="mix"):
    av = [[1, 1, 1], [1, 0, 1], [1, 1, 0], [0, 1, 1]][:n]
    ch = [[0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 0]][:n]
    nn = {"n": [(101, [alts[1], alts[2]])], "": []}[nests]
    s = specs.make(struct, nests=nn, rows=(av, ch), alts=alts, caseids=list(caseids)[:n])
    s.wt = np.asarray(W[:n])
    if not s.cox: s.cox["inc"] = np.asarray([1.25, .5, 2., 1.][:n])
    return s


def long(s, sparse):
    """one long table with every variable of the problem as a column"""
    df = s.frame_ca(sparse=sparse)
    co = s.frame_co()
    for k in list(s.cox) + (["wt_"] if s.wt is not None else []):
        df[k] = [co[k].loc[c] for c, _ in df.index]
    return df


def verify(m, s, rec, tag, engine, names=None):
    """compare everything by case id, alternative id and parameter name with the reference of s"""
    r = s.evaluate()
    k = dict(rtol=1e-9, atol=1e-11)
    na = len(s.alts)
    if engine == "numba":
        z = m.loglike2_bhhh()
        P = m.probability(return_dataframe="idco")
        llc = np.asarray(m.loglike_casewise())
        ids = list(m.dataset.coords[m.dataset.dc.CASEID].values)
    elif engine == "lxdf":
        z = m.loglike2_bhhh()
        ids = list(m.dataframes.caseindex)
        order = list(m.graph.standard_sort)
        P = pd.DataFrame(np.array(m.probability()), index=ids, columns=order[:na])
        llc = np.asarray(m.loglike_casewise())
    else:
        z = m.loglike2_bhhh(persist=larch.model.PERSIST_ALL)
        P = m.probability(return_dataframe=True)
        llc = z.ll_casewise
        ids = list(m.dataframes.caseindex)
        llc = np.asarray(llc)
    rec.step(3)
    rec.trace()
    pf = list(m.pf.index)
    if not rec.expect(set(pf) == set(r["names"]), f"params:{tag}", lambda: f"{pf} vs {r['names']}"): return
    if not rec.expect(sorted(ids) == sorted(s.caseids) and sorted(P.index) == sorted(s.caseids), f"case-labels:{tag}",
                      lambda: f"{ids} {list(P.index)} vs {s.caseids}"): return
    if names is not None:
        if not rec.expect(set(P.columns) == set(s.alts), f"alt-labels:{tag}", lambda: f"{list(P.columns)} vs {s.alts}"): return
    ix = [pf.index(p) for p in r["names"]]
    rec.expect(close(z.ll, r["ll"].sum(), **k), f"loglike:{tag}", lambda: f"{z.ll} vs {r['ll'].sum()}")
    rec.expect(close(np.asarray(z.dll)[ix], r["g"].sum(0), rtol=1e-7, atol=1e-9), f"gradient:{tag}",
               lambda: f"{np.asarray(z.dll)[ix]} vs {r['g'].sum(0)}")
    rec.expect(close(np.asarray(z.bhhh)[np.ix_(ix, ix)], r["bhhh"].sum(0), rtol=1e-7, atol=1e-9), f"bhhh:{tag}",
               lambda: f"{np.asarray(z.bhhh)[np.ix_(ix, ix)]} vs {r['bhhh'].sum(0)}")
    got = [llc[ids.index(c)] for c in s.caseids]
    rec.expect(close(got, r["ll"], **k), f"loglike_casewise:{tag}", lambda: f"ids={ids} {got} vs {r['ll']}")
    pp = P.loc[s.caseids, s.alts].values
    rec.expect(close(pp, r["P"][:, :na], **k), f"probability:{tag}", lambda: f"{P}\nvs\n{r['P'][:, :na]} ids {s.caseids} alts {s.alts}")
    rec.outcome((tag, tuple(np.round(np.asarray(z.dll)[ix], 9)), tuple(np.round(pp.ravel(), 9))))


def numba_from(ds, s, choice="ca", avail="ca", fmt="ca"):
    m = lx.Model(ds)
    s.apply_structure(m, choice, avail, fmt)
    s.add_nests(m)
    m.unmangle()
    s.set_params(m)
    return m


# ------------------------------------------------------------ long tables, every row order, Dataset
CON = {
    "idca": lambda d: lx.Dataset.construct.from_idca(d),
    "idca-nocrack": lambda d: lx.Dataset.construct.from_idca(d, crack=False),
    "idca-fill": lambda d: lx.Dataset.construct.from_idca(d, fill_missing=0),
    "idce": lambda d: lx.Dataset.construct.from_idce(d),
    "idce-nocrack": lambda d: lx.Dataset.construct.from_idce(d, crack=False),
}


def long_ds(task, rec):
    con, sparse, perm, nests, struct = task
    s = spec2(sparse=sparse, nests=nests, struct=struct)
    df = long(s, sparse).iloc[list(perm)]
    keep = df.copy(deep=True)
    if con in ("idca-nocrack", "idce-nocrack"):
        # variables of the case stay in the long table; merge a wide table for the idco terms
        co = s.frame_co().iloc[::-1] if perm[0] % 2 else s.frame_co()
        ds = CON[con](df.drop(columns=list(s.cox) + ["wt_"]))
        for k in list(s.cox) + ["wt_"]:
            ds[k] = xr.DataArray(co[k].values, dims="caseid", coords={"caseid": co.index.values}).reindex(caseid=ds.coords["caseid"])
    else:
        ds = CON[con](df)
    rec.state(("long", task))
    av = ("_avail_" if con == "idca-fill" else "1") if sparse else "av_"
    m = lx.Model(ds)
    s.apply_structure(m, "ca", None)
    m.availability_var = av
    s.add_nests(m); m.unmangle(); s.set_params(m)
    verify(m, s, rec, f"{con}/{'sparse' if sparse else 'dense'}", "numba", True)
    rec.expect(df.equals(keep) and df.index.equals(keep.index), f"input-modified:{con}", "the input table was modified")


perms6 = list(itertools.permutations(range(6)))
perms5 = list(itertools.permutations(range(5)))
tasks = []
for con in ("idca", "idca-nocrack", "idce", "idce-nocrack"):
    step = 1 if T or con in ("idce", "idca") else 4
    tasks += [(con, False, p, "n", "mix") for p in perms6[::step]]
for con in ("idca-fill", "idce", "idce-nocrack"):
    tasks += [(con, True, p, nn, "mix") for p in perms5 for nn in (("n", "") if T else ("n",))]
tasks += [(con, True, p, "n", "q") for p in perms5 for con in ("idca-fill", "idce")]
CK.section("long-dataset", tasks, long_ds, group=lambda t: (t[0], t[1], t[4], t[2][0] % 2))


# ------------------------------------------------------------ DataFrames, every row order of the long part
def frames(s, fmt, po=None, pc=None, pch=None, pav=None, pwt=None, avcols=None, chcols=None):
    i = lambda p: list(range(s.n)) if p is None else list(p)
    base = s.dataframes(fmt)      # proves the sorted version is accepted
    cid = pd.Index(s.caseids, name="caseid")
    av = pd.DataFrame(s.av.astype(np.int8), index=cid, columns=s.alts).iloc[i(pav)]
    ch = pd.DataFrame(s.ch, index=cid, columns=s.alts).iloc[i(pch)]
    co = pd.DataFrame({k: v for k, v in s.cox.items()}, index=cid).iloc[i(pc)]
    kw = dict(co=co, ch=ch, av=av, alt_codes=s.alts, alt_names=[f"n{a}" for a in s.alts])
    if avcols is not None: kw["av"] = av.iloc[:, list(avcols)]
    if chcols is not None: kw["ch"] = ch.iloc[:, list(chcols)]
    if s.wt is not None: kw["wt"] = pd.Series(s.wt, index=cid).iloc[i(pwt)]
    if fmt in ("ca", "ce"):
        d = s.frame_ca(sparse=(fmt == "ce"))[list(s.cax)]
        kw[fmt] = d if po is None else d.iloc[list(po)]
    return kw


def dfs_task(task, rec):
    fmt, eng, n, sparse, kw, struct = task
    s = spec2(sparse=sparse, struct=struct) if n == 2 else spec3(n=n, struct=struct)
    kk = frames(s, fmt, **kw)
    kept = {k: v.copy(deep=True) for k, v in kk.items() if hasattr(v, "copy") and not isinstance(v, list)}
    dfs = larch.DataFrames(**kk)
    rec.state(("dfs", task))
    m = s.legacy_model("co" if fmt == "co" else fmt, lx.Model if eng == "lxdf" else larch.Model, dfs=dfs)
    verify(m, s, rec, f"dfs-{fmt}/{eng}", eng, True)
    for k, v in kept.items():
        rec.expect(v.equals(kk[k]) and v.index.equals(kk[k].index), f"input-modified:dfs-{k}", "the caller's table was modified")


tasks = []
for eng in ("legacy", "lxdf"):
    for p in perms6[::1 if T or eng == "legacy" else 3]:
        tasks.append(("ca", eng, 2, False, dict(po=p), "mix"))
    for p in perms5:
        tasks.append(("ce", eng, 2, True, dict(po=p), "mix"))
        if eng == "legacy" or T: tasks.append(("ce", eng, 2, True, dict(po=p), "qs"))
    P2 = list(itertools.permutations(range(2)))
    for fmt, po in (("ca", [(0, 1, 2, 3, 4, 5), (3, 4, 5, 0, 1, 2)]), ("ce", [(0, 1, 2, 3, 4), (3, 4, 0, 1, 2)]), ("co", [None])):
        for o, *q in itertools.product(po, P2, P2, P2, P2):
            tasks.append((fmt, eng, 2, fmt == "ce", dict(po=o, pc=q[0], pch=q[1], pav=q[2], pwt=q[3]), "co" if fmt == "co" else "mix"))
    P3 = list(itertools.permutations(range(3)))
    for q in itertools.product(P3, P3, P3, P3):
        if eng == "lxdf" and not T and not (q[0] == P3[0] or q[1] == P3[0]): continue
        tasks.append(("co", eng, 3, False, dict(pc=q[0], pch=q[1], pav=q[2], pwt=q[3]), "co"))
    for a in P3:
        for fmt, st in (("ca", "mix"), ("ce", "mix"), ("co", "co")):
            for b in P3:
                tasks.append((fmt, eng, 3, False, dict(avcols=a, pav=b), st))
    if T:
        rows = lambda p: tuple(3 * i + j for i in p for j in range(3))
        for q in itertools.product(P3, P3, P3, P3, P3):
            tasks.append(("ca", eng, 3, False, dict(po=rows(q[4]), pc=q[0], pch=q[1], pav=q[2], pwt=q[3]), "mix"))
CK.section("dataframes", tasks, dfs_task)


# ------------------------------------------------------------ wide tables
def wide(task, rec):
    perm, colperm, choice, altsperm = task
    s = spec3(n=4, caseids=(4, 9, 11, 30), struct="co")
    co = s.frame_co().iloc[list(perm)]
    if colperm is not None:
        cols = list(co.columns)
        co = co[[cols[i] for i in colperm]]
    al = [s.alts[i] for i in altsperm]
    ds = lx.Dataset.construct.from_idco(co, alts={a: f"n{a}" for a in al})
    rec.state(("wide", task))
    m = numba_from(ds, s, choice, "co", "co")
    verify(m, s, rec, f"idco/{choice}", "numba", True)
    nm = m.probability(return_dataframe="names")
    rec.expect(set(nm.columns) == {f"n{a}" for a in al} and
               all(close(nm[f"n{a}"].loc[s.caseids].values, m.probability(return_dataframe="idco")[a].loc[s.caseids].values) for a in al),
               "alt-names", lambda: f"{nm}")


tasks = [(p, None, c, a) for p in itertools.permutations(range(4)) for c in ("code", "co")
         for a in (itertools.permutations(range(3)) if (T or p[0] in (0, 3)) else [(0, 1, 2)])]
CK.section("wide-dataset", tasks, wide, group=lambda t: (t[2], t[3]))


# ------------------------------------------------------------ relabelling of cases and alternatives
CASES = [3, 1, 40, 1000, 0]
ALTS = [1, 2, 7, 60, 1234]


def relabel(task, rec):
    kind, ids, alts = task
    rec.state(("relabel", task))
    if kind == "idco":
        s = spec3(alts=alts, caseids=ids, struct="co")
        ds = lx.Dataset.construct.from_idco(s.frame_co(), alts={a: f"n{a}" for a in s.alts})
        verify(numba_from(ds, s, "code", "co", "co"), s, rec, "relabel-idco", "numba", True)
    elif kind in ("idca", "idce"):
        s = spec3(alts=alts, caseids=ids)
        df = long(s, kind == "idce")
        ds = CON[kind](df)
        m = lx.Model(ds)
        s.apply_structure(m, "ca", None)
        m.availability_var = "1" if kind == "idce" else "av_"
        s.add_nests(m); m.unmangle(); s.set_params(m)
        verify(m, s, rec, f"relabel-{kind}", "numba", True)
    elif kind in ("names", "names-given"):
        # alternatives identified by text in the long table; codes 1.. are assigned in sorted (or given) order
        s = spec3(alts=(1, 2, 3), caseids=ids)
        df = long(s, False)
        lab = dict(zip(s.alts, alts))
        df.index = pd.MultiIndex.from_tuples([(c, lab[a]) for c, a in df.index], names=df.index.names)
        kw = {}
        order = sorted(alts)
        if kind == "names-given":
            order = list(alts)[::-1]
            kw["altnames"] = order
        keep = df.copy(deep=True)
        ds = lx.Dataset.construct.from_idca(df, **kw)
        rec.expect(df.index.equals(keep.index), "input-modified:idca-names", lambda: f"{df.index} vs {keep.index}")
        # the same problem, with the codes assigned by larch
        codes = tuple(order.index(lab[a]) + 1 for a in s.alts)
        s2 = spec3(alts=codes, caseids=ids)
        m = lx.Model(ds)
        s2.apply_structure(m, "ca", "ca")
        s2.add_nests(m); m.unmangle(); s2.set_params(m)
        verify(m, s2, rec, f"relabel-{kind}", "numba", True)
        nm = m.probability(return_dataframe="names")
        want = s2.evaluate(grad=False)["P"]
        for j, a in enumerate(s2.alts):
            rec.expect(close(nm[lab[s.alts[j]]].loc[s2.caseids].values, want[:, j]), f"alt-names:{kind}",
                       lambda: f"{nm} vs {want[:, :3]} {lab}")
    else:
        fmt, eng = kind
        s = spec3(alts=alts, caseids=ids, struct="co" if fmt == "co" else "mix")
        m = s.legacy_model(fmt, lx.Model if eng == "lxdf" else larch.Model)
        verify(m, s, rec, f"relabel-dfs-{fmt}/{eng}", eng, True)


tasks = []
cases = list(itertools.permutations(CASES, 3))
altsets = list(itertools.permutations(ALTS, 3))
for kind in ("idco", "idca", "idce", ("co", "legacy"), ("ca", "legacy"), ("ce", "legacy"), ("co", "lxdf"), ("ce", "lxdf")):
    for c in cases:
        tasks.append((kind, c, (2, 7, 60)))
    # containers with long tables carry alternatives in code order
    sort_ = kind != "idco" and (not isinstance(kind, tuple) or kind[0] != "co")
    for a in altsets:
        if sort_ and isinstance(kind, tuple) and tuple(sorted(a)) != a: continue
        if kind == "idco" and not T and a not in altsets[::4]: continue
        if kind == "idco" or isinstance(kind, tuple):
            tasks.append((kind, (4, 9, 11), a))
        else:
            tasks.append((kind, (4, 9, 11), a))
for kind in ("names", "names-given"):
    for a in itertools.permutations(["car", "bus", "Walk", "a b"], 3):
        tasks.append((kind, (4, 9, 11), a))
if T:
    for kind in ("idca", "idce", ("ca", "legacy"), ("ce", "legacy")):
        tasks += [(kind, c, tuple(sorted(a))) for c in cases for a in itertools.combinations(ALTS, 3)]
CK.section("relabel", tasks, relabel, group=lambda t: (t[0], t[2] if t[0] == "idco" else 0))


# ------------------------------------------------------------ integer weights are replication
def replicate(task, rec):
    w, kind, nests = task
    rec.state(("weights", task))
    s = spec3(nests=nests, struct="co" if kind in ("idco", ("co", "legacy")) else "mix")
    s.wt = np.asarray(w, float)
    rep = [i for i, x in enumerate(w) for _ in range(x)]
    d = Spec(s.alts, s.nests, s.ca, s.co, s.q, s.qscale, {k: v[rep] for k, v in s.cax.items()},
             {k: v[rep] for k, v in s.cox.items()}, s.av[rep], s.ch[rep], None, s.values, (), list(range(500, 500 + len(rep))))
    res = []
    for q in (s, d):
        if kind == "idco":
            m = numba_from(q.dataset("co"), q, "code", "co", "co")
        elif kind in ("idca", "idce"):
            m = q.numba_model({"idca": "ca", "idce": "ce"}[kind])
        else:
            m = q.legacy_model(kind[0])
        z = m.loglike2_bhhh()
        rec.step()
        pf = list(m.pf.index)
        ix = [pf.index(p) for p in s.params()]
        res.append((z.ll, np.asarray(z.dll)[ix], np.asarray(z.bhhh)[np.ix_(ix, ix)]))
    rec.trace()
    for what, a, b in zip(("loglike", "gradient", "bhhh"), *res):
        rec.expect(close(a, b, rtol=1e-9, atol=1e-10), f"replication-{what}:{kind}", lambda: f"weights {w}: {a} vs replicated {b}")
    rec.outcome((kind, round(float(res[0][0]), 9)))


tasks = [(w, kind, nests) for w in itertools.product(range(4 if T else 3), repeat=3) if sum(w)
         for kind in ("idco", "idca", "idce", ("co", "legacy"), ("ca", "legacy"), ("ce", "legacy")) for nests in ("n", "")
         # an alternative that appears in no row of a sparse table is not in the data at all
         if kind not in ("idce", ("ce", "legacy")) or sum(x > 0 for x in w) > 1]
CK.section("replication", tasks, replicate, group=lambda t: t[1])
CK.finish()
