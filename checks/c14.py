"""C14: dataset construction and reshaping keep every value at its coordinates."""
import itertools, math, sys, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
import xarray as xr
import vk.fast
import larch.numba as lx
import larch
from larch.dataset import Dataset, DataTree, merge, choice_avail_summary
from larch.dataset.flow import case_ptr_to_indexes, ce_dissolve_zero_variance
from larch.numba.data_arrays import ce_to_dense, ce_bool_to_dense
from vk.harness import Check

CK = Check("C14", "model_checking",
           assumptions=["values of absent rows are only specified where a fill value, a flag or an integer or boolean type (zero) says so",
                        "missing values inside present rows are outside"],
           bounds=dict(tables="every set of present rows of 3 cases by 3 alternatives, in up to 6 (thorough 24) row orders, 5 column types, integer and text alternatives, unused index levels",
                       kernels="every row count 0..2 of up to 4 cases, every order of alternatives, both forms of case pointers, every value pattern over two values",
                       selection="every subset of cases of co, ca and ce datasets and trees", merge="every combination of the join and compatibility options over every pair of small overlapping tables"))
T = CK.thorough
CASES, ALTS = (7, 3, 11), (20, 5, 9)
FULL = [(c, a) for c in CASES for a in ALTS]


def patterns(n=9):
    for k in range(1, n + 1):
        yield from itertools.combinations(range(9), k)


def orders(rows):
    n = len(rows)
    full = list(itertools.permutations(range(n))) if n <= 3 else None
    if full: return full[:None if T else 6]
    r = list(range(n))
    out = [r, r[::-1], r[1::2] + r[::2], sorted(r, key=lambda i: (FULL[rows[i]][1], FULL[rows[i]][0])), sorted(r, key=lambda i: FULL[rows[i]]), sorted(r, key=lambda i: (-FULL[rows[i]][0], FULL[rows[i]][1]))]
    if T: out += [r[k:] + r[:k] for k in range(1, n)] + [r[k::] [::-1] + r[:k] for k in range(1, n)]
    return [tuple(o) for o in out]


def val(kind, c, a):
    i, j = CASES.index(c), ALTS.index(a)
    return {"x": 1.5 + 3.25 * i + .125 * j + i * j, "n": 10 * (i + 1) + j, "b": bool((i + j) % 2), "k": 123456789.7 * (i + 1) / 3, "m": 5 + 2 * i, "t": (1 + i) * 1e-13 * (j + 1), "s": f"v{i}{j}"}[kind]


KINDS = ("x", "n", "b", "k", "m", "t")
DT = dict(x=np.float64, n=np.int64, b=np.bool_, k=np.float64, m=np.int64, t=np.float64)


def table(rows, order, alts="int", index="tuples", text=False):
    keys = [FULL[rows[i]] for i in order]
    name = {20: "twenty", 5: "five", 9: "nine"}
    if index == "unnamed":
        df = pd.DataFrame({k: [val(k, c, a) for c, a in keys] for k in KINDS}, index=pd.MultiIndex.from_tuples(keys))
    elif index == "unused":        # a table sliced from a larger one keeps the labels no row has
        mi = pd.MultiIndex.from_tuples(FULL, names=["cid", "aid"])
        df = pd.DataFrame({k: [val(k, c, a) for c, a in FULL] for k in KINDS}, index=mi)
        df = df.iloc[[rows[i] for i in order]]
    else:
        mi = pd.MultiIndex.from_tuples(keys, names=["cid", "aid"])
        df = pd.DataFrame({k: [val(k, c, a) for c, a in keys] for k in KINDS}, index=mi)
    if text: df["s"] = [val("s", c, a) for c, a in keys]
    if alts == "str":
        df.index = df.index.set_levels([name[i] for i in df.index.levels[1]], level=1)
    return df, keys


def constant(kind, keys):
    d = {}
    for c, a in keys: d.setdefault(c, set()).add(val(kind, c, a))
    return all(len(v) == 1 for v in d.values())


def same(a, b):
    return (a == b) or (a != a and b != b)


# ------------------------------------------------------------ 1 dense from long tables
OPTS = [dict(), dict(crack=False), dict(fill_missing=-3), dict(crack=False, fill_missing=-3), dict(crack=False, fill_missing={"x": 9.5, "n": 8}), dict(crack=False, fill_missing={np.dtype("float64"): 4.5}),
        dict(crack=False, avail="ok", fill_missing=7), dict(avail="ok"), dict(crack=False, fill_missing={"x": 2., np.dtype("int64"): -1})]


def idca(task, rec):
    rows, index, alts, oi = task
    opt = OPTS[oi]
    for order in orders(rows):
        df, keys = table(rows, order, alts, index)
        before = df.copy()
        tag = f"{index}:{alts}"
        msg = f"rows {keys} ({index} index, {alts} alternatives), from_idca({opt})"
        try:
            ds = Dataset.construct.from_idca(df, **opt)
        except Exception as e:
            rec.violation(f"raises:idca:{tag}:{type(e).__name__}", f"{msg}: {e!r}"); return
        if not (df.equals(before) and df.index.equals(before.index) and list(df.index.get_level_values(1)) == list(before.index.get_level_values(1))):
            rec.violation("input:idca", f"{msg} changed the table it was given")
        cs = sorted({c for c, a in keys})
        lab = {20: "twenty", 5: "five", 9: "nine"}
        if alts == "str":
            lv = sorted({lab[a] for _, a in keys})
            code = {a: lv.index(lab[a]) + 1 for _, a in keys}
        else:
            code = {a: a for _, a in keys}
        if sorted(ds[ds.dc.CASEID].values) != cs or sorted(ds[ds.dc.ALTID].values) != sorted(set(code.values())) or ds.dc.n_cases != len(cs) or ds.dc.n_alts != len(set(code.values())):
            rec.violation(f"coords:idca:{tag}", f"{msg}: cases {ds[ds.dc.CASEID].values}, alternatives {ds[ds.dc.ALTID].values}"); return
        if alts == "str":
            want = {code[a]: lab[a] for _, a in keys}
            if ds.dc.alts_mapping != want: rec.violation("names:idca", f"{msg}: the alternatives are {ds.dc.alts_mapping}, expected {want}")
        elif ds.dc.alts_mapping != {a: a for a in code}: rec.violation("names:idca", f"{msg}: {ds.dc.alts_mapping}")
        av = opt.get("avail", "_avail_")
        sparse = len(keys) < len(cs) * len(code)
        if (av in ds) != sparse: rec.violation(f"avail:idca:{tag}", f"{msg}: availability {'missing' if sparse else 'present'}"); return
        fm = opt.get("fill_missing")
        for k in KINDS:
            v = ds[k]
            const = constant(k, keys) and opt.get("crack", True)
            if (ds.dc.ALTID not in v.dims) != const:
                rec.violation(f"crack:{k}:{tag}", f"{msg}: {k} {'is constant' if const else 'varies'} within cases, but has dimensions {v.dims}"); continue
            if v.dtype != DT[k] and not (fm is not None and sparse): rec.violation(f"dtype:{k}", f"{msg}: {k} has type {v.dtype}")
            for c in cs:
                for a in code:
                    got = v.sel({ds.dc.CASEID: c}) if const else v.sel({ds.dc.CASEID: c, ds.dc.ALTID: code[a]})
                    got = got.item()
                    if (c, a) in keys or const:
                        want = val(k, c, a) if (c, a) in keys else val(k, c, next(y for x, y in keys if x == c))
                        if got != want: rec.violation(f"value:{k}:{tag}", f"{msg}: {k} of case {c} alternative {a} is {got}, expected {want}"); return
                    else:
                        if isinstance(fm, dict): f = fm.get(k, fm.get(np.dtype(DT[k]), None))
                        else: f = fm
                        if f is None: f = math.nan if DT[k] is np.float64 else 0
                        if not same(got, f): rec.violation(f"absent:{k}:{tag}", f"{msg}: {k} of the absent row of case {c}, alternative {a} is {got}, expected {f}"); return
        if sparse:
            for c in cs:
                for a in code:
                    if ds[av].sel({ds.dc.CASEID: c, ds.dc.ALTID: code[a]}).item() != ((c, a) in keys):
                        rec.violation(f"avail:idca:{tag}", f"{msg}: {av} of case {c}, alternative {a} is {ds[av].values}"); return
        rec.step()
        rec.trace()
        rec.state((task, order))
    rec.eval(task)
    rec.outcome((len(keys), sparse, oi))


P = list(patterns())
tasks = [(p, "tuples", "int", o) for p in P for o in range(len(OPTS)) if T or len(p) in (1, 2, 9) or (o in (2, 3) and len(p) == 3) or (o == 4 and len(p) == 8)]
tasks += [(p, i, a, o) for p in P if T or len(p) in (1, 2, 7, 9) for i, a in (("unused", "int"), ("unnamed", "int"), ("tuples", "str"), ("unused", "str")) for o in ((0, 1, 3) if T else (3,))]
CK.section("idca", tasks, idca)


# ------------------------------------------------------------ 2 sparse from long tables
EOPT = [dict(), dict(crack=False), dict(case_index="ci"), dict(crack=False, case_index="ci", alt_index="ai", dim_name="row", case_pointer="ptr")]


def rows_of(ds):
    """(case, alt) of each sparse row by its pointers and alternative positions"""
    ptr = ds[ds.dc.CASEPTR].values
    cid, aid = ds[ds.dc.CASEID].values, ds[ds.dc.ALTID].values
    ai = ds[ds.dc.ALTIDX].values
    return [(int(cid[c]), int(aid[ai[r]])) for c in range(len(cid)) for r in range(ptr[c], ptr[c + 1])]


def check_ce(rec, ds, keys, msg, tag, crack=None, kinds=KINDS):
    cs = sorted({c for c, a in keys})
    if list(ds[ds.dc.CASEID].values) != cs or ds.dc.n_cases != len(cs): rec.violation(f"coords:{tag}", f"{msg}: cases {ds[ds.dc.CASEID].values}"); return False
    got = rows_of(ds)
    if len(ds[ds.dc.CASEPTR]) != len(cs) + 1 or sorted(got) != sorted(keys) or ds.dims[ds.dc.CASEALT] != len(keys):
        rec.violation(f"rows:{tag}", f"{msg}: rows {got} by pointers {ds[ds.dc.CASEPTR].values} and alternatives {ds[ds.dc.ALTIDX].values}, expected {sorted(keys)}"); return False
    for k in kinds:
        v = ds[k]
        if crack is not None and (v.dims == (ds.dc.CASEID,)) != (constant(k, keys) and crack):
            rec.violation(f"crack:{k}:{tag}", f"{msg}: {k} has dimensions {v.dims}"); continue
        if v.dims == (ds.dc.CASEID,):
            for i, c in enumerate(cs):
                for x, a in keys:
                    if x == c and v.values[i] != val(k, c, a): rec.violation(f"value:{k}:{tag}", f"{msg}: {k} of case {c} is {v.values[i]}"); return False
        else:
            for r, (c, a) in enumerate(got):
                if v.values[r] != val(k, c, a): rec.violation(f"value:{k}:{tag}", f"{msg}: {k} of case {c}, alternative {a} is {v.values[r]}, expected {val(k, c, a)}"); return False
        if v.dtype != DT[k]: rec.violation(f"dtype:{k}", f"{msg}: {k} has type {v.dtype}")
    return True


def idce(task, rec):
    rows, index, oi = task
    opt = EOPT[oi]
    for order in orders(rows):
        df, keys = table(rows, order, "int", index)
        before = df.copy()
        msg = f"rows {keys} ({index} index), from_idce({opt})"
        tag = f"idce:{index}"
        try:
            ds = Dataset.construct.from_idce(df, **opt)
        except Exception as e:
            rec.violation(f"raises:{tag}:{type(e).__name__}", f"{msg}: {e!r}"); return
        if not df.equals(before): rec.violation("input:idce", f"{msg} changed the table it was given")
        if not check_ce(rec, ds, keys, msg, tag, opt.get("crack", True)): return
        aid = sorted({a for _, a in keys})
        if list(ds[ds.dc.ALTID].values) != aid or ds.dc.n_alts != len(aid): rec.violation(f"alts:{tag}", f"{msg}: alternatives {ds[ds.dc.ALTID].values}"); return
        got = rows_of(ds)
        cs = sorted({c for c, a in keys})
        if "case_index" in opt and list(ds["ci"].values) != [cs.index(c) for c, a in got]: rec.violation(f"case_index:{tag}", f"{msg}: {ds['ci'].values}"); return
        for n, d in (("dim_name", ds.dc.CASEALT), ("alt_index", ds.dc.ALTIDX), ("case_pointer", ds.dc.CASEPTR)):
            if n in opt and d != opt[n]: rec.violation(f"names:{tag}", f"{msg}: {n} is {d}")
        ptr, ai = ds[ds.dc.CASEPTR].values, ds[ds.dc.ALTIDX].values
        if list(case_ptr_to_indexes(len(got), ptr)) != [cs.index(c) for c, a in got]: rec.violation(f"pointers:{tag}", msg)
        for p in (ptr, np.lib.stride_tricks.sliding_window_view(ptr, 2)):
            d = ce_to_dense(np.array([val("x", c, a) for c, a in got]), ai, p, len(aid))
            b = ce_bool_to_dense(ai, p, len(aid))
            for i, c in enumerate(cs):
                for j, a in enumerate(aid):
                    if b[i, j] != ((c, a) in keys) or d[i, j] != (val("x", c, a) if (c, a) in keys else 0):
                        rec.violation(f"dense:{tag}", f"{msg}: dense values {d}, flags {b}"); return
        rec.step(); rec.trace(); rec.state((task, order))
    rec.eval(task)


tasks = [(p, "tuples", o) for p in P for o in range(len(EOPT)) if T or len(p) in (1, 2, 9) or o == len(p) % 4]
tasks += [(p, i, o) for p in P for i in ("unused", "unnamed") for o in (0, 3) if T or len(p) in (1, 2, 4, 8)]
CK.section("idce", tasks, idce)


# ------------------------------------------------------------ 3 kernels over pointers, cases without rows included
def kernels(task, rec):
    counts, ai = task
    ptr = np.cumsum([0, *counts])
    n = int(ptr[-1])
    na = 3
    owner = [c for c, k in enumerate(counts) for _ in range(k)]
    msg = f"rows per case {counts}, alternatives {ai}"
    z = "empty" if 0 in counts else "full"
    if list(case_ptr_to_indexes(n, ptr)) != owner: rec.violation(f"index:{z}", f"{msg}: {case_ptr_to_indexes(n, ptr)}")
    ai_ = np.array(ai, dtype=np.int64)
    for p in (ptr, np.lib.stride_tricks.sliding_window_view(ptr, 2)):
        for w in (1, 2):
            x = np.arange(1., n * w + 1).reshape((n, w) if w > 1 else (n,))
            want = np.zeros((len(counts), na) + x.shape[1:])
            for r in range(n): want[owner[r], ai[r]] = x[r]
            got = ce_to_dense(x, ai_, p, na)
            if not np.array_equal(got, want): rec.violation(f"dense:{z}", f"{msg} pointers {p.tolist()}: {got.tolist()}, expected {want.tolist()}"); break
        b = ce_bool_to_dense(ai_, p, na)
        want = np.zeros((len(counts), na))
        for r in range(n): want[owner[r], ai[r]] = 1
        if not np.array_equal(b, want): rec.violation(f"flags:{z}", f"{msg} pointers {p.tolist()}: {b.tolist()}, expected {want.tolist()}")
        if n and ai == ALT0[:n]:
            for v in itertools.product((1., 2.), repeat=n):
                out, failed = ce_dissolve_zero_variance(np.array(v), p)
                groups = [{v[r] for r in range(n) if owner[r] == c} for c in range(len(counts))]
                const = all(len(g) <= 1 for g in groups)
                # without rows there is no value to keep: such a variable stays as it is
                if 0 in counts:
                    if not const and not failed: rec.violation("dissolve:empty", f"{msg} values {v}: {out} {failed}")
                    if const and not failed and any(len(g) and out[c] != min(g) for c, g in enumerate(groups)): rec.violation("dissolve:empty", f"{msg} values {v}: {out}")
                elif bool(failed) == const or (const and [min(g) for g in groups] != list(out)): rec.violation("dissolve:full", f"{msg} values {v}: {out} {failed}")
                rec.step()
    rec.state(task); rec.eval(task); rec.trace(); rec.step()


ALT0 = (0, 1, 2, 0, 1, 2, 0, 1, 2)
tasks = []
for k in (1, 2, 3, 4):
    for counts in itertools.product(range(3) if k > 2 and not T else range(4), repeat=k):
        n = sum(counts)
        per = [list(itertools.permutations(range(3), c)) for c in counts]
        full = math.prod(len(p) for p in per)
        if full <= (2000 if T else 60):
            for c in itertools.product(*per): tasks.append((counts, tuple(itertools.chain(*c))))
        else: tasks.append((counts, tuple(itertools.chain(*[p[-1] for p in per]))))
        if n <= 9 and n: tasks.append((counts, ALT0[:n]))
CK.section("kernels", tasks, kernels)


# ------------------------------------------------------------ 4 selecting cases
def select(task, rec):
    kind, rows, sub = task
    order = tuple(range(len(rows)))
    df, keys = table(rows, order)
    cs = sorted({c for c, a in keys})
    pick = [c for i, c in enumerate(cs) if sub >> i & 1]
    q = "sel == 1"
    flag = xr.DataArray([int(c in pick) for c in cs], dims="cid", coords={"cid": cs})
    msg = f"{kind} rows {keys}, cases {pick} of {cs}"
    ds = Dataset.construct.from_idca(df, crack=False) if kind in ("ca", "catree") else Dataset.construct.from_idce(df, crack=False) if kind in ("ce", "cetree") else Dataset.construct.from_idco(df.loc[[keys[min(i for i, k in enumerate(keys) if k[0] == c)] for c in cs]].droplevel(1))
    ds = ds.assign(sel=flag)
    if kind == "ce2": pass
    try:
        if kind == "catree":
            t = ds.dc.as_tree().query_cases(q)
            out = t.root_dataset
            if t.n_cases != len(pick) or list(t.caseids()) != pick or list(t.altids()) != list(ds[ds.dc.ALTID].values): rec.violation("tree", f"{msg}: {t.n_cases} {t.caseids()}")
        elif kind == "cotree":
            t = ds.dc.as_tree().query_cases(q)
            out = t.root_dataset
        else: out = ds.dc.query_cases(q)
    except Exception as e:
        rec.violation(f"raises:{kind}:{type(e).__name__}", f"{msg}: {e!r}"); return
    if list(out["cid"].values) != pick or out.dc.n_cases != len(pick): rec.violation(f"cases:{kind}", f"{msg}: {out['cid'].values}"); return
    if out.dc.CASEID != "cid" or (kind in ("ca", "ce", "catree") and out.dc.ALTID != ds.dc.ALTID): rec.violation(f"attrs:{kind}", f"{msg}: {out.attrs}"); return
    kk = [k for k in keys if k[0] in pick]
    if kind == "ce":
        if pick:
            if not check_ce(rec, out, kk, msg, "select-ce"): return
        elif out.dims[out.dc.CASEALT] or len(out[out.dc.CASEPTR]) != 1: rec.violation("rows:select-ce", f"{msg}: {out}"); return
        if list(out[out.dc.ALTID].values) != list(ds[ds.dc.ALTID].values): rec.violation("alts:select-ce", f"{msg}: {out}"); return
        for a in (_A for _A in ("_caseptr_", "_casealt_", "_alt_idx_", "_exclude_dims_")):
            if out.attrs.get(a) != ds.attrs.get(a): rec.violation("attrs:select-ce", f"{msg}: attribute {a} is {out.attrs.get(a)}"); return
        if pick:
            y = out.dc.get_expr("x * 2 + m").values
            if not np.allclose(y, [val("x", c, a) * 2 + val("m", c, a) for c, a in rows_of(out)]): rec.violation("expr:select-ce", f"{msg}: {y}")
    else:
        for k in KINDS:
            want = ds[k].sel(cid=pick)
            if out[k].dims != want.dims or not np.array_equal(out[k].values, want.values, equal_nan=out[k].dtype.kind == "f") or out[k].dtype != want.dtype: rec.violation(f"value:{kind}", f"{msg}: {k} is {out[k].values}")
    if list(ds["cid"].values) != cs: rec.violation(f"input:{kind}", msg)
    rec.state(task); rec.eval(task); rec.trace(); rec.step(); rec.outcome((kind, tuple(pick)))


sel = [p for p in P if T or len(p) in (3, 9)]
tasks = [(k, p, s) for p in sel for k in ("co", "ca", "ce", "catree", "cotree") for s in range(2 ** len({FULL[i][0] for i in p})) if k != "co" or len(p) == 4 or T or p == P[-1]]
CK.section("select", tasks, select, group=lambda t: t[0])


# ------------------------------------------------------------ 5 dissolving over every small value pattern
VAL = (0., 1., 1. + 2 ** -40, 3e-12, 1e7 / 3, -1e15 / 7)


def dissolve(task, rec):
    vals, nc, na, kind, inplace, lead = task
    x = np.array(vals).reshape(nc, na)
    if kind == "int": x = np.round(x).astype(np.int64)
    if kind == "bool": x = x.astype(bool)
    if kind == "f4": x = x.astype(np.float32)
    dims = ("aid", "cid") if lead else ("cid", "aid")
    ds = xr.Dataset({"x": (dims, x.T if lead else x), "y": (("cid",), np.arange(nc)), "w": (("aid",), np.arange(na) + .5), "nm": (("cid", "aid"), [["z"] * na] * nc)}, coords={"cid": np.arange(nc) * 2 + 1, "aid": np.arange(na) + 4, "an": (("aid",), [f"q{i}" for i in range(na)])})
    ds.attrs.update(_caseid_="cid", _altid_="aid")
    msg = f"{x.tolist()} ({x.dtype}, dimensions {dims}, inplace {inplace})"
    before = ds.copy(deep=True)
    try:
        out = ds.dc.dissolve_zero_variance(inplace=inplace)
    except Exception as e:
        rec.violation(f"raises:dissolve:{inplace}:{type(e).__name__}", f"{msg}: {e!r}"); return
    if inplace: out = ds
    elif not ds.identical(before): rec.violation("input:dissolve", msg)
    const = all(len(set(r)) == 1 for r in x.tolist())
    if (out["x"].dims == ("cid",)) != const: rec.violation(f"dissolve:{kind}", f"{msg}: {'constant' if const else 'varying'}, but the result has dimensions {out['x'].dims}"); return
    if const and out["x"].values.tolist() != x[:, 0].tolist() or not const and not np.array_equal(out["x"].values, x.T if lead else x): rec.violation(f"value:{kind}", f"{msg}: {out['x'].values}")
    if out["x"].dtype != x.dtype: rec.violation(f"dtype:{kind}", f"{msg}: {out['x'].dtype}")
    for k in ("y", "nm"):
        if not out[k].equals(before[k]): rec.violation(f"other:{k}", f"{msg}: {out[k]}")
    for k in ("aid", "cid", "an"):
        if k not in out.coords or not np.array_equal(out[k].values, before[k].values): rec.violation(f"other:{k}", f"{msg}: {out}")
    if out.dc.n_alts != na or out.dc.n_cases != nc: rec.violation("dims", f"{msg}: {out}")
    rec.state(task); rec.eval(task); rec.trace(); rec.step(); rec.outcome((const, kind))


tasks = [(v, nc, na, k, ip, ld) for nc, na in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3)) for k, V in (("f8", VAL), ("int", (0., 1., 3.)), ("bool", (0., 1.)), ("f4", VAL[:5])) if not (k == "f4" and nc * na > 2)
         for v in itertools.product(V, repeat=nc * na) for ip in (False, True) for ld in (False, True) if T or not (ip and ld)]
CK.section("dissolve", tasks, dissolve)


# ------------------------------------------------------------ 6 alternatives: ids, names and constructors
def alts(task, rec):
    what, k = task
    df = pd.DataFrame({"x": [1.5, 2.5], "n": [3, 4], "b": [True, False], "s": ["p", "q"]}, index=pd.Index([8, 2], name=k.get("name", "cid")))
    msg = f"{task}"
    tag = f"{what}:{k.get('alts', '')}"
    codes, names = k["codes"], k.get("names")
    pairs = dict(zip(codes, names)) if names else {c: c for c in codes}
    def form(f):
        if f == "code-name": return dict(zip(codes, names))
        if f == "name-code": return dict(zip(names, codes))
        if f == "series-name-code": return pd.Series(codes, index=list(names))
        if f == "series-code-name": return pd.Series(list(names), index=codes)
        if f == "named-series": return pd.Series(list(names), index=pd.Index(codes, name="ALT"))
        if f == "list": return list(codes)
        if f == "array": return np.array(codes)
        if f == "index": return pd.Index(codes, name="ALT")
        if f == "da": return xr.DataArray(list(codes), dims="ALT", name="ALT")
        if f == "names": return list(names)
        if f == "da-names": return xr.DataArray(list(names), dims="_altid_")
    try:
        if what == "idco": ds = Dataset.construct.from_idco(df, alts=form(k["alts"]))
        elif what == "altids":
            ds = Dataset.construct.from_idco(df)
            out = ds.dc.set_altids(form(k["alts"]), inplace=k["inplace"], **k["kw"])
            if k["inplace"]: out = ds
            elif "_altid_" in ds.attrs or len(ds.coords) != 1: rec.violation(f"input:{tag}", f"{msg}: {ds}")
            ds = out
            if "dim_name" in k["kw"] and ds.dc.ALTID != k["kw"]["dim_name"]: rec.violation(f"dim:{tag}", f"{msg}: {ds.attrs}")
            if "dtype" in k["kw"] and ds[ds.dc.ALTID].dtype != k["kw"]["dtype"]: rec.violation(f"dtype:{tag}", f"{msg}: {ds}")
        elif what == "altnames":
            ds = Dataset.construct.from_idco(df, alts=list(codes))
            out = ds.dc.set_altnames(form(k["alts"]), inplace=k["inplace"])
            if k["inplace"]: out = ds
            elif len(ds.coords) != 2: rec.violation(f"input:{tag}", f"{msg}: {ds}")
            ds = out
        m = ds.dc.alts_mapping
    except Exception as e:
        rec.violation(f"raises:{tag}:{type(e).__name__}", f"{msg}: {e!r}"); return
    if m != pairs: rec.violation(f"mapping:{tag}", f"{msg}: the alternatives are {m}, expected {pairs}")
    if list(ds.dc.altids()) != list(codes) or ds.dc.n_alts != len(codes): rec.violation(f"altids:{tag}", f"{msg}: {ds.dc.altids()}")
    if list(ds.dc.caseids()) != [8, 2] or ds.dc.n_cases != 2: rec.violation(f"caseids:{tag}", f"{msg}: {ds}")
    for c in df:
        if ds[c].dims != (k.get("name", "cid") or "index",) or ds[c].values.tolist() != df[c].tolist() or (c != "s" and ds[c].dtype != df[c].dtype): rec.violation(f"value:{tag}", f"{msg}: {ds[c]}")
    rec.state(repr(task)); rec.eval(repr(task)); rec.trace(); rec.step(); rec.outcome(tag)


tasks = []
for codes, names in (((1, 2, 3), ("car", "bus", "walk")), ((5, 2, 9), ("b", "a", "c")), ((4,), ("only",)), ((0, 1), ("z", "y"))):
    for nm in ("cid", None):
        for f in ("code-name", "name-code", "series-name-code", "series-code-name", "named-series"): tasks.append(("idco", dict(codes=codes, names=names, alts=f, name=nm)))
        for f in ("list", "array", "index"): tasks.append(("idco", dict(codes=codes, alts=f, name=nm)))
    for ip in (False, True):
        for f in ("list", "array", "index", "da"):
            for kw in (dict(), dict(dim_name="ALT"), dict(dtype=np.int32)): tasks.append(("altids", dict(codes=codes, alts=f, inplace=ip, kw=kw)))
        for f in ("code-name", "names", "da-names"): tasks.append(("altnames", dict(codes=codes, names=names, alts=f, inplace=ip)))
CK.section("alternatives", tasks, alts)


# ------------------------------------------------------------ 7 merging
JO, CO, CA = ("outer", "inner", "left", "right", "exact"), ("no_conflicts", "equals", "broadcast_equals", "override"), ("override", "drop", "no_conflicts", "drop_conflicts")


def merging(task, rec):
    i, j, overlap, join, compat, ca, fv = task
    A, B = [[1, 2, 3][k] for k in range(3) if i >> k & 1], [[1, 2, 3][k] for k in range(3) if j >> k & 1]
    a = xr.Dataset({"x": ("c", np.array(A) * 1.), "z": ("c", np.array(A) * 1.)}, coords={"c": A}, attrs={"p": 1, "q": 1})
    b = xr.Dataset({"y": ("c", np.array(B) * 10.), "z": ("c", np.array(B) * (1. if overlap else 2.))}, coords={"c": B}, attrs={"p": 1, "q": 2})
    kw = dict(join=join, compat=compat, combine_attrs=ca)
    if fv is not None: kw["fill_value"] = fv
    try: want = xr.merge([a, b], **kw)
    except Exception as e: want = type(e)
    try: got = merge([a, b], **kw, caseid="c", alts=[4, 5])
    except Exception as e: got = type(e)
    if isinstance(want, type) or isinstance(got, type):
        if want is not got: rec.violation(f"merge-raises:{join if join == 'exact' else compat if overlap == 0 else ca}", f"{task}: merge gives {got}, the merge with these options {want}")
    else:
        if got.attrs.get("_caseid_") != "c" or got.attrs.get("_altid_") != "_altid_" or list(got.dc.altids()) != [4, 5]: rec.violation("merge:attrs", f"{task}: {got.attrs}")
        g = got.drop_vars("_altid_"); g.attrs = {k: v for k, v in g.attrs.items() if k not in ("_caseid_", "_altid_")}
        if not g.identical(want): rec.violation("merge:" + ("join" if not g.equals(want) else "attrs"), f"{task}: {g}, expected {want}")
    rec.state(task); rec.eval(task); rec.trace(); rec.step(); rec.outcome((join, compat, isinstance(want, type)))


CK.section("merge", list(itertools.product(range(1, 8), range(1, 8), (1, 0), JO, CO, CA, (None, -5.))) if T else
           [t for t in itertools.product((1, 3, 6, 7), (3, 5, 7), (1, 0), JO, CO, CA, (None, -5.))], merging)


# ------------------------------------------------------------ 8 the classic container
def shuffled(frame, spec, perm):
    real = np.random.shuffle
    def put(seq): seq[:] = seq[list(perm)]
    np.random.shuffle = put
    try: return frame.split(spec, "shuffle")
    finally: np.random.shuffle = real


def frames(task, rec):
    fmt, rows, what, comp = task
    order = tuple(range(len(rows)))[::-1]
    _, keys = table(rows, order)
    cs, al = sorted({c for c, a in keys}), sorted({a for c, a in keys})
    allk = [(c, a) for c in cs for a in al]
    kk = keys if fmt == "ce" else allk[::-1] if len(keys) % 2 else allk
    fx = lambda c, a: val("x", c, a)
    fn = lambda c, a: val("n", c, a)
    fz = lambda c: 1. + c / 4
    big = pd.DataFrame({"x": [fx(*k) for k in kk], "n": [fn(*k) for k in kk]}, index=pd.MultiIndex.from_tuples(kk, names=["cid", "aid"]))
    co = pd.DataFrame({"z": [fz(c) for c in cs], "v": [c * 10 for c in cs]}, index=pd.Index(cs, name="cid"))[::-1] if what != "no-co" else None
    pick = {c: next(a for x, a in keys if x == c) for c in cs}
    ch = pd.DataFrame({a: [1. * (pick[c] == a) for c in cs] for a in al}, index=pd.Index(cs, name="cid"))
    av = pd.DataFrame({a: [int((c, a) in keys) for c in cs] for a in al}, index=pd.Index(cs, name="cid"))
    wt = pd.DataFrame({"w": [2. + c for c in cs]}, index=pd.Index(cs, name="cid"))
    msg = f"{fmt} rows {kk} ({what}, computational {comp}), available {sorted(keys)}"
    tag = f"{fmt}:{what}"
    kw = {fmt: big}
    try:
        d = larch.DataFrames(co=co, ch=ch, wt=wt, av=av if fmt == "ca" else None, computational=comp, **kw)
        if d.data_ce is None and d.data_ca is None: raise AssertionError
    except Exception as e:
        rec.violation(f"raises:frames:{tag}:{type(e).__name__}", f"{msg}: {e!r}"); return
    def cells(name, t, ks, f, exact=True):
        got = {(int(c), int(a)): v for (c, a), v in zip(t.index, np.asarray(t).tolist())} if isinstance(t.index, pd.MultiIndex) else None
        want = {k: list(f(*k)) for k in ks}
        if got is None or len(t) != len(want) or got != want: rec.violation(f"{name}:{tag}", f"{msg}: {name} gives\n{t}\nexpected {want}"); return
        rec.step()
    is_ce = d.data_ce is not None
    sk = sorted(keys) if not is_ce or fmt == "ce" else sorted(allk)      # (a table not in order is kept row by row)
    def attempt(name, f):
        try: f()
        except Exception as e: rec.violation(f"raises:{name}:{tag}:{type(e).__name__}", f"{msg}: {name}: {e!r}")
    attempt("data_ca_as_ce", lambda: cells("data_ca_as_ce", d.data_ca_as_ce()[["x", "n"]], sk, lambda c, a: (fx(c, a), fn(c, a))))
    attempt("data_av_as_ce", lambda: cells("data_av_as_ce", d.data_av_as_ce(), sk, lambda c, a: (int((c, a) in keys),)))
    attempt("data_ch_as_ce", lambda: cells("data_ch_as_ce", d.data_ch_as_ce(), sk, lambda c, a: (1. * (pick[c] == a),)))
    attempt("data_wt_as_ce", lambda: cells("data_wt_as_ce", d.data_wt_as_ce(), sk, lambda c, a: (2. + c,)))
    if co is not None:
        attempt("data_co_as_ce", lambda: cells("data_co_as_ce", d.data_co_as_ce()[["z", "v"]], sk, lambda c, a: (fz(c), c * 10)))
        attempt("data_ca_combined", lambda: cells("data_ca_combined", d.data_ca_combined()[["x", "n", "z", "v"]], sk if is_ce else allk, lambda c, a: (fx(c, a), fn(c, a), fz(c), c * 10)))
    if is_ce:
        attempt("data_ce_as_ca", lambda: cells("data_ce_as_ca", d.data_ce_as_ca()[["x", "n"]], allk, lambda c, a: (fx(c, a), fn(c, a)) if (c, a) in sk else (0, 0)))
    else:
        def wide():
            t = d.data_co_combined()
            for c in cs:
                for a in al:
                    if t.loc[c, ("x", a)] != fx(c, a): rec.violation(f"data_co_combined:{tag}", f"{msg}: {t}"); return
                if co is not None and t.loc[c, ("z", "*")] != fz(c): rec.violation(f"data_co_combined:{tag}", f"{msg}: {t}"); return
        attempt("data_co_combined", wide)
    def parts(frame, path):
        here = list(frame.caseindex)
        for spec in (2, 3, [1, 2], [3, 1]):
            sh = [1] * spec if isinstance(spec, int) else spec
            if any(not any(sum(sh[:j]) * len(here) <= i * sum(sh) < sum(sh[:j + 1]) * len(here) for i in range(len(here))) for j in range(len(sh))): continue   # (a part without cases)
            for method in ("simple", "copy", *itertools.permutations(range(len(here)))):      # every outcome of shuffling the cases
                ps = frame.split(spec, method) if isinstance(method, str) else shuffled(frame, spec, method)
                seen = []
                for p in ps:
                    w = f"{path}split({spec}, {method})"
                    mine = list(p.caseindex)
                    seen += mine
                    ks = [k for k in (sk if is_ce else allk) if k[0] in mine]
                    t = p.data_ce if p.data_ce is not None else p.data_ca    # (complete tables are known as ca)
                    got = {(int(c), int(a)): v for (c, a), v in zip(t.index, t[["x", "n"]].values.tolist())}
                    if got != {k: [fx(*k), fn(*k)] for k in ks}: rec.violation(f"split:{tag}", f"{msg}: {w}: the part of cases {mine} has\n{t}"); return
                    bad = [n for n, a_, f in (("co", p.data_co, lambda c: [fz(c), c * 10]), ("ch", p.data_ch, lambda c: [1. * (pick[c] == a) for a in al]), ("av", p.data_av, lambda c: [int((c, a) in keys) for a in al]), ("wt", p.data_wt, lambda c: [2. + c]))
                           if not (n == "co" and co is None) and (a_ is None or list(a_.index) != mine or a_.values.tolist() != [f(c) for c in mine])]
                    if bad: rec.violation(f"split-{bad[0]}:{tag}", f"{msg}: {w}: part {mine}: {bad} {p.data_av}"); return
                    if p.weight_normalization != frame.weight_normalization: rec.violation("split-norm", f"{msg}: {w}: weight normalization {p.weight_normalization}, was {frame.weight_normalization}"); return
                    if path == "" and len(mine) >= 2 and method == "simple":
                        if not parts(p, w + "."): return
                    rec.step()
                if sorted(seen) != sorted(here): rec.violation(f"split-cases:{tag}", f"{msg}: {path}split({spec}, {method}): {seen}"); return
        return True
    if len(cs) > 1: attempt("split", lambda: parts(d, ""))
    rec.state(task); rec.eval(task); rec.trace(); rec.outcome((fmt, len(keys)))


tasks = [(f, p, w, cmp) for p in P if len({FULL[i][1] for i in p}) > 1 and (T or len(p) in (3, 6)) for f in ("ca", "ce") for w in ("all", "no-co") for cmp in (True, False)]
CK.section("frames", tasks, frames)
CK.finish()
