"""C12: saved models and data come back equivalent, or not at all."""
import os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if "VK_CRASH" not in os.environ:      # run again under the fault injector
    so = os.path.join(os.environ["VK_WORK"], "crash.so")
    subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "vk", "crash.c"), "-ldl"])
    os.environ.update(VK_CRASH=so, LD_PRELOAD=so, PYTHONHASHSEED="0")
    os.execv(sys.executable, [sys.executable] + sys.argv)
import itertools, warnings, copy, pickle, shutil, ctypes, tempfile
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd
import larch
import vk.fast, larch.numba as lx
from larch import P, X
from larch.util.excel import load_metadata
import larch.model.constraints as C
from vk.harness import Check
from vk.choice import Spec, close
from vk import specs
SO = ctypes.CDLL(os.environ["VK_CRASH"])
SO.vk_disarm.restype = SO.vk_size.restype = ctypes.c_long

CK = Check("C12", "model_checking",
           assumptions=["an interruption ends the process; what it wrote before that is kept in order (no reordering by the file system)",
                        "log likelihoods kept in a model's caches may be computed again after loading",
                        "unset parameter frame columns of a result (best, note) are not part of the model"],
           bounds=dict(models="single model features (pairs on the nested Cython model; thorough: all pairs) x both engines x MNL and nested x 10 ways to save and load (pickle protocols, dumps, copy, copy module, Model(model), file, workbook)",
                       frames="every subset of the data components x ids x names x normalization, every format, every subset of components on saving and loading",
                       crashes="every file operation of a save, with torn writes, over nothing and over each kind of older save; every prefix of every file"))
T = CK.thorough
NAN = float("nan")


# ---------------------------------------------------------------- models
def rows(m):
    pf = m.pf
    return [(str(n),) + tuple(repr(float(pf.loc[n, c])) for c in ("value", "minimum", "maximum", "holdfast", "initvalue", "nullvalue"))
            for n in pf.index]


def fingerprint(m):
    d = dict(params=rows(m), ca=repr(m.utility_ca), co={k: repr(v) for k, v in m.utility_co.items()}, q=repr(m.quantity_ca),
             qs=repr(m.quantity_scale), mu=repr(m.logsum_parameter),
             choice=(repr(m.choice_ca_var), repr(m.choice_co_vars and dict(m.choice_co_vars)), repr(m.choice_co_code), bool(m.choice_any)),
             avail=(repr(m.availability_var), repr(m.availability_co_vars and dict(m.availability_co_vars)), bool(m.availability_any)),
             weight=repr(m.weight_co_var), title=m.title, order=repr(m.ordering), tail=repr(m.ordering_tail),
             graph=None if m.graph is None else (sorted((str(n), str(dict(x))) for n, x in m.graph.nodes(data=True)),
                                                 [(str(a), str(b)) for a, b in m.graph.edges()],
                                                 list(m.graph.standard_sort), m.graph.root_id),
             constraints=[(type(c).__name__, repr(c), c.binding_tol, getattr(c, "scale", None)) for c in m.constraints])
    if isinstance(m, lx.Model):
        d["numba"] = (str(np.dtype(m.float_dtype)), m.constraint_intensity, m.constraint_sharpness)
    r = m.most_recent_estimation_result if hasattr(m, "most_recent_estimation_result") else m._most_recent_estimation_result
    d["result"] = None if r is None else sorted((k, str(v)) for k, v in r.items() if k in ("loglike", "method", "message", "iteration_number", "logloss", "n_cases"))
    return d


FEAT = dict(
    holdfast=lambda m: m.set_value(m.pf.index[0], 0.4, holdfast=1),
    bounds=lambda m: m.set_value(m.pf.index[1], 0.25, minimum=-1.5, maximum=2.5),
    initnull=lambda m: m.set_value(m.pf.index[0], 0.3, initvalue=.125, nullvalue=.0625),
    title=lambda m: setattr(m, "title", "Some Title: ü"),
    ratio=lambda m: (m.set_value("a2", -.4, maximum=0.), m.constraints.append(C.RatioBound("b1", "a2", min_ratio=-3., max_ratio=.5, scale=7))),
    order=lambda m: m.constraints.append(C.OrderingBound("a2", "b1", binding_tol=.01)),
    fixed=lambda m: m.constraints.append(C.FixedBound("b1", minimum=-.5, maximum=.75)),
    ordering=lambda m: setattr(m, "ordering", [("Cost", "b.*"), ("Size", "g1")]),
    intensity=lambda m: isinstance(m, lx.Model) and (setattr(m, "constraint_intensity", 3.), setattr(m, "constraint_sharpness", 5.), setattr(m, "float_dtype", np.float64)),
    choiceco=lambda m: (setattr(m, "choice_ca_var", ""), setattr(m, "choice_co_vars", {1: "ch_1", 2: "ch_2", 3: X("ch_3")})),
    choicecode=lambda m: (setattr(m, "choice_ca_var", ""), setattr(m, "choice_co_code", "chcode_")),
    availco=lambda m: (setattr(m, "availability_var", ""), setattr(m, "availability_co_vars", {1: "av_1", 2: X("av_2"), 3: "av_3"})),
    refs=lambda m: setattr(m, "quantity_scale", P("theta")),
    named=lambda m: m.pf.loc.__setitem__(("b1", "note"), "x") if 0 else setattr(m, "utility_ca", m.utility_ca + P("spaced name") * X("x") * 0.5),
    names=lambda m: m.graph.set_elemental_name(2, "second") if hasattr(m.graph, "set_elemental_name") else m.graph.nodes[2].update(name="second"),
    evaluated=lambda m: (m.loglike(), m.loglike2()),
    fitted=lambda m: m.maximize_loglike(method="bfgs" if isinstance(m, lx.Model) else "bhhh", quiet=True, iteration_number=0, options=dict(maxiter=2)),
    null=lambda m: m.loglike_null(),
)
CLASH = [("choiceco", "choicecode")]


def viafile(m):
    d = tempfile.mkdtemp(dir=os.environ["VK_WORK"])
    try:
        f = os.path.join(d, "model.pkl")
        with open(f, "wb") as fh:
            fh.write(m.dumps())
        return type(m).load(f)
    finally:
        shutil.rmtree(d)


def viaxlsx(m, how):
    d = tempfile.mkdtemp(dir=os.environ["VK_WORK"])
    try:
        f = os.path.join(d, "model.xlsx")
        m.to_xlsx(f, data_statistics=False, nesting=False, on_error="raise") if 0 else m.to_xlsx(f)
        return type(m).load(f) if how else load_metadata(f, "_self_")
    finally:
        shutil.rmtree(d)


WAYS = dict([(f"pickle{p}", lambda m, p=p: pickle.loads(pickle.dumps(m, protocol=p))) for p in (2, 5)] +
            [("dumps", lambda m: pickle.loads(m.dumps())), ("copy", lambda m: m.copy()), ("copy.copy", copy.copy),
             ("deepcopy", copy.deepcopy), ("Model", lambda m: type(m)(model=m)), ("file", viafile),
             ("xlsx", lambda m: viaxlsx(m, True)), ("metadata", lambda m: viaxlsx(m, False))])


def build(engine, nested, data=True):
    sp = specs.make("qs", nests=((101, [1, 2]),) if nested else (), weights="w", empty=False, multi=False)
    if engine == "legacy":
        m = sp.legacy_model("ca")
        m.choice_ca_var, m.availability_var, m.weight_co_var = "ch_", "av_", "wt_"
    else:
        m = sp.numba_model("ca")
    return sp, m


def attach(sp, m):
    if isinstance(m, lx.Model):
        m.datatree = sp.dataset("ca")
    else:
        m.n_threads = 1
        m.set_dataframes(sp.dataframes("ca"), False)
    m.unmangle()
    return m


def numbers(m):
    out = [m.loglike(), np.asarray(m.d_loglike()), np.asarray(m.bhhh())]
    vals = np.asarray(m.pf["value"], float)
    out.append([np.asarray(c.fun(vals)) for c in m.constraints])
    out.append(repr(m.constraint_violation(on_violation="return")) if isinstance(m, lx.Model) and m.constraints else None)
    return out


def same_numbers(a, b):
    return close(a[0], b[0]) and close(a[1], b[1]) and close(a[2], b[2]) and len(a[3]) == len(b[3]) and \
        all(close(x, y) for x, y in zip(a[3], b[3])) and a[4] == b[4]


def diff(a, b):
    return {k: (a[k], b.get(k)) for k in a if a[k] != b.get(k)}


EDITS = dict(
    value=lambda m: m.set_value("b1", 1.75),
    holdfast=lambda m: m.lock_value("b1", .5) if hasattr(m, "lock_value") else m.set_value("b1", .5, holdfast=1),
    ca=lambda m: setattr(m, "utility_ca", m.utility_ca + P("zz") * X("y")),
    ca_append=lambda m: m.utility_ca.append(P("zz") * X("y")),
    co=lambda m: m.utility_co.__setitem__(3, P("zz")),
    q=lambda m: setattr(m, "quantity_ca", m.quantity_ca + P("zq") * X("y")),
    q_append=lambda m: m.quantity_ca.append(P("zq") * X("y")),
    qs=lambda m: setattr(m, "quantity_scale", "other"),
    title=lambda m: setattr(m, "title", "other"),
    constraint=lambda m: m.constraints.append(C.OrderingBound("a2", "theta")),
    ordering=lambda m: setattr(m, "ordering", [("x", "a.*")]),
    node=lambda m: m.graph.new_node(children=[2, 3], parameter="mu9"),
    remove=lambda m: m.remove_unused_parameters(),
)


XLSX = [(), ("ratio",), ("title",), ("choiceco",), ("null",)]


def models(task, rec):
    engine, nested, feats = task
    sp, m = build(engine, nested)
    for f in feats:
        FEAT[f](m)
    m.unmangle()
    ev = True
    nums = numbers(m)
    before = fingerprint(m)
    where = f"{engine} {'nested' if nested else 'mnl'} {'+'.join(feats)}"
    rec.state(("model", engine, nested, feats))
    ways = [w for w in WAYS if not (w in ("xlsx", "metadata") and not (T or feats in XLSX))]
    for w in ways:
        rec.step()
        try:
            m2 = WAYS[w](m)
        except Exception as e:
            rec.violation(f"{w}-raises", f"{where}: {w} raises {type(e).__name__}: {e}")
            m = None
        else:
            rec.expect(type(m2) is type(m), f"{w}-type", lambda: f"{where}: {w} gives {type(m2)}")
            if w == "copy" and ev:
                rec.expect(m2.dataframes is None if engine == "legacy" else True, "copy-data", where)
            try:
                after = fingerprint(m2)
            except Exception as e:
                rec.violation(f"{w}-broken", f"{where}: {w} gives a model that raises {type(e).__name__}: {e}")
                after = None
            if after is not None:
                rec.eval((where, w))
                d = diff(before, after)
                rec.expect(not d, f"{w}-differs:{','.join(sorted(d))}", lambda: f"{where}: {w} changes {d}")
                if ev:
                    try:
                        attach(sp, m2)
                        n2 = numbers(m2)
                    except Exception as e:
                        rec.violation(f"{w}-noeval", f"{where}: after {w} evaluation raises {type(e).__name__}: {e}")
                    else:
                        rec.expect(same_numbers(nums, n2), f"{w}-numbers", lambda: f"{where}: {w}: {nums} became {n2}")
            d = diff(before, fingerprint(m))
            rec.expect(not d, f"{w}-source", lambda: f"{where}: {w} changes the model itself: {d}")
        if m is None:
            return
        rec.trace()


def independent(task, rec):
    """nothing done to a copy shows in the model it was made from, and the other way round"""
    engine, nested, w, edit = task
    for back in (False, True):
        sp, m = build(engine, nested)
        for f in ("ratio", "bounds", "ordering", "title"):
            FEAT[f](m)
        m.unmangle()
        m2 = WAYS[w](m)
        a, b = (m2, m) if not back else (m, m2)
        before = fingerprint(b)
        attach(sp, b)
        nums = numbers(b)
        rec.step()
        EDITS[edit](a)
        try:
            if engine == "legacy":
                attach(sp, a).loglike()
        except Exception:
            pass
        rec.eval((task, back))
        rec.state((task, back))
        d = diff(before, fingerprint(b))
        key = f"{w}-shares:{edit}"
        rec.expect(not d, key, lambda: f"{task} back={back}: {edit} on one shows in the other: {d}")
        rec.expect(same_numbers(nums, numbers(b)), key, lambda: f"{task} back={back}: {edit} on one changes the other's evaluation")


EXPRS = ["P.b", "X.a", "P('b c')", "X('a/b')", "P.b * X.a", "P.b * 2", "P.b * X.a * 2 + P.c", "X.a + 1", "-X.a", "X.a / X.b", "P.b + P.c", "P.b * P.c",
         "P.b / P.c", "P.b - P.c", "P.b + 2", "P.b - 2", "P.b / 2", "(P.b + P.c) * 2", "P.b * P.c + P.d", "P.b / (P.c + P.d * 3)", "P.b.set_fmt('{:.2f}') * 1", "P.b.set_fmt('{:.2f}')",
         "P.b + 0*X.a", "X.a > 2", "X.a == X.b", "log(X.a + 1)", "P.b * (X.a > 2) + P.c * exp(X.b)"]


def expressions(task, rec):
    from larch.model.linear_math import ParameterOp
    ns = dict(P=P, X=X)
    try:
        from larch.util.data_expansion import piecewise_linear
        import larch.model.linear as L
        ns.update({k: getattr(L, k) for k in ("log", "exp") if hasattr(L, k)})
        e = eval(task, ns)
    except Exception:
        return      # not an expression that larch offers
    def show(e):
        if isinstance(e, ParameterOp):
            class M:      # parameter values
                def get_value(self, n): return 1.5 + len(str(n)) + sum(map(ord, str(n))) / 64
                def __getattr__(self, n): raise AttributeError(n)
            try:
                return type(e).__name__, repr(e), e.value(M())
            except Exception:
                return type(e).__name__, repr(e)
        return type(e).__name__, repr(e), getattr(e, "_formatting", None)
    want = show(e)
    for p in range(6):
        for how, f in (("pickle", lambda e: pickle.loads(pickle.dumps(e, protocol=p))), ("copy", copy.copy), ("deepcopy", copy.deepcopy)):
            rec.step()
            rec.eval((task, p, how))
            rec.state((task, p, how))
            try:
                got = show(f(e))
            except Exception as err:
                got = repr(err)
            rec.expect(got == want, f"expression-{how}", lambda: f"{task}: {how} (protocol {p}) gives {got}, not {want}")
    rec.trace()


# ---------------------------------------------------------------- data
def container(comp, ids="int", names=True, norm=False, seed=0, n=3):
    """comp: subset of co ca ce ch av wt (ca and ce exclude each other)"""
    cid = {"int": [11, 4, 7], "big": [1 << 53 | 1, -4, 1 << 40]}[ids][:n]
    alts = [3, 5, 10]
    s = 1 + seed
    ix = pd.Index(cid, name="hh")
    full = pd.MultiIndex.from_product([cid, alts], names=["hh", "mode"])
    tab = pd.DataFrame({"t": np.arange(3. * n) * s + .125, "u v": np.arange(3. * n)[::-1] - s / 8}, index=full)
    kw = {}
    if "co" in comp: kw["co"] = pd.DataFrame({"inc": np.arange(1., n + 1) * s, "hh size": np.arange(n, 0., -1) / s}, index=ix)
    if "ca" in comp: kw["ca"] = tab
    if "ce" in comp: kw["ce"] = tab.iloc[[i for i in range(3 * n) if i not in (1, 3)]]
    if "ch" in comp:
        ch = np.zeros((n, 3)); ch[range(n), [(i + seed) % 3 for i in range(n)]] = 2. if norm else 1.
        ch[0] = [1. + (2. if norm else 0), 0, 0]
        kw["ch"] = pd.DataFrame(ch, index=ix, columns=alts)
    if "av" in comp:
        av = np.ones((n, 3), np.int8); av[1, seed % 3] = 0
        kw["av"] = pd.DataFrame(av, index=ix, columns=alts)
    if "wt" in comp: kw["wt"] = pd.Series(np.asarray([2., .5, 1.5])[:n] * s, index=ix, name="wgt")
    d = larch.DataFrames(alt_codes=alts, alt_names=["Car", "Bus", "Bike"] if names else None, **kw)
    if norm and ("wt" in comp or "ch" in comp):
        d.autoscale_weights()
    return d


COMP = ("co", "ca", "ce", "ch", "av", "wt")


def frame_values(x):
    """{(case, alt): ...} free of index names"""
    if x is None:
        return None
    x = x.to_frame() if isinstance(x, pd.Series) else x
    return ([str(c) for c in x.columns], [tuple(i) if isinstance(i, tuple) else i for i in x.index], np.asarray(x, float).tolist())


def content(d, comps=COMP):
    out = {c: frame_values(getattr(d, f"data_{c}")) for c in comps}
    ca, ce = out.pop("ca"), out.pop("ce")
    out["tab"] = ca if ca is not None else ce       # a complete table may be held in either form
    for c in ("wt",):
        if out.get(c) is not None:
            out[c] = out[c][1:]      # the name of the weight column is free
    return out


def meta(d):
    f = lambda v: None if v is None else [x.item() if hasattr(x, "item") else x for x in v]
    return dict(codes=f(d.alternative_codes()), names=f(d.alternative_names()), norm=d.weight_normalization, cases=f(d.caseindex))


def scratch():
    return tempfile.mkdtemp(dir=os.environ["VK_WORK"])


DUMPS = ["x.dat", "x.z", "x.gz", "x.bz2", "x.xz", "x.lzma"]


def roundtrip(task, rec):
    comp, ids, names, norm = task
    d = container(comp, ids, names, norm)
    want, wmeta = content(d), meta(d)
    if not comp:
        return
    rec.state(("frame", task))
    base = scratch()
    try:
        def judge(key, r, w=want):
            rec.eval((task, key))
            got = content(r)
            rec.expect(got == w, key, lambda: f"{task}: {key}: {[(c, w[c], got[c]) for c in got if got[c] != w[c]]}")
        # one file, every compression
        for fn in DUMPS + [("x.dat", 3), ("x.dat", ("zlib", 5)), ("x.dat", True)]:
            f, kw = (fn, {}) if isinstance(fn, str) else (fn[0], dict(compress=fn[1]))
            f = os.path.join(base, f)
            d.dump(f, **kw)
            rec.step()
            r = larch.DataFrames.load(f)
            judge("dump", r)
            rec.expect(meta(r) == wmeta, "dump-meta", lambda: f"{task}: {wmeta} became {meta(r)}")
            os.remove(f)
        rec.expect(content(d) == want and meta(d) == wmeta, "dump-source", task)
        # feather files, every subset saved, every subset loaded
        have = [c for c in COMP if getattr(d, f"data_{c}") is not None]
        subs = [s for k in range(len(have) + 1) for s in itertools.combinations(have, k)]
        for saved in subs:
            for f in os.listdir(base):
                os.remove(os.path.join(base, f))
            f = os.path.join(base, "f")
            d = container(comp, ids, names, norm)
            want = content(d)
            if len(saved) == len(have):
                d.to_feathers(f)
            else:
                d.to_feathers(f, components=set(saved) | {"meta"})
            rec.step()
            rec.expect(content(d) == want and meta(d) == wmeta, "feathers-source", task)
            for asked in (subs if len(saved) == len(have) else [tuple(have)]):
                got = set(saved) & set(asked)
                if not got - {"wt", "ch", "av"} and not got:
                    continue
                rec.step()
                try:
                    r = larch.DataFrames.from_feathers(f, components=None if len(asked) == len(have) else set(asked))
                except Exception as e:
                    rec.violation("feathers-raises", f"{task} saved {saved} asked {asked}: {type(e).__name__}: {e}")
                    continue
                got = {"tab" if c in ("ca", "ce") else c for c in got}
                w = {c: want[c] if c in got else None for c in want}
                if w["av"] is None and r.data_av is not None and "tab" in got:
                    w["av"] = frame_values(r.data_av)     # made from the rows of sparse data, see C14
                judge("feathers", r, w)
                rec.expect(meta(r) == wmeta, "feathers-meta", lambda: f"{task} saved {saved} asked {asked}: {wmeta} became {meta(r)}")
            # into a container of the same shape
            for asked in (subs if len(saved) == len(have) else []):
                t = container(comp, ids, names, norm, seed=1)
                tw = content(t)
                t.computational = True
                t.inject_feathers(f, components=None if len(asked) == len(have) else set(asked))
                rec.step()
                ask = {"tab" if c in ("ca", "ce") else c for c in asked}
                judge("inject", t, {c: want[c] if c in ask else tw[c] for c in want})
    finally:
        shutil.rmtree(base)
    rec.trace()


# ---------------------------------------------------------------- interruptions
def zarr_array(seed, n=3):
    import xarray as xr
    return lx.DataArray(np.arange(float(n * 2)).reshape(n, 2) * (seed + 1) + 1, dims=("a", "b"), coords=dict(a=np.arange(n) + 1, b=["x", "y"]), name="logsum")


def zcontent(r):
    r = r.load() if hasattr(r, "load") else r
    return dict(v=np.asarray(r).tolist(), dims=r.dims, coords={k: np.asarray(v).tolist() for k, v in r.coords.items()}, name=r.name)


FULL = ("co", "ca", "ch", "av", "wt")
SPARSE = ("co", "ce", "ch", "av")
SMALL = ("ca", "ch")


def fmodel(seed, nested):
    sp, m = build("legacy", nested)
    m.set_value("b1", .25 + seed); m.title = f"m{seed}"
    return m


def mk(kind):
    """save(dir, version), load(dir) -> content; versions 0 is saved over one of the others"""
    if kind.startswith("feathers"):
        vs = dict(full=[container(FULL, norm=True), container(FULL, seed=1), container(SPARSE, seed=2), container(SMALL, seed=3), container(FULL, seed=4, n=2)],
                  sparse=[container(SPARSE), container(SPARSE, seed=1), container(FULL, seed=2, norm=True)])[kind.split(":")[1]]
        return (lambda d, v: vs[v].to_feathers(d + "/f")), (lambda d: larch.DataFrames.from_feathers(d + "/f")), \
            (lambda r: (content(r), meta(r))), len(vs)
    if kind.startswith("dump"):
        ext = kind.split(":")[1]
        vs = [container(FULL, norm=True), container(SPARSE, seed=1)]
        return (lambda d, v: vs[v].dump(d + "/x" + ext)), (lambda d: larch.DataFrames.load(d + "/x" + ext)), (lambda r: (content(r), meta(r))), 2
    if kind.startswith("zarr"):
        f = "/a.zarr.zip" if kind == "zarr:zip" else "/a.zarr"
        def save(d, v):
            zarr_array(v).to_zarr(d + f, **({} if kind == "zarr:zip" else dict(mode="w")))
        return save, (lambda d: lx.DataArray.from_zarr(d + f)), zcontent, 2
    if kind == "pickle":
        vs = [fmodel(0, True), fmodel(1, False)]
        def save(d, v):
            with open(d + "/m.pkl", "wb") as fh:
                fh.write(vs[v].dumps())
        return save, (lambda d: larch.Model.load(d + "/m.pkl")), fingerprint, 2
    if kind == "xlsx":
        vs = [fmodel(0, False), fmodel(1, False)]
        return (lambda d, v: vs[v].to_xlsx(d + "/m.xlsx")), (lambda d: larch.Model.load(d + "/m.xlsx")), fingerprint, 2


KINDS = ["feathers:full", "feathers:sparse", "dump:.dat", "dump:.gz", "dump:.z", "dump:.xz", "dump:.bz2", "zarr:zip", "zarr:dir", "pickle", "xlsx"]
_MK = {}


def under_fault(d, k, torn, fn):
    """run fn; operations on files under d from the k-th on have no effect.  Number of operations, and the exception if any"""
    SO.vk_arm(d.encode(), ctypes.c_long(k), ctypes.c_long(torn))
    err = None
    try:
        fn()
    except Exception as e:
        err = e
    finally:
        import gc; gc.collect(0)
        n = SO.vk_disarm()
    return n, err


def ops(kind, old):
    """sizes of the operations of saving version 0 over version old (None: nothing), or None when it fails"""
    save = _MK[kind][0]
    d = scratch()
    try:
        if old is not None:
            save(d, old)
        n, err = under_fault(d, -1, 0, lambda: save(d, 0))
        return None if err else [SO.vk_size(ctypes.c_long(i)) for i in range(n)]
    finally:
        shutil.rmtree(d)


def loaded(kind, d):
    _, load, cont, _ = _MK[kind]
    try:
        return cont(load(d))
    except Exception as e:
        return e


def interrupted(task, rec):
    kind, old, points = task
    save, load, cont, _ = _MK[kind]
    want = {}
    for v in {0, old} - {None}:
        d = scratch()
        save(d, v)
        want[v] = loaded(kind, d)
        shutil.rmtree(d)
        if isinstance(want[v], Exception):
            rec.violation(f"{kind}-unreadable", f"{kind}: a complete save of version {v} does not load: {want[v]!r}")
            return
    for k, torn in points:
        d = scratch()
        try:
            if old is not None:
                save(d, old)
            n, err = under_fault(d, k, torn, lambda: save(d, 0))
            rec.step()
            done = k < 0
            if not rec.expect(not (done and err), f"{kind}-save", lambda: f"{task[:2]}: {err!r}"):
                continue
            got = loaded(kind, d)
            rec.eval((kind, old, k, torn))
            rec.state((kind, old, k, torn, isinstance(got, Exception)))
            rec.count("refused" if isinstance(got, Exception) else "complete")
            if done:
                rec.expect(not isinstance(got, Exception) and got == want[0], f"{kind}-over", lambda: f"{kind} saved over version {old} loads as {got!r}")
            else:
                rec.expect(isinstance(got, Exception) or got in want.values(), f"{kind}-interrupted",
                           lambda: f"{kind} saved over version {old}, interrupted before operation {k} after {torn} bytes of it, loads as other content: {got!r}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    rec.trace()


def truncated(task, rec):
    """every prefix of one file of a complete save, and its absence"""
    kind, name, sizes = task
    save, load, cont, _ = _MK[kind]
    d = scratch()
    try:
        save(d, 0)
        want = loaded(kind, d)
        f = os.path.join(d, name)
        raw = open(f, "rb").read()
        for n in sizes:
            if n < 0:
                os.remove(f)
            else:
                with open(f, "wb") as fh:
                    fh.write(raw[:n])
            got = loaded(kind, d)
            rec.step()
            rec.eval((kind, name, n))
            rec.state((kind, name, n, isinstance(got, Exception)))
            rec.expect(isinstance(got, Exception) or got == want, f"{kind}-truncated:{'missing' if n < 0 else 'prefix'}",
                       lambda: f"{kind}: with {name} {'missing' if n < 0 else f'cut to {n} of {len(raw)} bytes'} the load gives other content: {got!r}")
    finally:
        shutil.rmtree(d)
    rec.trace()


def main():
    fs = [()] + [c for k in (1, 2) for c in itertools.combinations(FEAT, k)
                 if not any(set(x) <= set(c) for x in CLASH)]
    tasks = [(e, n, f) for e in ("legacy", "numba") for n in (False, True) for f in fs
             if T or (len(f) < 2 if e == "numba" else len(f) < 2 or n)]
    CK.section("models", tasks, models)
    CK.section("expressions", EXPRS, expressions)
    CK.section("independent", [(e, n, w, x) for e in ("legacy", "numba") for n in (False, True)
                               for w in ("copy", "deepcopy", "Model", "dumps") for x in EDITS if T or (e == "legacy" and n == (w in ("copy", "Model"))) or (w == "copy" and n)], independent)
    subs = [c for k in range(1, 6) for c in itertools.combinations(COMP, k) if not {"ca", "ce"} <= set(c)]
    CK.section("frames", [(c, i, nm, no) for c in subs for i in ("int", "big") for nm in (True, False) for no in (False, True)
                          if T or (i, nm, no) in (("int", True, False), ("big", False, True), ("int", True, True))], roundtrip)
    for k in KINDS:
        _MK[k] = mk(k)
    jobs, cuts = [], []
    if not CK.args.section or CK.args.section in ("interrupted", "truncated"):
        for k in KINDS:
            for old in [None] + list(range(1, _MK[k][3])):
                o = ops(k, old)
                if o is None:
                    jobs.append((k, old, [(-1, 0)]))
                    continue
                pts = [(-1, 0)]
                if k == "zarr:dir":       # a missing part of such a store is, by its format, a fill value
                    o = []
                for i, s in enumerate(o):
                    pts.append((i, 0))
                    if s > 1 and k != "xlsx":
                        pts += [(i, t) for t in (range(1, s) if T else sorted({1, s // 2, s - 1}))]
                if k == "xlsx" and not T:
                    pts = pts[:1] + pts[1::4]
                jobs += [(k, old, pts[j::8]) for j in range(8) if pts[j::8]]
            if k == "zarr:dir":
                continue
            d = scratch()
            try:
                _MK[k][0](d, 0)
                names = [os.path.relpath(os.path.join(r, f), d) for r, _, ff in os.walk(d) for f in ff]
                for f in names:
                    n = os.path.getsize(os.path.join(d, f))
                    step = 1 if k not in ("xlsx",) else 97
                    if not T and n > 3000:
                        step = max(step, n // 1500)
                    sz = [-1] + list(range(0, n, step))
                    cuts += [(k, f, sz[j::4]) for j in range(4) if sz[j::4]]
            except Exception as e:
                pass
            finally:
                shutil.rmtree(d)
    CK.section("interrupted", jobs, interrupted, describe=lambda t: repr(t[:2]))
    CK.section("truncated", cuts, truncated, describe=lambda t: repr(t[:2]))
    CK.finish()


main()
