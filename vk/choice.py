"""Plain-Python reference semantics of (nested) logit choice models, and
builders that express one and the same model spec through larch's public API
(numba engine over Dataset, numba engine over DataFrames, Cython engine over
DataFrames)."""
import math, cmath
import numpy as np
import pandas as pd

NEG = float("-inf")


class Spec:
    """alts: list of alternative codes (in data order)
    nests: list of (nestcode, muparam, [children])   (children are defined earlier or are alts)
    ca/q: [(param, var, scale)]; co: {alt: [(param, var, scale)]}; var '1' is the constant
    cax: {var: [ncase][nalt]}, cox: {var: [ncase]}, av/ch: [ncase][nalt], wt: [ncase] or None
    values: {param: value}; holdfast: set of params"""

    def __init__(self, alts, nests=(), ca=(), co=None, q=(), qscale=None, cax=None, cox=None,
                 av=None, ch=None, wt=None, values=None, holdfast=(), caseids=None, root=0):
        self.alts, self.nests, self.ca, self.co = list(alts), list(nests), list(ca), dict(co or {})
        self.q, self.qscale = list(q), qscale
        self.cax = {k: np.asarray(v, dtype=float) for k, v in (cax or {}).items()}
        self.cox = {k: np.asarray(v, dtype=float) for k, v in (cox or {}).items()}
        n = len(next(iter(self.cox.values()))) if self.cox else len(next(iter(self.cax.values())))
        self.n = n
        self.av = np.ones((n, len(self.alts)), int) if av is None else np.asarray(av, int)
        self.ch = np.asarray(ch, float)
        self.wt = None if wt is None else np.asarray(wt, float)
        self.values = dict(values)
        self.holdfast = set(holdfast)
        self.caseids = list(caseids) if caseids is not None else list(range(1, n + 1))
        self.root = root

    def params(self):
        return list(self.values)

    # ---------------------------------------------------------------- reference
    def children(self):
        kids = {c: list(ch) for c, _, ch in self.nests}
        owned = {x for ch in kids.values() for x in ch}
        top = [c for c, _, _ in self.nests if c not in owned] + [a for a in self.alts if a not in owned]
        kids[self.root] = top
        return kids

    def eval_case(self, i, val):
        """-> dict(U=utility of every node, lp=log prob of each alt, P=prob of every node, ll)"""
        U, mu = {}, {self.root: 1.0}
        for c, m, _ in self.nests:
            mu[c] = val[m] if m is not None else 1.0
        Q = {}
        for j, a in enumerate(self.alts):
            if not self.av[i, j]:
                U[a] = None
                Q[a] = 0.0
                continue
            u = 0.0
            Q[a] = 1.0
            if self.q:
                s = 0.0
                for p, v, sc in self.q:
                    s = s + cexp(val[p]) * self.cax[v][i, j] * sc
                Q[a] = s
                if abs(s) == 0:
                    U[a] = None
                    continue
                u = clog(s) * (val[self.qscale] if self.qscale else 1.0)
            for p, v, sc in self.ca:
                u = u + val[p] * self.cax[v][i, j] * sc
            for p, v, sc in self.co.get(a, ()):
                u = u + val[p] * (1.0 if v == "1" else self.cox[v][i]) * sc
            U[a] = u
        kids = self.children()

        def util(k):
            if k in U:
                return U[k]
            us = [x for x in (util(d) for d in kids[k]) if x is not None]
            if not us:
                U[k] = None
            else:
                m = mu[k]
                sh = max((x / m).real if isinstance(x / m, complex) else x / m for x in us)
                s = sum(cexp(x / m - sh) for x in us)
                U[k] = m * (clog(s) + sh)
            return U[k]

        util(self.root)
        lp = {self.root: 0.0}

        def down(k):
            for d in kids.get(k, ()):
                if U[d] is None or lp[k] is None:
                    lp[d] = None
                else:
                    lp[d] = lp[k] + (U[d] - U[k]) / mu[k]
                down(d)

        down(self.root)
        return U, lp, Q

    def nodes(self):
        return self.alts + [c for c, _, _ in self.nests] + [self.root]

    def evaluate(self, values=None, grad=True):
        val = dict(self.values if values is None else values)
        names = list(val)
        n, nn = self.n, self.nodes()
        out = dict(P=np.zeros((n, len(nn))), U=np.full((n, len(nn)), NEG), ll=np.zeros(n),
                   Q=np.zeros((n, len(self.alts))),
                   g=np.zeros((n, len(names))), bhhh=np.zeros((n, len(names), len(names))))
        h = 1e-30
        for i in range(n):
            w = 1.0 if self.wt is None else self.wt[i]
            U, lp, Q = self.eval_case(i, val)
            for k, c in enumerate(nn):
                out["P"][i, k] = 0.0 if lp[c] is None else math.exp(lp[c])
                out["U"][i, k] = NEG if U[c] is None else U[c]
            for j, a in enumerate(self.alts):
                out["Q"][i, j] = Q[a]
                if self.ch[i, j]:
                    out["ll"][i] += (NEG if lp[a] is None else lp[a]) * self.ch[i, j] * w
            if grad:
                D = {a: np.zeros(len(names)) for a in self.alts}
                for s, p in enumerate(names):
                    if p in self.holdfast:
                        continue
                    v2 = dict(val)
                    v2[p] = complex(val[p], h)
                    _, lp2, _ = self.eval_case(i, v2)
                    for a in self.alts:
                        x = lp2[a]
                        D[a][s] = (x.imag / h) if isinstance(x, complex) else 0.0
                for j, a in enumerate(self.alts):
                    if self.ch[i, j]:
                        out["g"][i] += D[a] * self.ch[i, j] * w
                        out["bhhh"][i] += np.outer(D[a], D[a]) * self.ch[i, j] * w
        out["names"] = names
        return out

    # ---------------------------------------------------------------- frames
    def frame_ca(self, order=None, sparse=False, extra=()):
        """idca/idce DataFrame; order: optional permutation of rows"""
        rows, idx = [], []
        for i in range(self.n):
            for j, a in enumerate(self.alts):
                if sparse and not self.av[i, j]:
                    continue
                idx.append((self.caseids[i], a))
                r = {k: v[i, j] for k, v in self.cax.items()}
                r["ch_"] = self.ch[i, j]
                if not sparse:
                    r["av_"] = int(self.av[i, j])
                rows.append(r)
        df = pd.DataFrame(rows, index=pd.MultiIndex.from_tuples(idx, names=["caseid", "altid"]))
        if order is not None:
            df = df.iloc[order]
        return df

    def frame_co(self):
        d = {k: v for k, v in self.cox.items()}
        if self.wt is not None:
            d["wt_"] = self.wt
        for j, a in enumerate(self.alts):
            d[f"av_{a}"] = self.av[:, j]
            d[f"ch_{a}"] = self.ch[:, j]
        ch1 = (self.ch == 1).sum(1)
        if (ch1 == 1).all() and (self.ch.sum(1) == 1).all():
            d["chcode_"] = np.asarray(self.alts)[self.ch.argmax(1)]
        df = pd.DataFrame(d, index=pd.Index(self.caseids, name="caseid"))
        return df

    # ---------------------------------------------------------------- larch models
    def apply_structure(self, m, choice="auto", avail="auto", fmt="ca"):
        from larch import P, X
        if self.ca:
            m.utility_ca = _lin(self.ca)
        for a, terms in self.co.items():
            m.utility_co[a] = _lin(terms)
        if self.q:
            m.quantity_ca = _lin(self.q)
        if self.qscale:
            m.quantity_scale = self.qscale
        if choice == "ca":
            m.choice_ca_var = "ch_"
        elif choice == "code":
            m.choice_co_code = "chcode_"
        elif choice == "co":
            m.choice_co_vars = {a: f"ch_{a}" for a in self.alts}
        if avail == "ca":
            m.availability_var = "av_"
        elif avail == "co":
            m.availability_co_vars = {a: f"av_{a}" for a in self.alts}
        elif avail == "ce":
            m.availability_var = "_avail_"
        elif avail == "any":
            m.availability_any = True
        if self.wt is not None:
            m.weight_co_var = "wt_"

    def add_nests(self, m):
        for c, mu, ch in self.nests:
            m.graph.add_node(c, parameter=mu, name=f"nest{c}")
        for c, mu, ch in self.nests:
            for x in ch:
                m.graph.add_edge(c, x)

    def set_params(self, m):
        for p, v in self.values.items():
            if p in m:
                m.set_value(p, v, holdfast=1 if p in self.holdfast else 0)

    def dataset(self, fmt):
        """larch Dataset in format co | ca | ce, other-format vars merged as (caseid,) arrays"""
        import larch.numba as lx
        import xarray as xr
        co = self.frame_co()
        if fmt == "co":
            return lx.Dataset.construct.from_idco(co, alts={a: f"n{a}" for a in self.alts})
        if fmt == "ca":
            ds = lx.Dataset.construct.from_idca(self.frame_ca(), crack=False)
        elif fmt == "ca-sparse":
            ds = lx.Dataset.construct.from_idca(self.frame_ca(sparse=True), crack=False, fill_missing=0)
        elif fmt == "ce":
            ds = lx.Dataset.construct.from_idce(self.frame_ca(sparse=True), crack=False)
        elif fmt == "ce-full":      # every row present, some flagged unavailable
            ds = lx.Dataset.construct.from_idce(self.frame_ca(), crack=False)
        elif fmt == "ce-rev":       # rows in reverse order
            ds = lx.Dataset.construct.from_idce(self.frame_ca(sparse=True).iloc[::-1], crack=False)
        elif fmt == "ca-rev":
            ds = lx.Dataset.construct.from_idca(self.frame_ca().iloc[::-1], crack=False)
        elif fmt == "ce-alt":       # rows ordered by alternative, then case
            f = self.frame_ca(sparse=True)
            ds = lx.Dataset.construct.from_idce(f.iloc[sorted(range(len(f)), key=lambda i: f.index[i][1])], crack=False)
        else:
            raise ValueError(fmt)
        for k in co.columns:
            ds[k] = xr.DataArray(co[k].loc[list(ds.coords["caseid"].values)].values, dims="caseid")
        return ds

    def numba_model(self, fmt="ca", choice=None, avail=None, ds=None):
        import larch.numba as lx
        ds = self.dataset(fmt) if ds is None else ds
        choice = choice or ("code" if fmt == "co" else "ca")
        avail = avail or {"co": "co", "ca": "ca", "ca-rev": "ca", "ca-sparse": "ce", "ce": "any", "ce-rev": "any",
                          "ce-alt": "any", "ce-full": "ca"}[fmt]
        m = lx.Model(ds)
        self.apply_structure(m, choice, avail, fmt)
        if fmt.startswith("ce") and avail == "any":
            m.availability_any = False
            m.availability_var = "1"
        self.add_nests(m)
        m.unmangle()
        self.set_params(m)
        return m

    def dataframes(self, fmt="ca"):
        """computational DataFrames with exactly the needed pieces"""
        import larch
        av = pd.DataFrame(self.av.astype(np.int8), index=pd.Index(self.caseids, name="caseid"), columns=self.alts)
        ch = pd.DataFrame(self.ch, index=pd.Index(self.caseids, name="caseid"), columns=self.alts)
        co = pd.DataFrame({k: v for k, v in self.cox.items()}, index=pd.Index(self.caseids, name="caseid")) if self.cox else None
        kw = dict(co=co, ch=ch, av=av, alt_codes=self.alts, alt_names=[f"n{a}" for a in self.alts])
        if self.wt is not None:
            kw["wt"] = pd.Series(self.wt, index=ch.index)
        if self.cax:
            if fmt == "ca":
                kw["ca"] = self.frame_ca()[list(self.cax)]
            else:
                kw["ce"] = self.frame_ca(sparse=True)[list(self.cax)]
        return larch.DataFrames(**kw)

    def legacy_model(self, fmt="ca", cls=None, dfs=None):
        import larch
        m = (cls or larch.Model)()
        dfs = self.dataframes(fmt) if dfs is None else dfs
        self.apply_structure(m, None, None)
        m.graph = larch.model.tree.NestingTree()
        m.initialize_graph(alternative_codes=self.alts, alternative_names=[f"n{a}" for a in self.alts])
        self.add_nests(m)
        if hasattr(m, "n_threads"):
            m.n_threads = 1
        m.set_dataframes(dfs, False)
        m.unmangle()
        self.set_params(m)
        return m


def _lin(terms):
    from larch import P, X
    from larch.model.linear import LinearFunction_C
    f = None
    for p, v, sc in terms:
        t = P(p) if v == "1" else P(p) * X(v)
        if sc != 1:
            t = t * sc
        f = t if f is None else f + t
    return f


def cexp(x):
    return cmath.exp(x) if isinstance(x, complex) else math.exp(x)


def clog(x):
    return cmath.log(x) if isinstance(x, complex) else math.log(x)


def close(a, b, rtol=1e-9, atol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))))
