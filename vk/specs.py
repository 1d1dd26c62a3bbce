"""Exhaustive generators of small model specs (shared by the engine checks)."""
import itertools
import numpy as np
from .choice import Spec

X3 = {  # deterministic, generic attribute tables; row r of the case list uses r mod len
    "x": [[1.0, 2.0, 3.0, 0.5], [2.0, -1.0, 0.0, 1.5], [1.25, 1.0, 2.0, -0.5], [3.0, 1.0, 1.5, 2.25], [0.0, 0.5, -2.0, 1.0]],
    "y": [[.5, .2, .1, .7], [.0, .3, .4, .6], [.1, .9, .3, .2], [.2, .1, .7, .5], [.8, .6, .35, .15]],
    "z": [[1, 3, 2, 5.], [4, 2, 1, 3], [2, 2.5, 6, 1], [1, 1, 2, 2], [5, 3, 1, 4]],
    "w": [[0, 1, 2, 3.], [1, 0, 0, 2], [3, 1, .5, 0], [0, 0, 1, 1], [2, 0, 4, 0]],
}
INC = [1.0, 2.5, 0.5, 3.0, 1.75]
HH = [0.0, 1.0, 2.0, 1.0, 0.0]


def laminar_trees(alts, maxnests, codes=(101, 102, 103, 104)):
    """All nesting structures with at most maxnests nests over the alts: ordered lists of
    nonempty leaf sets forming a laminar family (equal sets = chain), as (code,[children]) lists."""
    subsets = [frozenset(s) for r in range(1, len(alts) + 1) for s in itertools.combinations(alts, r)]
    out = []
    for k in range(maxnests + 1):
        for fam in itertools.combinations_with_replacement(range(len(subsets)), k):
            sets = [subsets[i] for i in fam]
            if any(not (a <= b or b <= a or not (a & b)) for a, b in itertools.combinations(sets, 2)):
                continue
            # sort so a child precedes its parent; equal sets chain in listed order
            order = sorted(range(k), key=lambda i: (len(sets[i]), i))
            nests = []
            owner = {}
            for pos, i in enumerate(order):
                kids = []
                rest = set(sets[i])
                # direct children = maximal earlier unowned nests within this set
                for q in range(pos - 1, -1, -1):
                    if q not in owner and sets[order[q]] <= sets[i]:
                        owner[q] = pos
                        kids.append(codes[q])
                        rest -= sets[order[q]]
                kids = [a for a in alts if a in rest] + kids[::-1]
                nests.append((codes[pos], kids))
            out.append(nests)
    return out


def all_cases(nalts, empty=True, multi=True):
    """every availability subset x every available choice, plus split/multiple/absent choices"""
    av, ch = [], []
    for m in range(1, 1 << nalts):
        s = [j for j in range(nalts) if m >> j & 1]
        a = [1 if j in s else 0 for j in range(nalts)]
        for c in s:
            av.append(a); ch.append([1.0 if j == c else 0.0 for j in range(nalts)])
        if multi and len(s) > 1:
            av.append(a); ch.append([(0.25 if j == s[0] else 0.75 if j == s[-1] else 0.0) for j in range(nalts)])
    if multi:
        av.append([1] * nalts); ch.append([2.0] + [0.0] * (nalts - 1))
        av.append([1] * nalts); ch.append([float(j == 0) + float(j == nalts - 1) * 2 for j in range(nalts)])
        av.append([1] * nalts); ch.append([0.0] * nalts)
    if empty:
        av.append([0] * nalts); ch.append([0.0] * nalts)
    return av, ch


STRUCTS = {
    # name: (ca, co(alt index -> terms), q, qscale)
    "ca":     ([("b1", "x", 1), ("b2", "y", 1)], {}, [], None),
    "co":     ([], {0: [("c1", "inc", 1)], 1: [("a2", "1", 1), ("c2", "inc", 1)], 2: [("a3", "1", 1), ("c3", "hh", 1)]}, [], None),
    "mix":    ([("b1", "x", 1), ("b2", "y", -2.5)], {1: [("a2", "1", 1), ("c2", "inc", 0.5)], 2: [("a3", "1", 1)]}, [], None),
    "shared": ([("b1", "x", 1), ("b1", "y", 3.0)], {0: [("b1", "inc", 1), ("a2", "1", 2.0)], 1: [("a2", "1", 1), ("a2", "hh", -1)]}, [], None),
    "q":      ([("b1", "x", 1)], {2: [("a3", "1", 1)]}, [("g1", "z", 1), ("g2", "w", 2.0)], None),
    "qs":     ([("b1", "x", 1)], {1: [("a2", "1", 1), ("c2", "inc", 1)]}, [("g1", "z", 1), ("g2", "w", 1)], "theta"),
    # one parameter in several roles
    "qq":     ([("b1", "x", 1)], {}, [("g1", "z", 1), ("g1", "w", 2.0)], None),
    "qx":     ([("g1", "x", 1), ("b1", "y", 1)], {1: [("theta", "inc", .5)]}, [("g1", "z", 1), ("theta", "w", 1)], "theta"),
    "mux":    ([("b1", "x", 1), ("mu1", "y", 1)], {1: [("a2", "1", 1)]}, [("g1", "z", 1)], "mu1"),
    "q0":     ([("b1", "x", 1)], {2: [("a3", "1", 1)]}, [("g2", "w", 2.0)], None),
}
VALUES = {
    "gen":  dict(b1=0.31, b2=-0.22, a2=0.35, c1=0.11, c2=-0.17, a3=-0.42, c3=0.27, g1=0.15, g2=-0.33, theta=0.7,
                 mu1=0.6, mu2=0.45, mu3=0.85),
    "zero": dict(b1=0., b2=0., a2=0., c1=0., c2=0., a3=0., c3=0., g1=0., g2=0., theta=1., mu1=1., mu2=1., mu3=1.),
    "hot":  dict(b1=3.1, b2=7.5, a2=-5.5, c1=2.5, c2=4.0, a3=6.0, c3=-3., g1=1.5, g2=-2.2, theta=0.35,
                 mu1=0.35, mu2=0.2, mu3=0.3),
    "huge": dict(b1=150., b2=75., a2=-255., c1=125., c2=240.0, a3=160.0, c3=-130., g1=1.5, g2=-2.2, theta=0.9,
                 mu1=0.75, mu2=0.5, mu3=0.6),
}
WEIGHTS = {"none": None, "w": [1.0, 2.0, 0.5, 0.0, 3.25, 1.5, 0.75]}


def make(struct="mix", nests=(), values="gen", alts=(1, 2, 3), weights="none", holdfast=(), musame=False,
         rows=None, caseids=None, empty=True, multi=True, only_single=False):
    alts = list(alts)
    ca, co, q, qs = STRUCTS[struct]
    av, ch = rows if rows is not None else all_cases(len(alts), empty, multi)
    n = len(av)
    pick = lambda t: [t[i % len(t)] for i in range(n)]
    used = {v for _, v, _ in ca} | {v for _, v, _ in q}
    cax = {v: [r[:len(alts)] for r in pick(X3[v])] for v in ("x", "y", "z", "w") if v in used}
    cou = {v for t in co.values() for _, v, _ in t}
    cox = {v: pick(t) for v, t in (("inc", INC), ("hh", HH)) if v in cou}
    co2 = {alts[j]: t for j, t in co.items() if j < len(alts)}
    mus = []
    nn = []
    for k, (c, kids) in enumerate(nests):
        mu = "mu1" if musame else f"mu{k + 1}"
        mus.append(mu)
        nn.append((c, mu, kids))
    names = []
    for p in [p for p, _, _ in ca] + [p for t in co2.values() for p, _, _ in t] + [p for p, _, _ in q] + ([qs] if qs else []) + mus:
        if p not in names:
            names.append(p)
    wt = WEIGHTS[weights]
    if wt is not None:
        wt = [wt[i % len(wt)] for i in range(n)]
    if struct == "q0":   # alternatives of size zero are never chosen
        keep = [i for i in range(n) if not any(cax["w"][i][j] == 0 and ch[i][j] for j in range(len(alts)))]
        cut = lambda t: [t[i] for i in keep]
        av, ch, wt = cut(av), cut(ch), None if wt is None else cut(wt)
        cax, cox = {k: cut(t) for k, t in cax.items()}, {k: cut(t) for k, t in cox.items()}
        caseids = None if caseids is None else cut(caseids)
    hold = {h for h in holdfast if h in names}
    s = Spec(alts, nn, ca, co2, q, qs, cax, cox, av, ch, wt, {p: VALUES[values][p] for p in names}, hold, caseids)
    return s
