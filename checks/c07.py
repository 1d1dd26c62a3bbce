"""C07: a nesting tree stays consistent under any sequence of edits (explicit-state exploration of the real class)."""
import copy, pickle, itertools, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
import larch
from larch.model.tree import NestingTree
from vk.harness import Check

CK = Check("C07", "model_checking",
           assumptions=["edits that would create a cycle, and removing the root node, are outside the interface",
                        "attribute dictionaries and bulk methods inherited from networkx are not used to edit the tree"],
           bounds=dict(nodes="root, alternatives 1-3, nests 11-12 and generated codes",
                       depth="2-3 edits (3-4 in the thorough tier) from each of five starting trees, each preceded by all, some or no queries"))
DEPTH = dict(none=3, alts=4, nested=4, deep=3, order=3) if CK.thorough else dict(none=3, alts=3, nested=2, deep=2, order=2)
ALT = (1, 2, 3)


class Ref:
    """the graph as the documentation describes it"""

    def __init__(self):
        self.root = 0
        self.nodes = {0: dict(name="_root_", root=True)}
        self.edges = {}     # (u, v) -> implied
        self.order = ()

    def clone(self):
        r = Ref()
        r.root, r.order = self.root, self.order
        r.nodes = {k: dict(v) for k, v in self.nodes.items()}
        r.edges = dict(self.edges)
        return r

    def ups(self, v):
        return [a for a, b in self.edges if b == v]

    def dns(self, u):
        return [b for a, b in self.edges if a == u]

    def reach(self, u):
        out, todo = {u}, [u]
        while todo:
            for b in self.dns(todo.pop()):
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    def settle(self):
        for v in self.nodes:
            if v != self.root and not self.ups(v):
                self.edges[self.root, v] = True

    def add_edge(self, u, v):
        for e in [e for e, imp in self.edges.items() if imp and e[1] == v]:
            del self.edges[e]
        for x in (u, v):
            self.nodes.setdefault(x, {})
        self.edges[u, v] = False
        self.settle()

    def remove_edge(self, u, v):
        del self.edges[u, v]
        self.settle()

    def add_node(self, c, children=(), parents=(), **attr):
        self.nodes.setdefault(c, {}).update(attr)
        for x in children:
            self.add_edge(c, x)
        for p in parents:
            self.add_edge(p, c)
        self.settle()

    def remove_node(self, n):
        ins = [(u, imp) for (u, v), imp in self.edges.items() if v == n]
        outs = self.dns(n)
        del self.nodes[n]
        self.edges = {e: i for e, i in self.edges.items() if n not in e}
        for k in outs:
            for u, imp in ins:
                if not imp:
                    self.edges[u, k] = False
        self.settle()

    def set_root(self, x):
        old = self.root
        del self.nodes[old]
        self.nodes[x] = dict(name="_root_", root=True)
        self.root = x
        self.edges = {((x if u == old else u), v): i for (u, v), i in self.edges.items()}

    def subgraph(self, n):
        r = Ref()
        keep = self.reach(n)
        r.root = n
        r.nodes = {k: dict(v) for k, v in self.nodes.items() if k in keep}
        r.edges = {e: i for e, i in self.edges.items() if e[0] in keep and e[1] in keep}
        r.order = tuple(j for j in self.order if j in keep)
        return r

    def elementals(self):
        el = [n for n in self.nodes if not self.dns(n)]
        return tuple([j for j in self.order if j in el] + [j for j in sorted(el) if j not in self.order])

    def key(self):
        return (self.root, self.order, tuple(sorted((k, tuple(sorted(a.items(), key=str))) for k, a in self.nodes.items())),
                tuple(sorted(self.edges.items())))


# ---------------------------------------------------------------- operations
def ok_edge(r, u, v):
    return u != v and v != r.root and not (u in r.nodes and v in r.nodes and u in r.reach(v))


def menu(r):
    """every operation enabled in r: (label, real(tree) -> tree, ref(r) -> r)"""
    out = []

    def op(label, real, ref):
        out.append((label, real, ref))

    def addn(c, children=(), parents=None, parent=None, **attr):
        ps = parents if parents is not None else (() if parent is None else (parent,))
        t = r.clone()
        for x in children:
            if not ok_edge(t, c, x):
                return
            t.add_edge(c, x)
        for p in ps:
            if not ok_edge(t, p, c):
                return
            t.add_edge(p, c)
        kw = dict(attr)
        if children:
            kw["children"] = children
        if parents is not None:
            kw["parents"] = parents
        if parent is not None:
            kw["parent"] = parent
        op(f"add_node({c}, {kw})", lambda g: (g.add_node(c, **kw), g)[1],
           lambda q: (q.add_node(c, children, ps, **attr), q)[1])

    R = r.root
    for a in (1, 3):
        addn(a)
    addn(11)
    addn(11, parameter="m1")
    addn(12, parent=11)
    addn(12, parent=R, name="N")
    addn(12, parents=(R, 11))
    addn(11, children=(1, 2))
    addn(12, children=(2, 3), parameter="m2")
    addn(12, children=(11,))
    addn(12, children=(3, 1), parent=11)
    addn(2, parent=11)

    def newn(**kw):
        n = len(r.nodes)
        while n in r.nodes:
            n += 1
        t = r.clone()
        for x in kw.get("children", ()):
            if x not in r.nodes:
                return
        if "parent" in kw and kw["parent"] not in r.nodes:
            return

        def real(g):
            got = g.new_node(**kw)
            if got != n and (got in r.nodes):
                raise AssertionError(f"new_node returned the existing code {got}")
            if got != n:
                raise AssertionError(f"new_node returned {got}")
            return g
        op(f"new_node({kw})", real, lambda q: (q.add_node(n, kw.get("children", ()), (kw["parent"],) if "parent" in kw else (),
                                                          **{k: v for k, v in kw.items() if k in ("parameter", "name")}), q)[1])
    newn(children=(1,), parameter="mx")
    if 11 in r.nodes:
        newn(parent=11)
        op("add_nodes([3, 2], parent=11)", lambda g: (g.add_nodes([3, 2], parent=11), g)[1],
           lambda q: (q.add_node(3, (), (11,)), q.add_node(2, (), (11,)), q)[2]) \
            if ok_edge(r, 11, 3) and ok_edge(r, 11, 2) else None
    for u, v in [(11, 1), (11, 2), (12, 2), (12, 3), (11, 12), (12, 11), (R, 1), (R, 12), (11, 4), (13, 11)]:
        if ok_edge(r, u, v):
            op(f"add_edge({u}, {v})", lambda g, u=u, v=v: (g.add_edge(u, v), g)[1], lambda q, u=u, v=v: (q.add_edge(u, v), q)[1])
    for (u, v) in list(r.edges):
        op(f"remove_edge({u}, {v})", lambda g, u=u, v=v: (g.remove_edge(u, v), g)[1],
           lambda q, u=u, v=v: (q.remove_edge(u, v), q)[1])
    for n in list(r.nodes):
        if n != R:
            op(f"remove_node({n})", lambda g, n=n: (g.remove_node(n), g)[1], lambda q, n=n: (q.remove_node(n), q)[1])
    for o in [(3, 2, 1), (2,), (11, 3)]:
        def ref(q, o=o):
            q.order = tuple(j for j in o if j in q.nodes)
            return q
        op(f"suggest_elemental_order({o})", lambda g, o=o: (g.suggest_elemental_order(o), g)[1], ref)
    for x in (0, 99):
        if x not in r.nodes or x == R:
            def setroot(g, x=x):
                g.root_id = x
                return g
            op(f"root_id = {x}", setroot, lambda q, x=x: (q.set_root(x), q)[1])
    op("copy()", lambda g: g.copy(), lambda q: q)
    op("pickle", lambda g: pickle.loads(pickle.dumps(g)), lambda q: q)
    if 11 in r.nodes and r.dns(11):
        op("subgraph_from(11)", lambda g: g.subgraph_from(11), lambda q: q.subgraph(11))
    # not edits: fill caches
    op("query all", lambda g: (queries(g), g)[1], lambda q: q)
    op("query order", lambda g: (g.standard_sort, g)[1], lambda q: q)
    return out


def queries(g):
    g.standard_sort, g.standard_slot_map, g.standard_competitive_edge_list, g.standard_competitive_edge_list_2
    for n in g.nodes:
        g.predecessor_slots(n), g.successor_slots(n)


# ------------------------------------------------------------------- checks
def dup(x):
    """copy of plain containers, sharing nothing mutable"""
    if isinstance(x, (list, np.ndarray)):
        return x.copy()
    if isinstance(x, dict):
        return type(x)((k, dup(v)) for k, v in x.items())
    if isinstance(x, (int, str, bool, tuple, type(None))):
        return x
    return copy.deepcopy(x)


def snap(g):
    """copy of the object with its caches as they are"""
    new = g.__class__.__new__(g.__class__)
    d = g.__dict__
    for k, v in d.items():
        if k in ("_adj", "_succ"):
            continue
        if k == "_pred":
            continue
        if isinstance(v, (dict, list, int, str, bool, tuple, np.ndarray, type(None))):
            new.__dict__[k] = dup(v)
        elif type(v).__module__.startswith("networkx."):
            pass        # networkx views of this graph, made again when needed
        else:
            new.__dict__[k] = copy.deepcopy(v, {id(g): new})
    adj, pred = {}, {}
    edge = {}
    new_adj = type(d["_adj"])()
    for u, nb in d["_adj"].items():
        new_adj[u] = type(nb)((v, edge.setdefault((u, v), dict(a))) for v, a in nb.items())
    new_pred = type(d["_pred"])()
    for v, nb in d["_pred"].items():
        new_pred[v] = type(nb)((u, edge[u, v]) for u in nb)
    new.__dict__["_adj"] = new_adj
    if "_succ" in d:
        new.__dict__["_succ"] = new_adj
    new.__dict__["_pred"] = new_pred
    return new


def implkey(g):
    caches = tuple(sorted(k for k in g.__dict__ if k in
                          ("topological_sorted", "topological_sorted_no_elementals", "standard_sort", "standard_slot_map", "elementals",
                           "standard_competitive_edge_list", "standard_competitive_edge_list_2")))
    return (g._root_id, tuple(g._suggested_elemental_order), tuple((n, tuple(sorted(a.items(), key=str))) for n, a in g._node.items()),
            tuple((u, tuple((v, tuple(sorted(a.items(), key=str))) for v, a in d.items())) for u, d in g._adj.items()),
            tuple((u, tuple(d)) for u, d in g._pred.items()),
            caches, tuple(sorted(g._predecessor_slots)), tuple(sorted(g._successor_slots)))


class Slots:
    """stand-in for the model that owns the tree"""
    P = dict(m1=.5, m2=.25, mx=.125)

    def get_value(self, p, default=None):
        return self.P.get(p, default)

    def get_slot_x(self, p, holdfast_invalidates=False):
        return {"m1": 4, "m2": 7, "mx": 9}.get(p, -1)


def problems(g, r):
    """first difference between tree g and reference r"""
    if g.root_id != r.root:
        return "root", f"root is {g.root_id}, expected {r.root}"
    if set(g.nodes) != set(r.nodes):
        return "nodes", f"nodes {sorted(g.nodes)}, expected {sorted(r.nodes)}"
    for n in r.nodes:
        if dict(g.nodes[n]) != r.nodes[n]:
            return "attributes", f"attributes of {n}: {dict(g.nodes[n])}, expected {r.nodes[n]}"
    if set(g.edges) != set(r.edges):
        return "edges", f"edges {sorted(g.edges)}, expected {sorted(r.edges)}"
    for e, i in r.edges.items():
        if bool(g.edges[e].get("implied")) != i:
            return "implied", f"edge {e} implied={g.edges[e].get('implied')}, expected {i}"
    if r.reach(r.root) != set(r.nodes):
        raise AssertionError("reference tree is not connected")
    el = r.elementals()
    if tuple(g.elementals) != el:
        return "elementals", f"elementals {g.elementals}, expected {el}"
    if g.n_elementals() != len(el) or (len(r.nodes) > 1 and g.n_intermediate_nests() != len(r.nodes) - len(el) - 1) or g.n_edges != len(r.edges) or len(g) != len(r.nodes):
        return "counts", f"counts {g.n_elementals()}, {g.n_intermediate_nests()}, {g.n_edges}, {len(g)}"
    ss = tuple(g.standard_sort)
    if sorted(ss) != sorted(r.nodes) or ss[:len(el)] != el:
        return "standard_sort", f"standard_sort {ss}, nodes {sorted(r.nodes)}, elementals {el}"
    pos = {n: i for i, n in enumerate(ss)}
    for u, v in r.edges:
        if pos[v] >= pos[u]:
            return "standard_sort", f"standard_sort {ss}: {v} is a child of {u} and comes after it"
    if ss[-1] != r.root:
        return "standard_sort", f"standard_sort {ss} does not end with the root"
    ts = list(g.topological_sorted)
    tp = {n: i for i, n in enumerate(ts)}
    if sorted(ts) != sorted(r.nodes) or any(tp[v] >= tp[u] for u, v in r.edges):
        return "topological", f"topological_sorted {ts} for edges {sorted(r.edges)}"
    tn = list(g.topological_sorted_no_elementals)
    if tn != [n for n in ts if n not in el]:
        return "topological", f"topological_sorted_no_elementals {tn}, all: {ts}, elementals: {el}"
    if dict(g.standard_slot_map) != pos:
        return "slot_map", f"standard_slot_map {dict(g.standard_slot_map)}, expected {pos}"
    names = {n: r.nodes[n].get("name", str(n)) for n in ss}
    if list(g.standard_sort_names) != [names[n] for n in ss] or g.node_names() != names or g.elemental_names() != {n: names[n] for n in el}:
        return "names", f"names {g.standard_sort_names}, expected {names}"
    for n in ss:
        if sorted(g.predecessor_slots(n)) != sorted(pos[u] for u in r.ups(n)):
            return "predecessors", f"predecessor_slots({n}) = {g.predecessor_slots(n)}, expected nodes {r.ups(n)} of order {ss}"
        if sorted(g.successor_slots(n)) != sorted(pos[u] for u in r.dns(n)):
            return "successors", f"successor_slots({n}) = {g.successor_slots(n)}, expected nodes {r.dns(n)} of order {ss}"
        if sorted(g.elemental_descendants(n)) != sorted(x for x in r.reach(n) if x in el):
            return "descendants", f"elemental_descendants({n}) = {g.elemental_descendants(n)}, expected {sorted(x for x in r.reach(n) if x in el)}"
    if sorted(g.nodes_with_successors_iter()) != sorted(set(u for u, _ in r.edges)):
        return "with_successors", "nodes_with_successors_iter"
    multi = [n for n in r.nodes if len(r.ups(n)) > 1]
    if sorted(g.standard_competitive_edge_list) != sorted((u, n) for n in multi for u in r.ups(n)):
        return "competitive", f"standard_competitive_edge_list {g.standard_competitive_edge_list}, edges {sorted(r.edges)}"
    if sorted((tuple(a), b) for a, b in g.standard_competitive_edge_list_2) != sorted((tuple(sorted(r.ups(n))), n) for n in multi):
        return "competitive", f"standard_competitive_edge_list_2 {g.standard_competitive_edge_list_2}"
    # arrays of edges: grouped by upstream node in node order
    loc = {e: 100 + i for i, e in enumerate(sorted(r.edges))}
    up, dn, first, alloc = g.edge_slot_arrays(loc)
    if sorted(zip(up.tolist(), dn.tolist())) != sorted((pos[u], pos[v]) for u, v in r.edges):
        return "edge_arrays", f"edge arrays {up}, {dn} for order {ss} and edges {sorted(r.edges)}"
    if list(up) != sorted(up):
        return "edge_arrays", f"edges are not grouped in node order: {up}"
    seen = set()
    for i in range(len(dn)):
        if bool(first[i]) != (dn[i] not in seen):
            return "edge_arrays", f"first_visit {first} for {dn}"
        seen.add(dn[i])
        if alloc[i] != loc[ss[up[i]], ss[dn[i]]]:
            return "edge_arrays", f"alloc slot {alloc}"
    mu, start, num = g.node_slot_arrays(np.float64, Slots.P)
    muslot, start2, num2 = g.node_slot_arrays(Slots())
    mu3, muslot3, up3, dn3, num3, start3, val3 = g._get_simple_mu_and_alpha(Slots())
    for i, n in enumerate(ss):
        p = r.nodes[n].get("parameter")
        if mu[i] != Slots.P.get(p, 1.0) or mu3[i] != Slots.P.get(p, 1.0) or muslot[i] != Slots().get_slot_x(p) or muslot3[i] != Slots().get_slot_x(p):
            return "node_arrays", f"node {n} parameter {p}: mu={mu[i]}/{mu3[i]} slot={muslot[i]}/{muslot3[i]}"
        kids = sorted(pos[v] for v in r.dns(n))
        for s, k, d in ((start, num, dn), (start2, num2, dn), (start3, num3, dn3)):
            got = sorted(d[s[i]:s[i] + k[i]].tolist()) if k[i] else []
            if got != kids or (not kids and s[i] != -1):
                return "node_arrays", f"node {n}: block {s[i]}+{k[i]} gives {got}, expected {kids}"
    for i in range(len(dn3)):
        if abs(val3[i] - 1 / len(r.ups(ss[dn3[i]]))) > 1e-12 or (up3[i], dn3[i]) != (up[i], dn[i]):
            return "alpha", f"allocation arrays {up3}, {dn3}, {val3}"
    aa = g.as_arrays(np.float64, parameter_dict=Slots.P)
    ne = len(el)
    for k, x in dict(n_nodes=len(ss), n_alts=ne, edges_up=up, edges_dn=dn, edges_1st=first, mu_params=mu[ne:], start_slots=start[ne:], len_slots=num[ne:]).items():
        if not np.array_equal(aa[k], x):
            return "as_arrays", f"as_arrays {k}: {aa[k]} vs {x}"
    return None


def independent(g, r, path, rec):
    """copies, pickles and subgraphs equal the tree and share nothing with it"""
    before = implkey(g)
    made = [("copy", g.copy(), r), ("pickle", pickle.loads(pickle.dumps(g)), r), ("constructor", NestingTree(g), r)]
    for n in r.nodes:
        if r.dns(n):
            made.append((f"subgraph_from({n})", g.subgraph_from(n), r.subgraph(n)))
    for what, c, q in made:
        p = problems(c, q)
        if p:
            rec.violation(f"{what.split('(')[0]}:{p[0]}", f"after {path}: {what}: {p[1]}")
            continue
        if q is r and not (c == g):
            rec.violation(f"{what}:unequal", f"after {path}: the {what} does not compare equal to the tree")
        q = q.clone()
        c.add_node(77, parent=q.root, name="new")
        q.add_node(77, (), (q.root,), name="new")
        c.nodes[q.root]["note"] = 1
        q.nodes[q.root]["note"] = 1
        for u, v in list(q.edges):
            if v in ALT:
                c.remove_node(v)
                q.remove_node(v)
                break
        c.suggest_elemental_order((77,))
        q.order = (77,)
        p = problems(c, q)
        if p:
            rec.violation(f"{what.split('(')[0]}:edited:{p[0]}", f"after {path}: edited {what}: {p[1]}")
        if implkey(g) != before:
            rec.violation(f"{what.split('(')[0]}:shared", f"after {path}: editing the {what} changed the original")
            return
        rec.count("copies")
    if c == g and not (set(c.nodes) == set(g.nodes)):
        rec.violation("equality", f"after {path}: tree compares equal to a different tree")


def start(kind):
    g, r = NestingTree(), Ref()
    if kind in ("alts", "nested", "empty-nest", "deep"):
        for a in (2, 1, 3):
            g.add_node(a, name=f"A{a}")
            r.add_node(a, name=f"A{a}")
    if kind == "nested":
        g.new_node(code=11, children=(1, 2), parameter="m1")
        r.add_node(11, (1, 2), parameter="m1")
    if kind == "deep":
        g.add_node(11, children=(1, 2), parameter="m1")
        g.add_node(12, children=(11, 3), parameter="m2")
        g.add_edge(12, 2)
        r.add_node(11, (1, 2), parameter="m1")
        r.add_node(12, (11, 3), parameter="m2")
        r.add_edge(12, 2)
    if kind == "order":
        g = NestingTree(root_id=7, suggested_elemental_order=(3, 1))
        r.root, r.nodes, r.order = 7, {7: dict(name="_root_", root=True)}, (3, 1)
        for a in ALT:
            g.add_node(a)
            r.add_node(a)
    return g, r


seen_graphs = set()


def visit(g, r, path, depth, rec, seen):
    k = implkey(g)
    if seen.get(k, -1) >= depth:
        return
    first = k not in seen
    seen[k] = depth
    if first:
        rec.state(k)
        if len(r.nodes) > 1:
            p = problems(snap(g), r)
            rec.trace()
            rec.outcome((r.key()))
            if p:
                rec.violation(p[0], f"after {' ; '.join(path)}:\n{p[1]}")
                return
            rk = r.key()
            if rk not in seen_graphs:
                seen_graphs.add(rk)
                independent(snap(g), r, " ; ".join(path), rec)
    if depth == 0:
        return
    for label, real, ref in menu(r):
        if label.startswith("query") and (path and path[-1].startswith("query")):
            continue
        g2, r2 = snap(g), r.clone()
        rec.step()
        where = path + [label]
        try:
            g2 = real(g2)
        except Exception as e:
            rec.violation(f"raises:{label.split('(')[0]}:{type(e).__name__}", f"after {' ; '.join(path)}: {label} raised {type(e).__name__}: {e}")
            continue
        r2 = ref(r2)
        visit(g2, r2, where, depth - (0 if label.startswith("query") else 1), rec, seen)


SEEN = {}


def task(t, rec):
    kind, i = t
    g, r = start(kind)
    path = [f"start {kind}"]
    if i is None:
        visit(g, r, path, 0, rec, {})
        return
    ops = menu(r)
    if i >= len(ops):
        return
    label, real, ref = ops[i]
    g2 = real(snap(g))
    r2 = ref(r.clone())
    visit(g2, r2, path + [label], DEPTH[kind] - (0 if label.startswith("query") else 1), rec, SEEN)
    rec.sample(" ; ".join(path + [label]))


tasks = []
for kind in ["none", "alts", "nested", "deep", "order"]:
    tasks.append((kind, None))
    g, r = start(kind)
    tasks += [(kind, i) for i in range(len(menu(r)))]
CK.section("histories", tasks, task)
CK.finish()
