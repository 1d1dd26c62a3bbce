"""C11: utility expressions mean the algebra they are written in."""
import itertools, math, operator as O, warnings
warnings.simplefilter("ignore")
import numpy as np
import larch
from larch import P, X
from larch.model.linear import ParameterRef_C, DataRef_C, LinearComponent_C, LinearFunction_C, DictOfLinearFunction_C
from larch.model.linear_math import _ParameterOp
from vk.harness import Check, Violation

CK = Check("C11", "model_checking",
           assumptions=["a combination of operands may be refused with an error unless it is one of the supported ones listed in the check", "the parameter named _ stands for one"],
           bounds=dict(programs="every expression of one operator, and of two where the other operand of the second is one of 11 (thorough: 22) atoms, over 22 atoms and 12 operators; and of three operators + - * / over 6 atoms (thorough: four operators); values at 3 points",
                       edits="every sequence of up to 2 (thorough 3) in-place edits out of 24, on free-standing functions and on functions of a model"))
T = CK.thorough
BIN = {"+": O.add, "-": O.sub, "*": O.mul, "/": O.truediv, "**": O.pow, "//": O.floordiv, "&": O.and_, "|": O.or_, "^": O.xor}
UN = {"neg": O.neg, "pos": O.pos, "inv": O.invert}
ATOM = {   # text -> (kind)
    "P.a": "par", "P.b": "par", "P('c d')": "par",
    "X.x": "data", "X.y": "data", "X('x+y')": "data", "X('-2')": "data", "X('x-y')": "data", "X('1')": "data", "X('0')": "data", "X('x*y')": "data", "X('(x>2)+0')": "data",
    "X('00')": "data", "X('boolean(x==3)')": "data", "X('boolean(x==3.0)')": "data", "X('boolean(y==2)')": "data", "X('boolean(x==y)')": "data",
    "2": "num", "-3": "num", "0": "num", "1": "num", ".5": "num"}
DATA_TEXT = {"X.x": "x", "X.y": "y"}
ENVS = [dict(x=3, y=5, a=2., b=-1.5, c=.75), dict(x=7, y=2, a=-.5, b=3., c=2.25), dict(x=1.25, y=-.5, a=1.5, b=.25, c=-2.)]


class Bad(Exception):
    pass


def want(prog, env):
    """ordinary arithmetic on numbers"""
    if isinstance(prog, str):
        if prog.startswith("P"): return env[{"P.a": "a", "P.b": "b", "P('c d')": "c"}[prog]]
        if prog.startswith("X"): return eval(DATA_TEXT.get(prog) or prog[3:-2], {}, dict(x=env["x"], y=env["y"]))
        return eval(prog)
    if len(prog) == 2: return UN[prog[0]](want(prog[1], env))
    l, r = want(prog[1], env), want(prog[2], env)
    if prog[0] == "**" and (abs(r) > 6 or abs(l) > 1e4): raise OverflowError
    return BIN[prog[0]](l, r)


def build(prog):
    if isinstance(prog, str): return eval(prog, dict(P=P, X=X))
    if len(prog) == 2: return UN[prog[0]](build(prog[1]))
    return BIN[prog[0]](build(prog[1]), build(prog[2]))


def kind(r):
    if isinstance(r, ParameterRef_C): return "par"
    if isinstance(r, DataRef_C): return "data"
    if isinstance(r, LinearComponent_C): return "comp"
    if isinstance(r, LinearFunction_C): return "func"
    if isinstance(r, _ParameterOp): return "pmath"
    if isinstance(r, (bool, int, float, complex)): return "num"
    return type(r).__name__


def names(env):
    p = {"a": env["a"], "b": env["b"], "c d": env["c"], "_": 1.}
    return p, dict(x=env["x"], y=env["y"], boolean=int)


def value(r, env):
    p, x = names(env)
    k = kind(r)
    if k == "par": return r.value(p)
    if k == "data": return r.eval(x)
    if k in ("comp", "func"): return r.evaluate(p.__getitem__, x)
    if k == "pmath": return r.value(p)
    if k == "num": return r
    raise Bad(f"{type(r).__name__} {r!r}")


def show(prog):
    if isinstance(prog, str): return prog
    if len(prog) == 2: return f"{prog[0]}({show(prog[1])})"
    return f"({show(prog[1])} {prog[0]} {show(prog[2])})"


def same(u, v):
    if isinstance(u, complex) or isinstance(v, complex): return True
    if u != u or v != v: return u != u and v != v
    if math.isinf(u) or math.isinf(v): return u == v
    return abs(u - v) <= 1e-9 * max(1, abs(u), abs(v))


def big(v): return isinstance(v, (int, float)) and abs(v) > 1e12


def judge(prog, r, rec, ops):
    """the object built for a program against ordinary arithmetic; and its text"""
    k = kind(r)
    if k not in ("par", "data", "comp", "func", "pmath", "num"):
        rec.violation(f"type:{ops}", f"{show(prog)} gives a {type(r).__name__}: {r!r}")
        return
    again = None
    if k != "num":
        try:
            text = repr(r)
            if "\n" in text: text = r.__code__()   # long functions are shown over several lines
            again = eval(text, dict(P=P, X=X)) if not (k == "func" and not len(r)) else r
        except Exception as e:
            rec.violation(f"text-eval:{k}", f"{show(prog)} has the text {r!r}, which raises {e!r}")
    for env in ENVS:
        try:
            w = want(prog, env)
        except Exception:
            continue
        if big(w) or isinstance(w, complex): continue
        try:
            g = value(r, env)
        except Bad as e:
            rec.violation(f"type:{ops}", f"{show(prog)}: {e}")
            return
        except Exception as e:
            rec.violation(f"value-raises:{k}:{ops}", f"{show(prog)} = {r!r} cannot be evaluated at {env}: {e!r}")
            continue
        if not same(g, w):
            rec.violation(f"value:{ops}", f"{show(prog)} = {r!r} is {g} at {env}, ordinary arithmetic gives {w}")
            continue
        if again is not None:
            try:
                h = value(again, env)
            except Exception as e:
                rec.violation(f"text-value:{k}", f"{show(prog)}: the text {r!r} gives {again!r}: {e!r}")
                continue
            if not same(h, g): rec.violation(f"text-value:{k}", f"{show(prog)} is {g} at {env}, but its text {r!r} evaluates to {h}")
    if again is not None and k in ("par", "data", "comp", "func"):
        if not (again == r and r == again) or kind(again) not in (k, "par" if k == "comp" else k, "comp" if k == "func" else k):
            # (terms of zero data are dropped in sums)
            if not (k == "comp" and kind(again) == "par") and not (k == "func" and (len(r) < 2 or any(t.data in ("0", "0.0") or t.scale == 0 for t in r))):
                rec.violation(f"text-equal:{k}", f"{show(prog)}: the text {r!r} evaluates to {again!r}, which is not equal to it")
        try:
            if hash(again) != hash(r) and again == r: rec.violation(f"hash:{k}", f"{r!r}")
        except TypeError:
            pass


SUPPORTED = {   # operand kinds that are never refused
    '&': 'data data, data num, num data',
    '*': 'comp data, comp num, data comp, data data, data func, data num, data par, func data, func num, num comp, num data, num func, num par, num pmath, par data, par num, par par, par pmath, pmath num, pmath par, pmath pmath',
    '**': 'data data, data num, num data',
    '+': 'comp comp, comp data, comp func, comp par, data comp, data data, data num, data par, func comp, func func, func par, num data, num par, num pmath, par comp, par func, par num, par par, par pmath, pmath num, pmath par, pmath pmath',
    '-': 'comp comp, comp data, comp func, comp par, data data, data num, data par, func comp, func func, func par, num data, num par, num pmath, par comp, par func, par num, par par, par pmath, pmath num, pmath par, pmath pmath',
    '/': 'comp data, data data, data num, num data, num pmath, par data, par par, par pmath, pmath num, pmath par, pmath pmath, par num, comp num',
    '//': 'data data, data num, num data',
    '^': 'data data, data num, num data',
    'inv': 'data',
    'neg': 'comp, data, func',
    'pos': 'comp, data, func, par',
    '|': 'data data, data num, num data',
}
SUPPORTED = {(op, *k.split()) for op, v in SUPPORTED.items() for k in v.split(', ')}


def attempt(prog, parts, f, rec, ops):
    """apply one operator to already built parts"""
    kinds = tuple(kind(q) for q in parts)
    try:
        z = f(*parts)
        rec.count(f"done {prog[0]} {kinds}")
        return True, z
    except (NotImplementedError, TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
        rec.count(f"refused {prog[0]} {kinds}")
        if (prog[0], *kinds) in SUPPORTED and not isinstance(e, (ZeroDivisionError, OverflowError)):
            rec.violation(f"refused:{prog[0]}:{','.join(kinds)}", f"{show(prog)} is refused: {e!r}")
        return False, None


def programs(first, rec):
    """every program of up to two operators whose first (left or only) part is the given one-operator program or atom"""
    a, op, b = first
    p1 = (op, a, b) if b is not None else (op, a)
    parts = [build(a)] + ([build(b)] if b is not None else [])
    ok, r1 = attempt(p1, parts, BIN[op] if b is not None else UN[op], rec, op)
    rec.state(p1)
    rec.step()
    if not ok:
        return
    judge(p1, r1, rec, f"{op}:{','.join(kind(q) for q in parts)}")
    rec.eval(p1)
    for c in (ATOM if T else SECOND):
        cc = build(c)
        for op2, f in BIN.items():
            for prog, args in (((op2, p1, c), (r1, cc)), ((op2, c, p1), (cc, r1))):
                if all(kind(q) == "num" for q in args): continue
                rec.step()
                ok, r = attempt(prog, args, f, rec, op2)
                if not ok: continue
                judge(prog, r, rec, f"{op2}:{','.join(kind(q) for q in args)}")
                rec.eval(prog)
                rec.state(prog)
    for op2, f in UN.items():
        ok, r = attempt((op2, p1), (r1,), f, rec, op2)
        if ok: judge((op2, p1), r, rec, f"{op2}:{kind(r1)}")
    rec.trace()
    rec.outcome(repr(r1))


SECOND = ["P.a", "P('c d')", "X.x", "X('x-y')", "X('1')", "X('0')", "X('boolean(x==3)')", "X('boolean(x==y)')", "2", "-3", "0"]
FIRST = [(a, op, b) for a in ATOM for op in BIN for b in ATOM if not (ATOM[a] == ATOM[b] == "num")] + [(a, u, None) for a in ATOM for u in UN if ATOM[a] != "num"]
CK.section("programs", FIRST, programs)

# ------------------------------------------------------------ 2 three operators over fewer atoms
def deep(first, rec):
    built = {}

    def get(prog):
        if isinstance(prog, str): return build(prog)
        if prog not in built:
            built[prog] = attempt(prog, [get(q) for q in prog[1:]], (BIN if len(prog) == 3 else UN)[prog[0]], rec, prog[0]) if all(get(q) is not None for q in prog[1:]) else (False, None)
        return built[prog][1] if built[prog][0] else None

    for second in PAIRS:
        for op in ("+", "-", "*", "/"):
            prog = (op, first, second)
            l, r = get(first), get(second)
            if l is None or r is None or kind(l) == kind(r) == "num": continue
            ok, z = attempt(prog, (l, r), BIN[op], rec, op)
            rec.step()
            if ok:
                judge(prog, z, rec, f"{op}:{kind(l)},{kind(r)}")
                rec.eval(prog)
                rec.state(prog)
    rec.trace()


FEW = ["P.a", "P.b", "X.x", "X('x-y')", "2", "-3"]
PAIRS = [(op, a, b) for a in FEW for b in FEW for op in "+-*/" if not (a[0] not in "PX" and b[0] not in "PX")]
if T: PAIRS += [(op, (op2, a, b), c) for a in FEW for b in FEW[:4] for c in FEW[:5] for op in "+-*/" for op2 in "+-*" if a[0] in "PX" and b[0] in "PX"][::3]
CK.section("deep", PAIRS, deep)


# ------------------------------------------------------------ 3 edits in place
C1, C2, C3 = lambda: P.a * X.x, lambda: P.b * X.y, lambda: P.a * X.y * 2


def tup(c): return (str(c.param), str(c.data), c.scale)


def fn(*cs): return LinearFunction_C(cs)


EDITS = {   # name -> (do(f) -> f, ref(list) -> list or exception)
    "append": (lambda f: f.append(C1()), lambda l: l + [tup(C1())]),
    "append-param": (lambda f: f.append(LinearComponent_C("b")), lambda l: l + [("b", "1", 1.)]),
    "insert0": (lambda f: f.insert(0, C2()), lambda l: [tup(C2())] + l),
    "insert-1": (lambda f: f.insert(-1, C3()), lambda l: l[:-1] + [tup(C3())] + l[-1:]),
    "extend": (lambda f: f.extend([C2(), C3()]), lambda l: l + [tup(C2()), tup(C3())]),
    "extend-gen": (lambda f: f.extend(c() for c in (C1, C2)), lambda l: l + [tup(C1()), tup(C2())]),
    "extend-func": (lambda f: f.extend(C1() + C2()), lambda l: l + [tup(C1()), tup(C2())]),
    "extend-bad": (lambda f: f.extend([C1(), "b"]), TypeError),
    "extend-self": (lambda f: f.extend(f), lambda l: l + l),
    "iadd-comp": (lambda f: f.__iadd__(C1()), lambda l: l + [tup(C1())]),
    "iadd-func": (lambda f: f.__iadd__(C2() + C1()), lambda l: l + [tup(C2()), tup(C1())]),
    "iadd-param": (lambda f: f.__iadd__(P.b), lambda l: l + [("b", "1", 1.)]),
    "iadd-zero": (lambda f: f.__iadd__(0), lambda l: l),
    "iadd-self": (lambda f: f.__iadd__(f), lambda l: l + l),
    "iadd-bad": (lambda f: f.__iadd__("b"), TypeError),
    "set0": (lambda f: f.__setitem__(0, C3()), lambda l: [tup(C3())] + l[1:] if l else IndexError),
    "set-1": (lambda f: f.__setitem__(-1, C1()), lambda l: l[:-1] + [tup(C1())] if l else IndexError),
    "set-none": (lambda f: f.__setitem__(0, None), TypeError),
    "set-far": (lambda f: f.__setitem__(99, C1()), IndexError),
    "del0": (lambda f: f.__delitem__(0), lambda l: l[1:] if l else IndexError),
    "del-1": (lambda f: f.__delitem__(-1), lambda l: l[:-1] if l else IndexError),
    "del-slice": (lambda f: f.__delitem__(slice(0, 2)), lambda l: l[2:]),
    "remove_param": (lambda f: f.remove_param("a"), lambda l: [t for t in l if t[0] != "a"]),
    "remove_data": (lambda f: f.remove_data("y"), lambda l: [t for t in l if t[1] != "y"]),
    "remove_none": (lambda f: f.remove_param("zzz"), lambda l: l),
}
PURE = {   # leave the function as it is -> result
    "copy": (lambda f: f.copy(), lambda l: l),
    "deepcopy": (lambda f: __import__("copy").deepcopy(f), lambda l: l),
    "add": (lambda f: f + C1(), lambda l: l + [tup(C1())]),
    "radd": (lambda f: C1() + f, lambda l: [tup(C1())] + l),
    "add-func": (lambda f: f + (C1() + C2()), lambda l: l + [tup(C1()), tup(C2())]),
    "add-param": (lambda f: f + P.b, lambda l: l + [("b", "1", 1.)]),
    "sub": (lambda f: f - C1(), lambda l: l + [("a", "x", -1.)]),
    "neg": (lambda f: -f, lambda l: [(p, d, -s) for p, d, s in l]),
    "scale": (lambda f: f * 3, lambda l: [(p, d, s * 3) for p, d, s in l]),
    "rscale": (lambda f: .5 * f, lambda l: [(p, d, s * .5) for p, d, s in l]),
    "reformat_param": (lambda f: f.reformat_param("{}_s"), lambda l: [(p + "_s", d, s) for p, d, s in l]),
    "reformat_re": (lambda f: f.reformat_param(pattern="a", repl="q"), lambda l: [(p.replace("a", "q"), d, s) for p, d, s in l]),
    "reformat_data": (lambda f: f.reformat_data("log({})"), lambda l: [(p, f"log({d})", s) for p, d, s in l]),
    "times-data": (lambda f: f * X.z, lambda l: [(p, d + "*z" if d != "1" else "z", s) for p, d, s in l]),
}


def place(where, start):
    """(get the function, replace the function, what mangles)"""
    if where == "free":
        box = [LinearFunction_C(start)]
        return (lambda: box[0]), (lambda v: box.__setitem__(0, v)), None
    m = larch.Model()
    m.graph = larch.model.tree.NestingTree()
    m.initialize_graph(alternative_codes=[1, 2, 3])
    if where == "ca":
        m.utility_ca = LinearFunction_C(start)
        return (lambda: m.utility_ca), (lambda v: setattr(m, "utility_ca", v)), m
    if where == "q":
        m.quantity_ca = LinearFunction_C(start)
        return (lambda: m.quantity_ca), (lambda v: setattr(m, "quantity_ca", v)), m
    m.utility_co[2] = LinearFunction_C(start)
    m.utility_co[3] = P.k * X.z
    return (lambda: m.utility_co[2]), (lambda v: m.utility_co.__setitem__(2, v)), m


def edits(task, rec):
    where, si, seq = task
    start = [[], [C1()], [C1(), C2()], [C3(), C1(), P.b * X("1")]][si]
    get, put, m = place(where, start)
    ref = [tup(c) for c in start]
    if m is not None: m.unmangle()
    held = None
    for i, name in enumerate(seq):
        f = get()
        msg = f"{where} from {start} edits {seq[:i + 1]}"
        tag = f"{where}:{name}"
        snap = f.copy()
        want_ = EDITS[name][1]
        new = want_ if isinstance(want_, type) else want_(ref)
        if m is not None: m.unmangle()
        try:
            EDITS[name][0](f)
            err = None
        except Exception as e:
            err = e
        if isinstance(new, type):
            if not isinstance(err, new): rec.violation(f"accepted:{tag}", f"{msg}: expected {new.__name__}, got {err!r}")
        else:
            if err is not None:
                rec.violation(f"raised:{tag}", f"{msg}: {err!r}")
                break
            if m is not None and new != ref and not m._is_mangled(): rec.violation(f"unnoticed:{tag}", f"{msg}: the model does not notice")
            ref = new
        now = [tup(c) for c in get()]
        if now != ref: rec.violation(f"edit:{tag}", f"{msg}: {now}, expected {ref}")
        if [tup(c) for c in snap] != [tup(c) for c in start] and i == 0: rec.violation(f"copy:{tag}", f"{msg}: a copy taken before changed to {list(snap)}")
        rec.step()
        rec.state((where, tuple(ref)))
    f = get()
    ref = [tup(c) for c in f]
    for name, (do, w) in PURE.items():
        try:
            r = do(f)
        except NotImplementedError as e:
            rec.violation(f"refused:{where}:{name}", f"{task}: {e!r}")
            continue
        got = [tup(c) for c in r]
        if got != w(ref): rec.violation(f"result:{name}", f"{task} then {name}: {got}, expected {w(ref)}")
        if [tup(c) for c in f] != ref: rec.violation(f"impure:{name}", f"{task}: {name} changed the function to {list(f)}")
        if r is not f and isinstance(r, LinearFunction_C):
            r.append(P.zz * X.zz)
            if [tup(c) for c in f] != ref: rec.violation(f"shared:{name}", f"{task}: changing the result of {name} changes the function")
    if len(f) != len(ref) or [tup(f[i]) for i in range(len(ref))] != ref: rec.violation(f"access:{where}", f"{task}")
    for p in "abk":
        if (P(p) in f) != any(t[0] == p for t in ref): rec.violation(f"contains:{where}", f"{task}: {p}")
        if P(p) in f and f._index_of(P(p)) != [t[0] for t in ref].index(p): rec.violation(f"contains:{where}", f"{task}: {p}")
    for d in "xyz":
        if (X(d) in f) != any(t[1] == d for t in ref): rec.violation(f"contains:{where}", f"{task}: {d}")
    if (f == LinearFunction_C([LinearComponent_C(*t) for t in ref])) is not True: rec.violation(f"equal:{where}", f"{task}")
    if ref and f == LinearFunction_C([LinearComponent_C(*t) for t in ref[:-1]]): rec.violation(f"equal:{where}", f"{task}")
    if ref:
        code = eval(f.__code__(), dict(P=P, X=X))
        env = ENVS[0]
        if not same(value(code, env), value(f, env)): rec.violation(f"code:{where}", f"{task}: {f.__code__()}")
    if m is not None:
        m.unmangle()
        used = {t[0] for t in ref} | ({"k"} if where == "co" else set())
        if not used <= set(m.pf.index): rec.violation(f"parameters:{where}", f"{task}: {list(m.pf.index)}, uses {used}")
        if where == "co" and [tup(c) for c in m.utility_co[3]] != [("k", "z", 1.)]: rec.violation(f"other:{where}", f"{task}: the other alternative is now {m.utility_co[3]}")
    rec.eval(task)
    rec.trace()


CK.section("edits", [(w, si, s) for w in ("free", "ca", "co", "q") for si in range(4) for k in ((1, 2, 3) if T else (1, 2)) for s in itertools.product(EDITS, repeat=k)], edits)


# ------------------------------------------------------------ 4 functions shared between places
def share(task, rec):
    src, dst, how, edit, which = task
    ms = [larch.Model() for _ in range(2)]
    for m in ms:
        m.graph = larch.model.tree.NestingTree()
        m.initialize_graph(alternative_codes=[1, 2, 3])
    A = ms[0]
    B = ms[0] if dst[0] == "same" else ms[1]
    acc = {"ca": (lambda m: m.utility_ca, lambda m, v: setattr(m, "utility_ca", v)), "q": (lambda m: m.quantity_ca, lambda m, v: setattr(m, "quantity_ca", v)),
           "co1": (lambda m: m.utility_co[1], lambda m, v: m.utility_co.__setitem__(1, v)), "co2": (lambda m: m.utility_co[2], lambda m, v: m.utility_co.__setitem__(2, v))}
    f0 = C1() + C2()
    acc[src][1](A, f0)
    if how == "model": acc[dst[1]][1](B, acc[src][0](A))
    elif how == "free": acc[dst[1]][1](B, f0)
    elif how == "whole": B.utility_co = A.utility_co
    elif how == "copy": B.utility_co = A.utility_co.copy()
    one, two = (src, A), (dst[1], B)
    if how in ("whole", "copy"): two = (src, B)
    if one[0] == two[0] and one[1] is two[1]: return
    for m in ms: m.unmangle()
    e, o = (one, two) if which == 0 else (two, one)
    before = [tup(c) for c in acc[o[0]][0](o[1])]
    new = EDITS[edit][1]([tup(c) for c in acc[e[0]][0](e[1])])
    EDITS[edit][0](acc[e[0]][0](e[1]))
    got = [tup(c) for c in acc[e[0]][0](e[1])]
    if got != new: rec.violation(f"edit:{how}", f"{task}: {got}, expected {new}")
    if [tup(c) for c in acc[o[0]][0](o[1])] != before: rec.violation(f"shared:{how}", f"{task}: the edit also changed {o[0]} to {list(acc[o[0]][0](o[1]))}")
    if not e[1]._is_mangled(): rec.violation(f"unnoticed:{how}", f"{task}")
    rec.eval(task)
    rec.state(task)
    rec.step()
    rec.trace()


CK.section("share", [(s, (sm, d), how, e, w) for s in ("ca", "co1", "q") for sm in ("same", "other") for d in ("ca", "co1", "co2", "q") for how in ("model", "free", "whole", "copy")
                     for e in ("append", "set0", "del0", "iadd-func", "remove_param") for w in (0, 1)
                     if not (sm == "same" and s == d) and (how not in ("whole", "copy") or (sm == "other" and s == "co1" and d == "co1"))], share)

CK.finish()
