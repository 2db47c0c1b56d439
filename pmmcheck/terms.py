"""Hash-consed value-flow terms (the abstract domain of the analysis)."""
from __future__ import annotations


class T:
    __slots__ = ("op", "args", "_h", "sid", "__weakref__")
    _pool: dict = {}

    def __new__(cls, op, *args):
        key = (op,) + tuple(
            (type(a).__name__, a) if not isinstance(a, T) else a for a in args
        )
        t = cls._pool.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            t.sid = len(cls._pool)
            cls._pool[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.sid < o.sid

    def __repr__(self):
        return show(self)


def const(v):
    try:
        hash(v)
    except TypeError:
        return T("opaque", repr(v))
    return T("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 14:
        return "…"
    a = t.args
    d = depth + 1
    s = lambda x: show(x, d)
    if t.op == "const":
        return repr(a[0])
    if t.op in ("sym", "ext"):
        return str(a[0])
    if t.op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if t.op == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if t.op == "call":
        kw = [f"{k}={s(v)}" for k, v in a[2]]
        return f"{s(a[0])}({', '.join([s(x) for x in a[1]] + kw)})"
    if t.op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if t.op in ("tuple", "list", "set"):
        return f"{t.op}({', '.join(map(s, a))})"
    if t.op == "dict":
        return "{" + ", ".join(f"{s(k)}: {s(v)}" for k, v in a[0]) + "}"
    return f"{t.op}({', '.join(s(x) if isinstance(x, T) else str(x) if not isinstance(x, tuple) else '(' + ','.join(s(y) if isinstance(y, T) else str(y) for y in x) + ')' for x in a)})"


def children(t):
    out = []

    def add(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                add(y)
    for x in t.args:
        add(x)
    return out


def walk(t, seen=None):
    stack = [t]
    seen = set() if seen is None else seen
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def rebuild(t, f):
    """apply f to children (f: T->T), rebuilding with smart constructors."""
    def go(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    new = tuple(go(x) for x in t.args)
    if new == t.args:
        return t
    if t.op == "ite":
        return ite(*new)
    if t.op == "not":
        return neg(new[0])
    if t.op == "item":
        return item(new[0], new[1])
    if t.op == "and":
        return conj(new)
    if t.op == "or":
        return disj(new)
    if t.op in ("is", "==", "<", "<=", "in"):
        return cmp_(t.op, *new)
    if t.op in ("+", "*") and len(new) >= 2:
        r = new[0]
        for x in new[1:]:
            r = binop(t.op, r, x)
        return r
    if t.op in ("/", "//", "%", "**") and len(new) == 2:
        return binop(t.op, *new)
    if t.op in ("&", "|", "^"):
        new = tuple(sorted(new))
    return T(t.op, *new)


def subst(t, m, memo=None):
    """substitute terms by dict m (top-down, then children)."""
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def neg(t):
    if t.op == "const":
        return const(not t.args[0])
    if t.op == "not":
        return t.args[0]
    return T("not", t)


def norm_cond(t, pol=True):
    """-> (term, polarity) with negations stripped."""
    while t.op == "not":
        t = t.args[0]
        pol = not pol
    return t, pol


_CMPNEG = {"isnot": "is", "!=": "==", "notin": "in"}


def cmp_(op, a, b):
    if op in _CMPNEG:
        return neg(cmp_(_CMPNEG[op], a, b))
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return cmp_("<=", b, a)
    if a.op == "const" and b.op == "const":
        try:
            x, y = a.args[0], b.args[0]
            if op == "==":
                return const(x == y)
            if op == "is":
                return const(x is y or (x == y and type(x) is type(y)))
            if op == "<":
                return const(x < y)
            if op == "<=":
                return const(x <= y)
            if op == "in":
                return const(x in y)
        except Exception:
            pass
    if op in ("==", "is"):
        if a is b:
            return TRUE
        if b is NONE or a is NONE:
            o = a if b is NONE else b
            if o.op in ("tuple", "clo", "cls", "ref", "bm", "ext", "pkgmod", "inst", "dict", "list", "treemap", "map", "slice", "arr", "carr", "treedef", "+", "*", "/", "**", "neg", "//", "%", "<", "<=") or (
                o.op == "call" and o.args[0].op == "ext" and o.args[0].args[0].startswith(("jax.random.", "jax.lax.dynamic", "jax.numpy."))
            ) or o.op == "ext" and o.args[0].startswith("user.") or (
                o.op == "const" and o.args[0] is not None
            ):
                if o.op != "ext" or o.args[0].startswith("user."):
                    return FALSE
            if o.op == "ite":
                return ite(o.args[0], cmp_(op, o.args[1], NONE), cmp_(op, o.args[2], NONE))
            return T("is", o, NONE)
        if op == "==" and a.op in ("tuple", "list") and b.op in ("tuple", "list") and not any(x.op in ("star", "each", "maybe") for x in a.args + b.args):
            if a.op != b.op or len(a.args) != len(b.args):
                return FALSE
            return conj([cmp_("==", x, y) for x, y in zip(a.args, b.args)])
        if op == "==" and a.op == b.op == "call" and a.args[0] is b.args[0] and a.args[0].op == "ext" \
                and a.args[0].args[0] == "jax.tree.structure" and len(a.args[1]) == len(b.args[1]) == 1 and not a.args[2] and not b.args[2]:
            x, y = tree_skel(a.args[1][0]), tree_skel(b.args[1][0])
            if x is not None and y is not None:
                return const(x == y)
        if op == "==" and a.op == b.op == "treedef":
            return FALSE
        if b < a:
            a, b = b, a
    return T(op, a, b)


def tree_skel(t, depth=0):
    """structure of a tree whose containers are all known, else None"""
    if t is NONE:
        return ("none",)
    if t.op in ("list", "tuple"):
        xs = [tree_skel(x, depth + 1) for x in t.args]
        return None if any(x is None for x in xs) else (t.op, *xs)
    if t.op == "dict":
        if any(k.op != "const" for k, _ in t.args[0]):
            return None
        xs = sorted((repr(k.args[0]), tree_skel(v, depth + 1)) for k, v in t.args[0]) if all(tree_skel(v, depth + 1) is not None for _, v in t.args[0]) else None
        return None if xs is None else ("dict", *xs)
    if t.op in ("inst", "const") or t.op == "sym" and t.args[0].startswith("$leaf"):
        return ("*",)
    return None


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "const":
        return a if c.args[0] else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if c.op == "is" and c.args[1] is NONE:
        if a is NONE and b is c.args[0]:
            return b
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        if not any(x.op in ("star", "each", "maybe") for x in a.args + b.args):
            return T("tuple", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    return T("ite", c, a, b)


def item(b, k):
    if k.op == "const":
        v = k.args[0]
        if b.op in ("tuple", "list") and isinstance(v, int):
            xs = b.args
            if not any(x.op in ("star", "each", "maybe") for x in xs):
                if -len(xs) <= v < len(xs):
                    return xs[v]
            elif v >= 0 and v < len(xs) and not any(x.op in ("star", "each", "maybe") for x in xs[: v + 1]):
                return xs[v]
        if b.op == "dict":
            for kk, vv in reversed(b.args[0]):
                if kk is k:
                    return vv
    if b.op == "ite":
        return ite(b.args[0], item(b.args[1], k), item(b.args[2], k))
    return T("item", b, k)


_COMM = {"+", "*", "&", "|", "^"}


def binop(op, a, b):
    if a.op == "const" and b.op == "const":
        try:
            x, y = a.args[0], b.args[0]
            r = {
                "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                "/": lambda: x / y, "//": lambda: x // y, "%": lambda: x % y,
                "**": lambda: x ** y if not (isinstance(y, (int, float)) and abs(y) > 64) else None,
            }.get(op)
            if r is not None:
                v = r()
                if v is not None and not (isinstance(v, str) and len(v) > 4000):
                    return const(v)
        except Exception:
            pass
    if op == "+" and a.op == "tuple" and b.op == "tuple":
        return T("tuple", *(a.args + b.args))
    # additive / multiplicative normal forms (n-ary, sorted)
    if op in ("+", "*") and not _seqlike(a) and not _seqlike(b):
        xs = []
        for t in (a, b):
            if t.op == op:
                xs.extend(t.args)
            else:
                xs.append(t)
        cs = [x for x in xs if x.op == "const" and isinstance(x.args[0], (int, float)) and not isinstance(x.args[0], bool)]
        if len(cs) > 1:
            v = cs[0].args[0]
            for c in cs[1:]:
                v = v + c.args[0] if op == "+" else v * c.args[0]
            xs = [x for x in xs if x not in cs] + [const(v)]
        ident = 0 if op == "+" else 1
        ys = [x for x in xs if not (x.op == "const" and type(x.args[0]) is int and x.args[0] == ident)]
        if not ys:
            return const(ident)
        if len(ys) == 1:
            return ys[0]
        return T(op, *sorted(ys))
    if op == "-":
        if a.op == "const" and b.op == "const":
            pass
        return binop("+", a, T("neg", b) if b.op != "const" or not isinstance(b.args[0], (int, float)) else const(-b.args[0]))
    if op in _COMM and b < a:
        a, b = b, a
    return T(op, a, b)


def _seqlike(t):
    return t.op in ("tuple", "list", "ref", "fstr") or (t.op == "const" and isinstance(t.args[0], (str, bytes)))


def conj(ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    u = []
    for t in out:
        if t not in u:
            u.append(t)
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    return T("and", *u)


def disj(ts):
    out = []
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == "or":
            out.extend(t.args)
        else:
            out.append(t)
    u = []
    for t in out:
        if t not in u:
            u.append(t)
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    return T("or", *u)
