"""Shapes of element-wise and reducing numpy terms over arrays of known shape."""
from .terms import NONE, T, const, walk

EL = {"abs", "absolute", "sqrt", "ceil", "floor", "exp", "log", "where", "maximum", "minimum", "isfinite", "isnan", "isinf", "conj", "conjugate",
      "real", "imag", "square", "power", "add", "subtract", "multiply", "divide", "true_divide", "negative", "sign", "clip", "nan_to_num", "logical_and",
      "logical_or", "logical_not", "float_power", "exp2", "log1p", "expm1", "tanh", "sin", "cos", "reciprocal", "round", "asarray", "array"}
LIKE = {"zeros_like", "ones_like", "full_like", "empty_like"}
RED = {"sum", "mean", "median", "max", "min", "std", "var", "ptp", "prod", "any", "all", "amax", "amin", "argmax", "argmin", "linalg.norm"}
NP = ("jax.numpy.", "numpy.", "jax.lax.")


class ShapeError(Exception):
    pass


def broadcast(shs):
    """shape of the broadcast of shapes, None if unknown"""
    if any(s is None for s in shs):
        return None
    n = max((len(s) for s in shs), default=0)
    out = []
    for i in range(n):
        ds = [s[len(s) - n + i] for s in shs if len(s) - n + i >= 0]
        ds = [d for d in ds if d is not const(1)]
        if not ds:
            out.append(const(1))
            continue
        d0 = ds[0]
        for d in ds[1:]:
            if d is not d0:
                if d.op == "const" and d0.op == "const":
                    raise ShapeError(f"{show(shs)} do not broadcast")
                return None
        out.append(d0)
    return tuple(out)


def show(shs):
    return " and ".join("(" + ", ".join(str(d.args[0]) if d.op == "const" else "?" for d in s) + ")" for s in shs)


def axes(ax, n):
    if ax is NONE:
        return list(range(n))
    xs = [ax] if ax.op == "const" else list(ax.args) if ax.op == "tuple" else None
    if xs is None or not all(x.op == "const" and isinstance(x.args[0], int) for x in xs):
        return None
    out = []
    for x in xs:
        i = x.args[0]
        if not -n <= i < n:
            raise ShapeError(f"axis {i} of an array with {n} axes")
        out.append(i % n)
    return out


def infer(t, memo=None):
    memo = {} if memo is None else memo
    if t not in memo:
        memo[t] = None
        memo[t] = infer1(t, memo)
    return memo[t]


def infer1(t, memo):
    op = t.op
    go = lambda x: infer(x, memo)
    if op == "arr":
        return tuple(t.args[1].args) if t.args[1].op == "tuple" else None
    if op == "const":
        return () if isinstance(t.args[0], (int, float, complex, bool)) else None
    if op == "carr":
        return (const(len(t.args)),)
    if op in ("+", "*", "/", "**", "neg", "-", "//", "%", "<", "<=", "==", "&", "|", "invert", "and", "or", "not"):
        return broadcast([go(x) for x in t.args])
    if op == "vm" and t.args[1] in (0, const(0)):
        inner = go(t.args[0])
        ns = {y.args[0].args[1].args[0] for y in walk(t.args[0]) if y.op == "row" and y.args[0].op == "arr"}
        return (next(iter(ns)),) + inner if inner is not None and len(ns) == 1 else None
    if op == "item":
        return index(go(t.args[0]), t.args[1], go)
    if op == "attr" and t.args[1] == "T":
        s = go(t.args[0])
        return s[::-1] if s is not None else None
    if op == "attr" and t.args[1] in ("real", "imag"):
        return go(t.args[0])
    if op != "call":
        return None
    fn, a, kw = t.args
    kw = dict(kw)
    if fn.op == "attr":
        nm = fn.args[1]
        a = (fn.args[0],) + a
        if nm in ("astype", "copy", "conj"):
            return go(a[0])
        if nm == "reshape":
            return reshape(go(a[0]), a[1] if len(a) == 2 and a[1].op in ("tuple", "list") else T("tuple", *a[1:]))
    elif fn.op == "ext":
        p = next((p for p in NP if fn.args[0].startswith(p)), None)
        if p is None:
            return None
        nm = fn.args[0][len(p):]
    else:
        return None
    if nm in EL and a:
        if nm in ("array", "asarray") and a[0].op in ("list", "tuple"):
            ss = [go(x) for x in a[0].args]
            if any(s is None for s in ss) or not ss:
                return None
            if any(s != ss[0] for s in ss):
                if all(d.op == "const" for s in ss for d in s):
                    raise ShapeError(f"an array of rows of different shapes {show(ss)}")
                return None
            return (const(len(ss)),) + ss[0]
        return broadcast([go(x) for x in a])
    if nm in ("concatenate", "stack") and a and a[0].op in ("list", "tuple") and a[0].args:
        ss = [go(x) for x in a[0].args]
        ax = kw.get("axis", a[1] if len(a) > 1 else const(0))
        if any(s is None for s in ss) or ax.op != "const" or not isinstance(ax.args[0], int):
            return None
        if any(len(s) != len(ss[0]) for s in ss):
            raise ShapeError(f"arrays of different rank {show(ss)} are joined")
        if nm == "stack":
            i = ax.args[0] % (len(ss[0]) + 1)
            return ss[0][:i] + (const(len(ss)),) + ss[0][i:]
        i, = axes(ax, len(ss[0]))
        ds = [s[i] for s in ss]
        for k in range(len(ss[0])):
            vs = {s[k] for s in ss}
            if k != i and len(vs) > 1:
                if all(v.op == "const" for v in vs):
                    raise ShapeError(f"{show(ss)} cannot be joined")
                return None
        d = const(sum(x.args[0] for x in ds)) if all(x.op == "const" for x in ds) else T("+", *ds)
        return ss[0][:i] + (d,) + ss[0][i + 1:]
    if nm in LIKE and a:
        return go(a[0])
    if nm in ("zeros", "ones", "empty", "full") and a:
        return tuple(a[0].args) if a[0].op in ("tuple", "list") else (a[0],) if a[0].op == "const" else None
    if nm == "reshape" and len(a) == 2:
        return reshape(go(a[0]), a[1])
    if nm == "expand_dims" and len(a) + len(kw) == 2:
        s = go(a[0])
        ax = a[1] if len(a) > 1 else kw.get("axis", NONE)
        if s is None or ax.op != "const" or not isinstance(ax.args[0], int):
            return None
        i = ax.args[0] if ax.args[0] >= 0 else len(s) + 1 + ax.args[0]
        return s[:i] + (const(1),) + s[i:]
    if nm in ("quantile", "nanquantile") and a:
        q = kw.get("q", a[1] if len(a) > 1 else None)
        s = go(a[0])
        if s is None or q is None:
            return None
        ks = axes(kw.get("axis", a[2] if len(a) > 2 else NONE), len(s))
        qs = go(q)
        return None if ks is None or qs is None else qs + tuple(d for i, d in enumerate(s) if i not in ks)
    if nm in RED and a:
        s = go(a[0])
        if s is None:
            return None
        pos = 1 if nm != "linalg.norm" else 2
        ks = axes(kw.get("axis", a[pos] if len(a) > pos else NONE), len(s))
        if ks is None:
            return None
        if kw.get("keepdims") is not None and kw["keepdims"] is const(True):
            return tuple(const(1) if i in ks else d for i, d in enumerate(s))
        return tuple(d for i, d in enumerate(s) if i not in ks)
    return None


def reshape(s, to):
    if to.op not in ("tuple", "list"):
        to = T("tuple", to)
    out = list(to.args)
    hole = [i for i, d in enumerate(out) if d is const(-1)]
    if not hole:
        return tuple(out)
    if s is None or len(hole) > 1:
        return None
    rest = list(s)
    for i, d in enumerate(out):
        if i in hole or d is const(1):
            continue
        if d in rest:
            rest.remove(d)
        elif all(x.op == "const" for x in rest) and d.op == "const":
            tot = 1
            for x in rest:
                tot *= x.args[0]
            if d.args[0] == 0 or tot % d.args[0]:
                raise ShapeError(f"cannot reshape {show([s])}")
            rest = [const(tot // d.args[0])]
        else:
            return None
    rest = [d for d in rest if d is not const(1)]
    if len(rest) > 1:
        if not all(x.op == "const" for x in rest):
            return None
        tot = 1
        for x in rest:
            tot *= x.args[0]
        rest = [const(tot)]
    out[hole[0]] = rest[0] if rest else const(1)
    return tuple(out)


def index(s, k, go):
    if s is None:
        return None
    ks = list(k.args) if k.op == "tuple" else [k]
    used = sum(1 for x in ks if x is not NONE and x is not const(Ellipsis))
    out, pos = [], 0
    for x in ks:
        if x is NONE:
            out.append(const(1))
        elif x is const(Ellipsis):
            m = len(s) - used
            out += s[pos:pos + m]
            pos += m
        elif x.op == "slice":
            if pos >= len(s):
                raise ShapeError(f"too many indices for {show([s])}")
            if x is T("slice", NONE, NONE, NONE):
                out.append(s[pos])
            else:
                return None
            pos += 1
        elif x.op == "const":
            if pos >= len(s):
                raise ShapeError(f"too many indices for {show([s])}")
            pos += 1
        else:
            ix = go(x)
            if ix is None or len(ks) != 1:
                return None
            if ix == s[:len(ix)] and x.op in ("==", "<", "<=", "&", "|", "invert", "not"):
                return (T("sym", "?count"),) + tuple(s[len(ix):])      # boolean mask
            return ix + tuple(s[1:])
    return tuple(out) + tuple(s[pos:])
