"""Small one-dimensional arrays whose elements are known terms (switched on by
Interp.carr): T("carr", *elements)."""
import math

from .terms import FALSE, NONE, T, TRUE, binop, cmp_, conj, const, disj, neg

ELEM = {"ceil", "floor", "rint", "round", "sqrt", "exp", "log", "abs", "absolute", "negative", "square", "float32", "float64"}
OPS = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "pow": "**"}
NP = ("jax.numpy.", "numpy.")


def bcast(xs):
    """rows of element tuples of carr/scalar operands, or None"""
    n = {len(x.args) for x in xs if x.op == "carr"}
    if len(n) != 1:
        if n - {1} and len(n - {1}) == 1:
            k = next(iter(n - {1}))
        else:
            return None
    else:
        k = next(iter(n))
    return [tuple((x.args[i] if len(x.args) > 1 or k == 1 else x.args[0]) if x.op == "carr" else x for x in xs) for i in range(k)]


def op2(f, a, b):
    rows = bcast([a, b])
    if rows is None:
        return None
    return T("carr", *[f(x, y) for x, y in rows])


def isbool(t):
    return all(x is TRUE or x is FALSE for x in t.args)


def allconst(t):
    return all(x.op == "const" for x in t.args)


def index(b, k):
    if k.op == "const" and isinstance(k.args[0], int) and not isinstance(k.args[0], bool):
        i = k.args[0]
        return b.args[i] if -len(b.args) <= i < len(b.args) else None
    if k.op == "carr":
        if len(k.args) == len(b.args) and k.args and isbool(k):
            return T("carr", *[x for x, m in zip(b.args, k.args) if m is TRUE])
        if allconst(k):
            try:
                return T("carr", *[b.args[x.args[0]] for x in k.args])
            except (IndexError, TypeError):
                return None
    if k.op == "slice" and all(x is NONE or x.op == "const" for x in k.args):
        return T("carr", *b.args[slice(*[x.args[0] for x in k.args])])
    return None


def invert(v):
    return T("carr", *[neg(x) for x in v.args])


def call(I, q, args, kwargs, st):
    """model of a numpy function on carr arguments, or None"""
    if q.startswith("operator.") and q[9:] in OPS and len(args) == 2 and not kwargs:
        return I.do_binop(OPS[q[9:]], args[0], args[1], st)
    p = next((p for p in NP if q.startswith(p)), None)
    if p is None:
        return None
    f = q[len(p):]
    if f == "prod" and len(args) == 1 and not kwargs:
        xs = args[0].args if args[0].op == "carr" else I.as_items(args[0], st) if args[0].op in ("ref", "tuple", "list") else None
        if xs is not None and all(x.op == "const" for x in xs):
            return const(math.prod(x.args[0] for x in xs))
    if f in ("array", "asarray", "atleast_1d", "stack", "sort", "unique") and args and args[0].op != "carr":
        xs = I.as_items(args[0], st) if args[0].op in ("ref", "tuple", "list", "keysv") else None
        if f == "atleast_1d" and args[0].op == "const":
            xs = [args[0]]
        if xs is not None and all(x.op == "const" and not isinstance(x.args[0], str) for x in xs):
            if f in ("sort", "unique"):
                return srt(xs, f)
            return T("carr", *xs)
        if f in ("array", "asarray") and args[0].op == "const":
            return args[0]
        return None
    if f in ("ceil", "floor") and len(args) == 1 and args[0].op == "const" and isinstance(args[0].args[0], (int, float)):
        return const(float(getattr(math, f)(args[0].args[0])))
    if f == "isscalar" and len(args) == 1:
        v = args[0]
        if v.op == "const":
            return TRUE
        if v.op in ("carr", "arr", "tuple", "list") or I.obj(st, v) is not None:
            return FALSE
        return None
    if not any(a.op == "carr" for a in args):
        return None
    a0 = args[0]
    if f in ("array", "asarray", "atleast_1d", "ravel", "copy") and len(args) == 1:
        return a0
    if f in ELEM and len(args) == 1:
        return T("carr", *[I.call(T("ext", q), [x], {}, st, None) for x in a0.args])
    if f in ("any", "all") and len(args) == 1 and not kwargs:
        return disj(list(a0.args)) if f == "any" else conj(list(a0.args))
    if f in ("isin", "in1d") and len(args) == 2:
        ys = args[1].args if args[1].op == "carr" else None
        inv = kwargs.get("invert") is TRUE
        if ys is not None and a0.op == "carr" and allconst(a0) and all(y.op == "const" for y in ys):
            v = {y.args[0] for y in ys}
            return T("carr", *[const((x.args[0] in v) != inv) for x in a0.args])
        return None
    if f in ("where", "nonzero", "flatnonzero") and len(args) == 1 and isbool(a0):
        r = T("carr", *[const(i) for i, x in enumerate(a0.args) if x is TRUE])
        return r if f == "flatnonzero" else T("tuple", r)
    if f in ("logical_not", "invert", "bitwise_not"):
        return invert(a0)
    if f in ("logical_or", "logical_and", "bitwise_or", "bitwise_and") and len(args) == 2:
        return op2(lambda x, y: disj([x, y]) if f.endswith("or") else conj([x, y]), *args)
    if f in ("sort", "unique") and allconst(a0):
        return srt(a0.args, f)
    if f == "argsort" and allconst(a0) and len(args) == 1:
        v = [x.args[0] for x in a0.args]
        return T("carr", *[const(i) for i in sorted(range(len(v)), key=lambda i: v[i])])
    if f == "concatenate":
        return None
    if f == "size":
        return const(len(a0.args))
    return None


def srt(xs, f):
    v = sorted(x.args[0] for x in xs)
    if f == "unique":
        v = sorted(set(v))
    return T("carr", *[const(x) for x in v])


def attr(b, name):
    if name == "size":
        return const(len(b.args))
    if name == "shape":
        return T("tuple", const(len(b.args)))
    if name == "ndim":
        return const(1)
    if name == "T":
        return b
    return None


def method(I, b, name, args, kwargs, st):
    if name in ("any", "all") and not args and not kwargs:
        return disj(list(b.args)) if name == "any" else conj(list(b.args))
    if name == "tolist":
        return I.new_list(st, list(b.args))
    if name == "item" and len(b.args) == 1:
        return b.args[0]
    if name in ("astype", "ravel", "flatten", "copy"):
        return b
    return None
