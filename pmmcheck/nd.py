"""Arrays of known small shape whose entries are exact scalar values (poly.py),
and the array operations of jax.numpy / jax.lax / jax.nn on them.

Switched on by Interp.nd.  A value is T("nd", NDA).  An operation that is not
modelled raises Unmodelled (the analysis gives no answer for that unit); an
operation that the array library itself would reject raises Bad."""
import itertools
import math
from fractions import Fraction

from . import poly
from .poly import IM, P, Poly, ZERO, one
from .program import AnalysisError
from .terms import FALSE, NONE, T, TRUE, const


class Unmodelled(AnalysisError):
    pass


class Bad(Exception):
    """the array library rejects the operation (shape or type error)"""


KIND = {"bool": 0, "int32": 1, "int64": 1, "uint32": 1, "float16": 2, "bfloat16": 2, "float32": 2, "float64": 2, "complex64": 3, "complex128": 3}
ALIASES = {"float": "float32", "complex": "complex64", "int": "int32", "bool": "bool", "bool_": "bool", "float_": "float64",
           "single": "float32", "double": "float64", "csingle": "complex64", "cdouble": "complex128", "complex_": "complex128"}


def dtname(t, st=None):
    """dtype named by a term, or None"""
    if t is None or t is NONE:
        return None
    if t.op == "const" and isinstance(t.args[0], str):
        n = t.args[0]
    elif t.op == "ext":
        n = t.args[0].split(".")[-1]
    elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].endswith(".dtype") and len(t.args[1]) == 1:
        return dtname(t.args[1][0])
    else:
        raise Unmodelled(f"dtype {t!r}")
    n = ALIASES.get(n, n)
    if n not in KIND:
        raise Unmodelled(f"dtype {n}")
    return n


def dtterm(n):
    return T("ext", "jax.numpy." + ("bool_" if n == "bool" else n))


def promote(*ds):
    """result dtype; a weak (python scalar) operand is given as 'w0'..'w3'"""
    hard = [d for d in ds if d[0] != "w"]
    k = max([KIND[d] for d in hard] + [int(d[1]) for d in ds if d[0] == "w"])
    wide = any(d in ("float64", "complex128", "int64") for d in hard)
    if k == 0:
        return "bool"
    if k == 1:
        return "int64" if wide else "int32"
    fl = [d for d in hard if KIND[d] == k]
    if k == 2:
        return "float64" if "float64" in fl or wide and any(d == "float64" for d in hard) else (fl[0] if len(set(fl)) == 1 else "float32")
    return "complex128" if "complex128" in fl or "float64" in hard else "complex64"


class NDA:
    __slots__ = ("shape", "dtype", "v", "h")

    def __init__(self, shape, dtype, v):
        self.shape, self.dtype, self.v = tuple(shape), dtype, tuple(v)
        if len(self.v) != math.prod(self.shape):
            raise Bad(f"{len(self.v)} entries for shape {self.shape}")
        if len(self.v) > 20000:
            raise Unmodelled("array too large")
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.shape, self.dtype, self.v))
        return self.h

    def __eq__(self, o):
        return isinstance(o, NDA) and self.shape == o.shape and self.dtype == o.dtype and self.v == o.v

    def __repr__(self):
        s = ", ".join(p.show(1) for p in self.v[:3])
        return f"{self.dtype}{list(self.shape)}<{s}{', …' if len(self.v) > 3 else ''}>"

    @property
    def ndim(self):
        return len(self.shape)

    def strides(self):
        s, out = 1, []
        for d in reversed(self.shape):
            out.append(s)
            s *= d
        return out[::-1]

    def at(self, idx):
        return self.v[sum(i * s for i, s in zip(idx, self.strides()))]

    def indices(self):
        return itertools.product(*[range(d) for d in self.shape])

    def cplx(self):
        return KIND[self.dtype] == 3

    # python operators for the specifications
    def __add__(self, o):
        return elem2("+", self, nd(o))

    def __sub__(self, o):
        return elem2("-", self, nd(o))

    def __mul__(self, o):
        return elem2("*", self, nd(o))

    __radd__ = __add__
    __rmul__ = __mul__

    def __getitem__(self, k):
        return index(self, k if isinstance(k, tuple) else (k,))

    def conj(self):
        return NDA(self.shape, self.dtype, [x.conj() for x in self.v]) if self.cplx() else self

    def H(self):
        return self.conj().swap(-1, -2)

    def swap(self, i, j):
        ax = list(range(self.ndim))
        ax[i], ax[j] = ax[j], ax[i]
        return transpose(self, ax)


class Weak(NDA):
    """a python scalar operand"""
    __slots__ = ()


def nd(x):
    """python scalar / nested list / NDA -> NDA"""
    if isinstance(x, NDA):
        return x
    if isinstance(x, Poly):
        return NDA((), "float32" if x.isreal() else "complex64", [x])
    if isinstance(x, bool):
        return Weak((), "bool", [P(x)])
    if isinstance(x, int):
        return Weak((), "int32", [P(x)])
    if isinstance(x, complex):
        return Weak((), "complex64", [P(x)])
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return Weak((), "float32", [poly.func("inf" if x == math.inf else "-inf" if x == -math.inf else "nan")])
        return Weak((), "float32", [P(x)])
    if isinstance(x, (list, tuple)):
        return stack([nd(y) for y in x], 0) if x else NDA((0,), "float32", [])
    raise Unmodelled(f"array of {type(x).__name__}")


def fresh(name, shape, dtype="float32"):
    """array of unknown entries"""
    r = KIND[dtype] < 3
    return NDA(shape, dtype, [poly.var(name, i, r) for i in itertools.product(*[range(d) for d in shape])])


def hermitian(name, shape, dtype="complex64"):
    """stack of unknown Hermitian matrices"""
    def e(ix):
        *b, i, j = ix
        if KIND[dtype] < 3:
            return poly.var(name, (*b, min(i, j), max(i, j)))
        if i == j:
            return poly.var(name, tuple(ix))
        return poly.var(name, tuple(ix), False) if i < j else poly.var(name, (*b, j, i), False).conj()
    return NDA(shape, dtype, [e(i) for i in itertools.product(*[range(d) for d in shape])])


def dts(*xs):
    return promote(*[("w%d" % KIND[x.dtype]) if isinstance(x, Weak) else x.dtype for x in xs])


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        ds = {s[i - n + len(s)] for s in shapes if i - n + len(s) >= 0}
        big = ds - {1}
        if len(big) > 1:
            raise Bad(f"shapes {shapes} do not broadcast")
        out.append(big.pop() if big else 1)
    return tuple(out)


def broadcast(a, shape):
    if a.shape == tuple(shape):
        return a
    if bshape(a.shape, shape) != tuple(shape):
        raise Bad(f"cannot broadcast {a.shape} to {shape}")
    off = len(shape) - a.ndim
    st = [0 if d == 1 else s for d, s in zip(a.shape, a.strides())]
    return NDA(shape, a.dtype, [a.v[sum(i * s for i, s in zip(ix[off:], st))] for ix in itertools.product(*[range(d) for d in shape])])


def both(a, b):
    sh = bshape(a.shape, b.shape)
    return broadcast(a, sh), broadcast(b, sh)


def wrapweak(a, b, r):
    return Weak((), r.dtype, r.v) if isinstance(a, Weak) and isinstance(b, Weak) else r


CMPS = ("<", "<=", ">", ">=", "==", "!=")


def elem2(op, a, b):
    dt = dts(a, b)
    x, y = both(a, b)
    z = list(zip(x.v, y.v))
    if op in CMPS:
        return NDA(x.shape, "bool", [compare(op, p, q) for p, q in z])
    if op in ("+", "-", "*"):
        if op == "-" and dt == "bool":
            raise Bad("boolean subtract")
        f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q}[op]
        if dt == "bool" and op == "+":
            f = lambda p, q: p + q - p * q  # noqa: E731
        r = NDA(x.shape, dt, [f(p, q) for p, q in z])
    elif op == "/":
        if KIND[dt] < 2:
            dt = "float32"
        try:
            r = NDA(x.shape, dt, [p * q.inv() for p, q in z])
        except ZeroDivisionError:
            raise Unmodelled("division by the constant zero")
    elif op in ("//", "%"):
        out = []
        for p, q in z:
            u, w = p.rat(), q.rat()
            if u is None or not w:
                out.append(poly.func(op, p, q))
            else:
                out.append(P(math.floor(u / w)) if op == "//" else P(u - w * math.floor(u / w)))
        r = NDA(x.shape, dt, out)
    elif op == "**":
        r = NDA(x.shape, dt, [power(p, q) for p, q in z])
    elif op in ("&", "|", "^") and dt == "bool":
        f = {"&": lambda p, q: p * q, "|": lambda p, q: p + q - p * q, "^": lambda p, q: p + q - 2 * (p * q)}[op]
        r = NDA(x.shape, dt, [f(p, q) for p, q in z])
    elif op == "max":
        r = NDA(x.shape, dt, [maximum(p, q) for p, q in z])
    elif op == "min":
        r = NDA(x.shape, dt, [-maximum(-p, -q) for p, q in z])
    else:
        raise Unmodelled(f"operator {op}")
    return wrapweak(a, b, r)


def maximum(p, q):
    if q.rat() is not None and p.rat() is None:
        p, q = q, p
    return poly.choose(poly.indicator(">=", p - q), p, q) if p.rat() is not None and q.rat() is not None else poly.choose(poly.indicator(">=", q - p), q, p)


def compare(op, p, q):
    d = p - q
    if op in ("==", "!="):
        if not d.isreal():
            r = poly.indicator("==", d * d.conj())
        else:
            r = poly.indicator("==", d)
        return r if op == "==" else one - r
    if op == ">=":
        return poly.indicator(">=", d)
    if op == ">":
        return poly.indicator(">", d)
    if op == "<=":
        return poly.indicator(">=", -d)
    return poly.indicator(">", -d)


def power(p, q):
    n = q.rat()
    if n is not None and n == int(n):
        return p ** int(n) if n >= 0 else (p ** int(-n)).inv()
    if n is not None and 2 * n == int(2 * n):
        s = poly.sqrtv(p) ** int(abs(2 * n))
        return s if n > 0 else s.inv()
    return poly.func("pow", p, q)


def astype(a, dt):
    if KIND[dt] < 3 <= KIND[a.dtype]:
        a = NDA(a.shape, "float32", [x.real() for x in a.v])
    if KIND[dt] == 0 and KIND[a.dtype] > 0:
        return NDA(a.shape, dt, [one - compare("==", x, ZERO) for x in a.v])
    if KIND[dt] == 1 and KIND[a.dtype] > 1:
        out = []
        for x in a.v:
            c = x.rat()
            out.append(P(math.trunc(c)) if c is not None else poly.func("trunc", x))
        return NDA(a.shape, dt, out)
    return NDA(a.shape, dt, a.v)


def transpose(a, axes=None):
    axes = list(axes) if axes is not None else list(range(a.ndim))[::-1]
    axes = [ax + a.ndim if ax < 0 else ax for ax in axes]
    if sorted(axes) != list(range(a.ndim)):
        raise Bad(f"transpose axes {axes} of {a.shape}")
    st = a.strides()
    st = [st[i] for i in axes]
    sh = [a.shape[i] for i in axes]
    return NDA(sh, a.dtype, [a.v[sum(i * s for i, s in zip(ix, st))] for ix in itertools.product(*[range(d) for d in sh])])


def reshape(a, shape):
    shape = list(shape)
    if -1 in shape:
        k = math.prod(d for d in shape if d != -1)
        if shape.count(-1) > 1 or k == 0 or len(a.v) % k:
            raise Bad(f"reshape {a.shape} to {shape}")
        shape[shape.index(-1)] = len(a.v) // k
    if math.prod(shape) != len(a.v):
        raise Bad(f"reshape {a.shape} to {shape}")
    return NDA(shape, a.dtype, a.v)


def stack(xs, axis=0):
    if len({x.shape for x in xs}) != 1:
        raise Bad("stack of different shapes")
    n = xs[0].ndim + 1
    axis = axis + n if axis < 0 else axis
    dt = dts(*xs)
    r = NDA((len(xs),) + xs[0].shape, dt, [p for x in xs for p in x.v])
    return moveaxis(r, 0, axis)


def moveaxis(a, s, d):
    s = s + a.ndim if s < 0 else s
    d = d + a.ndim if d < 0 else d
    if not (0 <= s < a.ndim and 0 <= d < a.ndim):
        raise Bad("moveaxis out of range")
    ax = [i for i in range(a.ndim) if i != s]
    ax.insert(d, s)
    return transpose(a, ax)


def concat(xs, axis=0):
    n = xs[0].ndim
    if axis is None:
        xs, axis, n = [reshape(x, (-1,)) for x in xs], 0, 1
    axis = axis + n if axis < 0 else axis
    if not 0 <= axis < n:
        raise Bad(f"axis {axis} is out of bounds")
    if any(x.ndim != n for x in xs) or len({x.shape[:axis] + x.shape[axis + 1:] for x in xs}) != 1:
        raise Bad(f"concatenate {[x.shape for x in xs]} along {axis}")
    dt = dts(*xs)
    ys = [moveaxis(x, axis, 0) for x in xs]
    r = NDA((sum(y.shape[0] for y in ys),) + ys[0].shape[1:], dt, [p for y in ys for p in y.v])
    return moveaxis(r, 0, axis)


def normaxes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    ax = [axis] if isinstance(axis, int) else list(axis)
    out = []
    for x in ax:
        y = x + a.ndim if x < 0 else x
        if not 0 <= y < a.ndim:
            raise Bad(f"axis {x} of shape {a.shape}")
        out.append(y)
    if len(set(out)) != len(out):
        raise Bad("duplicate axis")
    return out


def reduce_(f, a, axis=None, keepdims=False, dtype=None):
    ax = normaxes(a, axis)
    rest = [i for i in range(a.ndim) if i not in ax]
    b = transpose(a, rest + ax)
    n = math.prod(a.shape[i] for i in ax)
    out = [f(b.v[i * n:(i + 1) * n]) for i in range(math.prod(a.shape[i] for i in rest))]
    sh = [1 if i in ax else d for i, d in enumerate(a.shape)] if keepdims else [a.shape[i] for i in rest]
    return NDA(sh, dtype or a.dtype, out)


def psum(xs):
    m = {}
    for p in xs:
        for k, c in p.m.items():
            d = m.get(k)
            m[k] = c if d is None else d + c
    return Poly({k: c for k, c in m.items() if not c.zero()})


def pprod(xs):
    r = one
    for x in xs:
        r = r * x
    return r


def sum_(a, axis=None, keepdims=False):
    return reduce_(psum, a, axis, keepdims, "int32" if a.dtype == "bool" else a.dtype)


def einsum(spec, *xs):
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    if len(ins) != len(xs):
        raise Bad(f"einsum {spec!r} with {len(xs)} operands")
    ell = ""
    names = []
    dims = {}
    for s, x in zip(ins, xs):
        if "..." in s:
            k = x.ndim - (len(s) - 3)
            if k < 0:
                raise Bad("einsum rank")
            lab = [f"_{i}" for i in range(k)][::-1]
            a, b = s.split("...")
            idx = list(a) + lab + list(b)
        else:
            idx = list(s)
        if len(idx) != x.ndim:
            raise Bad(f"einsum operand {s!r} has rank {x.ndim}")
        for c, d in zip(idx, x.shape):
            if dims.setdefault(c, d) != d:
                if dims[c] == 1:
                    dims[c] = d
                elif d != 1:
                    raise Bad(f"einsum size of {c!r}")
        names.append(idx)
    ells = sorted({c for n in names for c in n if c[0] == "_"}, reverse=True)
    if out is None:
        flat = [c for n in names for c in n if c[0] != "_"]
        oidx = ells + sorted(c for c in set(flat) if flat.count(c) == 1)
    elif "..." in out:
        a, b = out.split("...")
        oidx = list(a) + ells + list(b)
    else:
        oidx = list(out)
    if any(c not in dims for c in oidx) or len(set(oidx)) != len(oidx):
        raise Bad(f"einsum output {out!r}")
    summed = [c for c in dims if c not in oidx]
    sts = [[(c, s if d != 1 else 0) for c, s, d in zip(n, x.strides(), x.shape)] for n, x in zip(names, xs)]
    res = []
    tot = math.prod(dims.values())
    if tot > 400000:
        raise Unmodelled("einsum too large")
    for oi in itertools.product(*[range(dims[c]) for c in oidx]):
        env = dict(zip(oidx, oi))
        terms = []
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            p = one
            for x, st in zip(xs, sts):
                q = x.v[sum(env[c] * s for c, s in st)]
                p = p * q
                if not p.m:
                    break
            terms.append(p)
        res.append(psum(terms))
    return NDA([dims[c] for c in oidx], dts(*xs), res)


def matmul(a, b):
    if not a.ndim or not b.ndim:
        raise Bad("matmul of a scalar")
    x = reshape(a, (1,) + a.shape) if a.ndim == 1 else a
    y = reshape(b, b.shape + (1,)) if b.ndim == 1 else b
    if x.shape[-1] != y.shape[-2]:
        raise Bad(f"matmul {a.shape} @ {b.shape}")
    r = einsum("...ij,...jk->...ik", x, y)
    if a.ndim == 1:
        r = reshape(r, r.shape[:-2] + r.shape[-1:])
    if b.ndim == 1:
        r = reshape(r, r.shape[:-1])
    return r


def tensordot(a, b, axes=2):
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = [[i] if isinstance(i, int) else list(i) for i in axes]
    ax = [i + a.ndim if i < 0 else i for i in ax]
    bx = [i + b.ndim if i < 0 else i for i in bx]
    L = "abcdefghijklmnopqrstuvwxyz"
    la = list(L[:a.ndim])
    lb = list(L[a.ndim:a.ndim + b.ndim])
    for i, j in zip(ax, bx):
        if a.shape[i] != b.shape[j]:
            raise Bad("tensordot sizes")
        lb[j] = la[i]
    out = [c for i, c in enumerate(la) if i not in ax] + [c for j, c in enumerate(lb) if j not in bx]
    return einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


def dot(a, b):
    if not a.ndim or not b.ndim:
        return elem2("*", a, b)
    if b.ndim == 1:
        return tensordot(a, b, ([a.ndim - 1], [0]))
    return tensordot(a, b, ([a.ndim - 1], [b.ndim - 2]))


# ------------------------------------------------------------- indexing
def index(a, ks):
    """numpy indexing; ks is a tuple of int | slice | None | Ellipsis | NDA"""
    return _index(a, ks)[0]


def positions(a, ks):
    return _index(NDA(a.shape, "int32", [P(i) for i in range(len(a.v))]), ks)[0]


def _index(a, ks):
    ks = list(ks)
    flatk = []
    for k in ks:
        if isinstance(k, NDA) and k.dtype == "bool":
            if any(x.rat() is None for x in k.v):
                raise Unmodelled("boolean index that depends on the data")
            ixs = [i for i in k.indices() if k.at(i).rat()]
            for d in range(k.ndim):
                flatk.append(NDA((len(ixs),), "int32", [P(i[d]) for i in ixs]))
        elif isinstance(k, (list, tuple)):
            flatk.append(nd(list(k)))
        elif isinstance(k, bool):
            raise Unmodelled("boolean scalar index")
        else:
            flatk.append(k)
    ks = flatk
    used = sum(1 for k in ks if k is not None and k is not Ellipsis)
    if used > a.ndim:
        raise Bad(f"too many indices for shape {a.shape}")
    if not any(k is Ellipsis for k in ks):
        ks.append(Ellipsis)
    i = next(j for j, k in enumerate(ks) if k is Ellipsis)
    ks = ks[:i] + [slice(None)] * (a.ndim - used) + ks[i + 1:]
    if any(k is Ellipsis for k in ks):
        raise Bad("two ellipses")
    adv = [j for j, k in enumerate(ks) if isinstance(k, NDA)]
    has_arr = any(ks[j].ndim for j in adv)
    if adv:
        # integers next to index arrays broadcast with them
        adv = [j for j, k in enumerate(ks) if isinstance(k, NDA) or isinstance(k, int)]
        ks = [nd(k) if isinstance(k, int) else k for k in ks]
    bs = bshape(*[ks[j].shape for j in adv]) if adv else ()
    arrs = {j: broadcast(ks[j], bs) for j in adv}
    together = not adv or adv == list(range(adv[0], adv[-1] + 1))
    # result axes
    res = []     # ("new",) | ("sl", source axis, indices) | ("adv",)
    ax = 0
    src = {}
    placed = False
    if adv and not together:
        res.append(("adv",))
        placed = True
    for j, k in enumerate(ks):
        if k is None:
            res.append(("new",))
            continue
        if j in arrs:
            src[ax] = ("adv", j)
            if not placed:
                res.append(("adv",))
                placed = True
        elif isinstance(k, int):
            d = a.shape[ax]
            if not -d <= k < d:
                raise Bad(f"index {k} of axis with size {d}")
            src[ax] = ("int", k % d)
        else:
            src[ax] = ("sl", len(res))
            res.append(("sl", ax, list(range(*k.indices(a.shape[ax])))))
        ax += 1
    del has_arr
    shape, parts = [], []
    for r in res:
        if r[0] == "new":
            shape.append(1)
            parts.append([()])
        elif r[0] == "sl":
            shape.append(len(r[2]))
            parts.append([(i,) for i in r[2]])
        else:
            shape += list(bs)
            parts.append(list(itertools.product(*[range(d) for d in bs])))
    out = []
    for combo in itertools.product(*parts):
        advix = ()
        for r, c in zip(res, combo):
            if r[0] == "adv":
                advix = c
        idx = []
        symb = []
        for x in range(a.ndim):
            kind, q = src[x]
            if kind == "int":
                idx.append(q)
            elif kind == "sl":
                idx.append(combo[q][0])
            else:
                p = arrs[q].at(advix)
                c = p.rat()
                d = a.shape[x]
                if c is None:
                    symb.append(x)
                    idx.append(p)
                else:
                    c = int(c)
                    if c < 0:
                        c += d
                    c = min(max(c, 0), d - 1)  # jax clamps out-of-range indices
                    idx.append(c)
        if not symb:
            out.append(a.at(idx))
        elif len(symb) == 1:
            x = symb[0]
            out.append(poly.pick([a.at(idx[:x] + [i] + idx[x + 1:]) for i in range(a.shape[x])], idx[x]))
        else:
            raise Unmodelled("two data-dependent indices")
    return NDA(shape, a.dtype, out), res


def set_at(a, ks, val, mode):
    pos = positions(a, ks)
    val = broadcast(nd(val), pos.shape)
    v = list(a.v)
    for p, x in zip(pos.v, val.v):
        i = p.rat()
        if i is None:
            raise Unmodelled("indexed update at a data-dependent position")
        i = int(i)
        v[i] = x if mode == "set" else v[i] + x if mode == "add" else v[i] * x if mode in ("multiply", "mul") else None
        if v[i] is None:
            raise Unmodelled(f".at[].{mode}")
    r = NDA(a.shape, a.dtype, v)
    return r


# ------------------------------------------------------------- linear algebra
def is_hermitian(m):
    n = m.shape[0]
    return all(m.at((i, j)) == m.at((j, i)).conj() for i in range(n) for j in range(i, n))


def eigsys(a, lower=True, symm=True):
    """per matrix: key, eigenvalue atoms, eigenvector atoms"""
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        raise Bad(f"eigh of shape {a.shape}")
    n = a.shape[-1]
    out = []
    for b in range(len(a.v) // (n * n) if n else 0):
        m = NDA((n, n), a.dtype, a.v[b * n * n:(b + 1) * n * n])
        if not is_hermitian(m):
            # jax symmetrises its input by default
            m = elem2("*", elem2("+", m, m.H()), nd(0.5)) if symm else m
            if not is_hermitian(m):
                raise Unmodelled("eigh of a matrix not known to be Hermitian")
        key = (n, m.v)
        cp = KIND[a.dtype] == 3
        es = [P(poly.Atom(("ev", key, i))) for i in range(n)]
        vs = [P(poly.Atom(("evec", key, i, j, cp), real=not cp)) for i in range(n) for j in range(n)]  # row i of vector j
        out.append((es, vs))
    return n, out


def eigh(a, symm=True):
    n, L = eigsys(a, symm=symm)
    dt = a.dtype if KIND[a.dtype] >= 2 else "float32"
    rd = {"complex64": "float32", "complex128": "float64"}.get(dt, dt)
    return NDA(a.shape[:-1], rd, [e for es, _ in L for e in es]), NDA(a.shape, dt, [v for _, vs in L for v in vs])


def opnorm(m):
    """largest singular value of a matrix"""
    if is_hermitian(m):
        n, L = eigsys(m)
        return poly.maxv([poly.absv(e) for e in L[0][0]])
    a = P(poly.Atom(("opnorm", m.shape, m.v), pos=True))
    return a


def norm(a, ord=None, axis=None, keepdims=False):
    rd = {"complex64": "float32", "complex128": "float64"}.get(a.dtype, a.dtype)
    if axis is None and ord is None:
        return reduce_(lambda v: poly.sqrtv(psum([x * x.conj() for x in v])), a, None, keepdims, rd)
    if axis is None:
        axis = tuple(range(a.ndim))
    ax = normaxes(a, axis)
    if len(ax) == 2:
        sh = [a.shape[i] for i in ax]
        if ord in (None, "fro"):
            f = lambda v: poly.sqrtv(psum([x * x.conj() for x in v]))  # noqa: E731
        elif ord == 2:
            f = lambda v: opnorm(NDA(sh, a.dtype, v))  # noqa: E731
        elif ord == "nuc":
            f = lambda v: poly.func("nucnorm", tuple(sh), tuple(v))  # noqa: E731
        else:
            f = lambda v: poly.func(f"matnorm{ord}", tuple(sh), tuple(v))  # noqa: E731
        return reduce_(f, a, ax, keepdims, rd)
    if len(ax) == 1:
        if ord in (None, 2):
            f = lambda v: poly.sqrtv(psum([x * x.conj() for x in v]))  # noqa: E731
        elif ord == 1:
            f = lambda v: psum([poly.absv(x) for x in v])  # noqa: E731
        elif ord == math.inf:
            f = lambda v: poly.maxv([poly.absv(x) for x in v])  # noqa: E731
        else:
            raise Unmodelled(f"norm ord={ord}")
        return reduce_(f, a, ax, keepdims, rd)
    raise Unmodelled("norm axes")


def svdvals(a):
    """singular values of Hermitian matrices (descending) as opaque values, the first being the operator norm"""
    n, m = a.shape[-2:]
    out = []
    for b in range(len(a.v) // (n * m)):
        x = NDA((n, m), a.dtype, a.v[b * n * m:(b + 1) * n * m])
        out.append([opnorm(x)] + [P(poly.Atom(("sv", (n, m), x.v, i), pos=True)) for i in range(1, min(n, m))])
    return NDA(a.shape[:-2] + (min(n, m),), {"complex64": "float32", "complex128": "float64"}.get(a.dtype, a.dtype), [s for r in out for s in r])


def along(f, a, axis, dtype=None, n=None):
    """apply a list -> list function along an axis"""
    axis = axis + a.ndim if axis < 0 else axis
    if not 0 <= axis < a.ndim:
        raise Bad("axis")
    b = moveaxis(a, axis, a.ndim - 1)
    d = b.shape[-1]
    rows = [f(list(b.v[i * d:(i + 1) * d])) for i in range(len(b.v) // d if d else 0)]
    k = len(rows[0]) if rows else 0
    return moveaxis(NDA(b.shape[:-1] + (k,), dtype or a.dtype, [x for r in rows for x in r]), a.ndim - 1, axis)


def rats(v):
    """entries of a list of constants, in increasing order as given"""
    r = [x.rat() for x in v]
    if not r or None in r:
        raise Unmodelled("order statistics of unknown entries")
    return r


def quant(v, q):
    """linear interpolation between order statistics"""
    r = sorted(rats(v))
    if not 0 <= q <= 1:
        raise Unmodelled("quantile level")
    h = q * (len(r) - 1)
    i = int(h)
    return P(r[i] + (h - i) * (r[min(i + 1, len(r) - 1)] - r[i]))


def statistics(name, A):
    """order statistics of constant arrays"""
    if name == "interp":
        d = A("x", "xp", "fp")
        if set(d.d) != {"x", "xp", "fp"}:
            raise Unmodelled(name)
        x, xp, fp = d.nd("x"), rats(d.nd("xp").v), rats(d.nd("fp").v)
        if xp != sorted(xp) or len(set(xp)) != len(xp) or len(xp) != len(fp):
            raise Unmodelled("interp")
        out = []
        for q in rats(x.v):
            if q <= xp[0] or q >= xp[-1]:
                out.append(P(fp[0] if q <= xp[0] else fp[-1]))
                continue
            i = max(k for k in range(len(xp)) if xp[k] <= q)
            out.append(P(fp[i] + (q - xp[i]) * (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])))
        return NDA(x.shape, "float32", out)
    d = A("a", "axis") if name in ("median", "ptp") else A("a", "q", "axis")
    if any(k not in ("a", "q", "axis", "keepdims") for k in d.d):
        raise Unmodelled(name)
    a, ax, keep = d.nd("a"), d.py("axis"), d.py("keepdims", False)
    if ax is None:
        a, ax = reshape(a, (-1,)), 0
        if keep:
            raise Unmodelled(name)
    if not isinstance(ax, int):
        raise Unmodelled(name)
    dt = a.dtype if a.dtype.startswith("float") else "float32"
    if name == "ptp":
        r = along(lambda v: [P(max(rats(v)) - min(rats(v)))], a, ax)
        return r if keep else squeeze(r, ax)
    if name == "median":
        r = along(lambda v: [quant(v, Fraction(1, 2))], a, ax, dt)
        return r if keep else squeeze(r, ax)
    if keep:
        raise Unmodelled(name)
    qs = d.nd("q")
    lv = [x / (100 if name == "percentile" else 1) for x in rats(qs.v)]
    r = moveaxis(along(lambda v: [quant(v, x) for x in lv], a, ax, dt), ax, 0)
    return reshape(r, qs.shape + r.shape[1:])


def cumsum(xs):
    out, s = [], ZERO
    for x in xs:
        s = s + x
        out.append(s)
    return out


def where(c, a, b):
    sh = bshape(c.shape, a.shape, b.shape)
    if c.dtype != "bool":
        c = astype(c, "bool")
    return NDA(sh, dts(a, b), [poly.choose(x, y, z) for x, y, z in zip(broadcast(c, sh).v, broadcast(a, sh).v, broadcast(b, sh).v)])


# ------------------------------------------------------------- the jax.numpy model
def value(I, st, t):
    """NDA of a term that denotes an array or a python number, else None"""
    t = I.snap(st, t)
    if t.op == "nd":
        return t.args[0]
    if t.op == "const" and isinstance(t.args[0], (bool, int, float, complex)):
        return nd(t.args[0])
    if t.op in ("tuple", "list"):
        xs = [value(I, st, x) for x in t.args]
        if any(x is None for x in xs):
            return None
        return stack(xs, 0) if xs else NDA((0,), "float32", [])
    return None


def wrap(a):
    if isinstance(a, Weak):
        c = a.v[0].const()
        if c is not None:
            return const(pynum(c, KIND[a.dtype]))
        a = NDA(a.shape, a.dtype, a.v)
    if isinstance(a, NDA):
        return T("nd", a)
    if isinstance(a, (tuple, list)):
        return T("tuple", *[wrap(x) for x in a])
    return a


def pynum(c, kind):
    if kind == 3:
        return complex(float(c.re), float(c.im))
    if kind == 2:
        return float(c.re)
    return bool(c.re) if kind == 0 else int(c.re)


def pyarg(I, st, t):
    """python value of a constant argument (ints, tuples of ints, None, str)"""
    t = I.snap(st, t)
    if t is NONE:
        return None
    if t.op == "const":
        return t.args[0]
    if t.op in ("tuple", "list"):
        return tuple(pyarg(I, st, x) for x in t.args)
    if t.op == "nd" and t.args[0].ndim == 0 and t.args[0].v[0].rat() is not None and KIND[t.args[0].dtype] <= 1:
        return int(t.args[0].v[0].rat())
    if t.op == "nd" and t.args[0].ndim == 1 and all(x.rat() is not None for x in t.args[0].v):
        return tuple(int(x.rat()) for x in t.args[0].v)
    if t.op == "ext" and t.args[0].endswith(".inf"):
        return math.inf
    raise Unmodelled(f"argument {str(t)[:60]}")


def hasnd(I, st, t, depth=0):
    if t.op == "nd":
        return True
    if t.op == "ref":
        o = I.obj(st, t)
        if o is not None and o.kind == "list" and depth < 4:
            return any(hasnd(I, st, x, depth + 1) for x in o.items)
        return False
    if t.op in ("tuple", "list") and depth < 4:
        return any(hasnd(I, st, x, depth + 1) for x in t.args)
    return False


class Args:
    """positional / keyword arguments by name"""

    def __init__(self, I, st, names, args, kwargs):
        self.I, self.st = I, st
        self.d = dict(zip(names, args))
        if len(args) > len(names):
            raise Unmodelled("arguments")
        for k, v in kwargs.items():
            self.d[k] = v

    def raw(self, k):
        return self.d.get(k)

    def nd(self, k):
        v = value(self.I, self.st, self.d[k]) if k in self.d else None
        if v is None:
            raise Unmodelled(f"array argument {k}")
        return v

    def py(self, k, default=None):
        return pyarg(self.I, self.st, self.d[k]) if k in self.d else default

    def dt(self, k="dtype", default=None):
        v = self.d.get(k)
        if v is None or v is NONE:
            return default
        return dtname(self.I.snap(self.st, v))

    def list(self, k):
        t = self.I.snap(self.st, self.d[k])
        if t.op == "nd":
            return [t.args[0][i] for i in range(t.args[0].shape[0])]
        its = self.I.as_items(self.d[k], self.st)
        if its is None:
            raise Unmodelled("sequence argument")
        xs = [value(self.I, self.st, x) for x in its]
        if any(x is None for x in xs):
            raise Unmodelled("sequence argument")
        return xs


def realdt(d):
    return {"complex64": "float32", "complex128": "float64"}.get(d, d)


def unary(f, a, dt=None):
    return NDA(a.shape, dt or a.dtype, [f(x) for x in a.v])


def opaque1(name):
    def g(a):
        dt = a.dtype if KIND[a.dtype] >= 2 else "float32"
        return NDA(a.shape, dt, [poly.func(name, x, real=x.isreal()) for x in a.v])
    return g


UNARY = {
    "negative": lambda a: unary(lambda x: -x, a),
    "positive": lambda a: a,
    "square": lambda a: unary(lambda x: x * x, a),
    "conj": lambda a: a.conj(), "conjugate": lambda a: a.conj(),
    "real": lambda a: unary(lambda x: x.real(), a, realdt(a.dtype)),
    "imag": lambda a: unary(lambda x: x.imag(), a, realdt(a.dtype)),
    "abs": lambda a: unary(poly.absv, a, realdt(a.dtype)),
    "absolute": lambda a: unary(poly.absv, a, realdt(a.dtype)),
    "fabs": lambda a: unary(poly.absv, a, realdt(a.dtype)),
    "sqrt": lambda a: unary(poly.sqrtv, a),
    "reciprocal": lambda a: elem2("/", nd(1), a),
    "copy": lambda a: a,
    "logical_not": lambda a: unary(lambda x: one - x, astype(a, "bool")),
    "sign": opaque1("sign"),
}
for _n in ("exp", "log", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arctan", "arcsin", "arccos", "exp2", "expm1", "log1p", "log2", "log10", "ceil", "floor", "rint", "round", "isfinite", "isnan", "isinf", "angle", "sinc"):
    UNARY[_n] = opaque1(_n)
BINARY = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "**", "float_power": "**", "maximum": "max", "minimum": "min", "equal": "==",
          "not_equal": "!=", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "floor_divide": "//", "mod": "%", "remainder": "%",
          "logical_and": "&", "logical_or": "|", "bitwise_and": "&", "bitwise_or": "|", "sub": "-", "mul": "*", "div": "/", "max": "max", "min": "min", "pow": "**"}
OPERATOR = {"operator.add": "+", "operator.sub": "-", "operator.mul": "*", "operator.truediv": "/", "operator.pow": "**", "operator.matmul": "@"}


def flat_shape(s):
    return (s,) if isinstance(s, int) else tuple(s)


def fn_model(I, name, args, kwargs, st, pre):
    """value of jax.numpy.<name>(...), or None when it is not an array function"""
    def A(*names):
        return Args(I, st, names, args, kwargs)

    def arr(a, b="x"):
        d = A(b if b in kwargs else "a", "_1", "_2", "_3")
        return d
    first = lambda: A(*(("x",) if "x" in kwargs else ("a",)))  # noqa: E731
    if pre == "jax.lax." and name in ("max", "min") or name in BINARY and pre != "jax.lax." and name not in ("max", "min", "pow", "sub", "mul", "div") or pre == "jax.lax." and name in ("add", "sub", "mul", "div", "pow"):
        d = A("x", "y")
        x = d.d.get("x", d.d.get("x1"))
        y = d.d.get("y", d.d.get("x2"))
        a, b = value(I, st, x), value(I, st, y)
        if a is None or b is None:
            raise Unmodelled(name)
        if name.startswith("logical"):
            a, b = astype(a, "bool"), astype(b, "bool")
        return elem2(BINARY[name], a, b)
    if name in UNARY:
        d = A("x")
        x = d.d.get("x", next(iter(kwargs.values()), None) if not args else None)
        a = value(I, st, x) if x is not None else None
        if a is None:
            raise Unmodelled(name)
        a = NDA(a.shape, a.dtype, a.v)
        return UNARY[name](a)
    if name in ("sum", "mean", "prod", "amax", "amin", "max", "min", "any", "all", "std", "var", "nansum"):
        d = A("a", "axis", "dtype", "out", "keepdims")
        a = d.nd("a")
        ax, kd = d.py("axis"), bool(d.py("keepdims", False))
        if d.raw("where") is not None or d.raw("initial") is not None:
            raise Unmodelled("where= reduction")
        if name in ("sum", "nansum"):
            return sum_(a, ax, kd)
        if name == "mean":
            s = sum_(a, ax, kd)
            n = math.prod(a.shape[i] for i in normaxes(a, ax))
            return elem2("/", s, nd(n)) if n else s
        if name == "prod":
            return reduce_(pprod, a, ax, kd)
        if name in ("max", "amax"):
            return reduce_(poly.maxv, a, ax, kd)
        if name in ("min", "amin"):
            return reduce_(lambda v: poly.maxv(v, True), a, ax, kd)
        if name in ("any", "all"):
            a = astype(a, "bool")
            f = pprod if name == "all" else (lambda v: one - pprod([one - x for x in v]))
            return reduce_(f, a, ax, kd, "bool")
        n = math.prod(a.shape[i] for i in normaxes(a, ax))
        mu = elem2("/", sum_(a, ax, True), nd(n))
        dlt = elem2("-", a, mu)
        sq = elem2("*", dlt, dlt.conj())
        v = elem2("/", sum_(sq, ax, kd), nd(n - (d.py("ddof", 0) or 0)))
        return v if name == "var" else UNARY["sqrt"](v)
    if name in ("cumsum",):
        d = A("a", "axis")
        a = d.nd("a")
        ax = d.py("axis")
        if ax is None:
            a, ax = reshape(a, (-1,)), 0
        return along(cumsum, a, ax)
    if name in ("einsum",):
        spec = pyarg(I, st, args[0])
        if not isinstance(spec, str):
            raise Unmodelled("einsum subscripts")
        xs = [value(I, st, x) for x in args[1:]]
        if any(x is None for x in xs):
            raise Unmodelled("einsum operand")
        return einsum(spec, *xs)
    if name in ("matmul",):
        d = A("a", "b")
        return matmul(d.nd("a"), d.nd("b"))
    if name == "dot":
        d = A("a", "b")
        return dot(d.nd("a"), d.nd("b"))
    if name == "inner":
        d = A("a", "b")
        a, b = d.nd("a"), d.nd("b")
        return tensordot(a, b, ([-1], [-1])) if a.ndim and b.ndim else elem2("*", a, b)
    if name == "outer":
        d = A("a", "b")
        a, b = reshape(d.nd("a"), (-1, 1)), reshape(d.nd("b"), (1, -1))
        return elem2("*", a, b)
    if name == "vdot":
        d = A("a", "b")
        a, b = reshape(d.nd("a"), (-1,)), reshape(d.nd("b"), (-1,))
        return sum_(elem2("*", a.conj(), b))
    if name == "tensordot":
        d = A("a", "b", "axes")
        ax = d.py("axes", 2)
        return tensordot(d.nd("a"), d.nd("b"), ax)
    if name == "kron":
        d = A("a", "b")
        a, b = d.nd("a"), d.nd("b")
        if a.ndim != 2 or b.ndim != 2:
            raise Unmodelled("kron")
        r = einsum("ij,kl->ikjl", a, b)
        return reshape(r, (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))
    if name in ("transpose", "permute_dims"):
        d = A("a", "axes")
        return transpose(d.nd("a"), d.py("axes"))
    if name == "matrix_transpose":
        return A("a").nd("a").swap(-1, -2)
    if name == "swapaxes":
        d = A("a", "axis1", "axis2")
        return d.nd("a").swap(d.py("axis1"), d.py("axis2"))
    if name == "moveaxis":
        d = A("a", "source", "destination")
        s, e = d.py("source"), d.py("destination")
        if not isinstance(s, int):
            raise Unmodelled("moveaxis")
        return moveaxis(d.nd("a"), s, e)
    if name == "reshape":
        d = A("a", "shape", "order")
        s = d.py("shape") if "shape" in d.d else d.py("newshape") if "newshape" in d.d else d.py("new_sizes")
        if d.py("order", "C") == "F":
            a = transpose(d.nd("a"))
            s = list(flat_shape(s))
            s = reshape(a, s).shape
            return transpose(reshape(a, s[::-1]))
        if d.py("order", "C") != "C":
            raise Unmodelled("reshape order")
        return reshape(d.nd("a") if "a" in d.d else d.nd("operand"), flat_shape(s))
    if name in ("ravel",):
        return reshape(A("a").nd("a"), (-1,))
    if name == "squeeze":
        d = A("a", "axis")
        return squeeze(d.nd("a"), d.py("axis"))
    if name == "expand_dims":
        d = A("a", "axis")
        a = d.nd("a")
        ax = d.py("axis")
        for x in sorted(flat_shape(ax)):
            n = a.ndim + 1
            x = x + n if x < 0 else x
            a = reshape(a, a.shape[:x] + (1,) + a.shape[x:])
        return a
    if name in ("concatenate", "concat"):
        d = A("arrays", "axis")
        return concat(d.list("arrays"), d.py("axis", 0) if "axis" in d.d else 0)
    if name == "concatenate" or pre == "jax.lax." and name == "concatenate":
        d = A("operands", "dimension")
        return concat(d.list("operands"), d.py("dimension"))
    if name == "stack":
        d = A("arrays", "axis")
        return stack(d.list("arrays"), d.py("axis", 0))
    if name == "hstack":
        xs = [reshape(x, (1,)) if not x.ndim else x for x in A("tup").list("tup")]
        return concat(xs, 0 if xs[0].ndim == 1 else 1)
    if name == "vstack":
        xs = [reshape(x, (1, -1)) if x.ndim < 2 else x for x in A("tup").list("tup")]
        return concat(xs, 0)
    if name == "broadcast_to":
        d = A("array", "shape")
        return broadcast(d.nd("array") if "array" in d.d else d.nd("arr"), flat_shape(d.py("shape")))
    if name == "broadcast_arrays":
        xs = [value(I, st, x) for x in args]
        if any(x is None for x in xs):
            raise Unmodelled(name)
        sh = bshape(*[x.shape for x in xs])
        return [broadcast(x, sh) for x in xs]
    if name == "tile":
        d = A("A", "reps")
        a, r = d.nd("A"), flat_shape(d.py("reps"))
        n = max(a.ndim, len(r))
        a = reshape(a, (1,) * (n - a.ndim) + a.shape)
        r = (1,) * (n - len(r)) + tuple(r)
        for ax, k in enumerate(r):
            a = concat([a] * k, ax) if k else index(a, tuple([slice(None)] * ax + [slice(0, 0)]))
        return a
    if name == "repeat":
        d = A("a", "repeats", "axis")
        a, ax, k = d.nd("a"), d.py("axis"), d.py("repeats")
        if ax is None:
            a, ax = reshape(a, (-1,)), 0
        if not isinstance(k, int):
            raise Unmodelled("repeat")
        return along(lambda v: [x for x in v for _ in range(k)], a, ax)
    if name in ("flip", "fliplr", "flipud"):
        d = A("m", "axis")
        a = d.nd("m")
        ax = d.py("axis") if name == "flip" else {"fliplr": 1, "flipud": 0}[name]
        for x in normaxes(a, ax):
            a = along(lambda v: v[::-1], a, x)
        return a
    if name == "roll":
        d = A("a", "shift", "axis")
        a, s, ax = d.nd("a"), d.py("shift"), d.py("axis")
        sh = a.shape
        if ax is None:
            return reshape(along(lambda v: v[-s % len(v):] + v[:-s % len(v)], reshape(a, (-1,)), 0), sh)
        return along(lambda v: v[-s % len(v):] + v[:-s % len(v)], a, ax)
    if name == "take":
        d = A("a", "indices", "axis")
        a, ax = d.nd("a"), d.py("axis")
        ix = d.nd("indices")
        if ax is None:
            a, ax = reshape(a, (-1,)), 0
        ax = ax + a.ndim if ax < 0 else ax
        return index(a, tuple([slice(None)] * ax + [NDA(ix.shape, "int32", ix.v)]))
    if name == "take_along_axis":
        d = A("arr", "indices", "axis")
        a, ix, ax = d.nd("arr"), d.nd("indices"), d.py("axis")
        if ax is None:
            raise Unmodelled("take_along_axis")
        ax = ax + a.ndim if ax < 0 else ax
        if a.ndim != ix.ndim:
            raise Bad("take_along_axis rank")
        sh = bshape(a.shape[:ax] + (1,) + a.shape[ax + 1:], ix.shape[:ax] + (1,) + ix.shape[ax + 1:])
        ix = broadcast(ix, sh[:ax] + (ix.shape[ax],) + sh[ax + 1:])
        a = broadcast(a, sh[:ax] + (a.shape[ax],) + sh[ax + 1:])
        out = []
        for i in ix.indices():
            col = [a.at(i[:ax] + (j,) + i[ax + 1:]) for j in range(a.shape[ax])]
            out.append(poly.pick(col, ix.at(i)))
        return NDA(ix.shape, a.dtype, out)
    if name == "argsort":
        d = A("a", "axis")
        if any(k not in ("a", "axis", "stable", "descending") for k in d.d):
            raise Unmodelled("argsort")
        f = poly.argsort
        if d.py("descending", False):
            f = lambda v: poly.argsort([-x for x in v])  # noqa: E731
        return along(f, d.nd("a"), d.py("axis", -1), "int32")
    if name == "sort":
        d = A("a", "axis")
        a = d.nd("a")

        def f(v):
            ix = poly.argsort(v)
            return [poly.pick(v, i) for i in ix]
        r = along(f, a, d.py("axis", -1))
        return along(lambda v: v[::-1], r, d.py("axis", -1)) if d.py("descending", False) else r
    if name in ("argmin", "argmax"):
        d = A("a", "axis")
        a, ax = d.nd("a"), d.py("axis")
        if ax is None:
            a, ax = reshape(a, (-1,)), 0
        r = along(lambda v: [poly.argsort(v)[0 if name == "argmin" else -1]], a, ax, "int32")
        return squeeze(r, ax)
    if name in ("median", "quantile", "percentile", "ptp", "interp"):
        return statistics(name, A)
    if name == "top_k":
        d = A("operand", "k")
        a, k = d.nd("operand"), d.py("k")
        ix = along(lambda v: poly.argsort(v)[::-1][:k], a, -1, "int32")
        vals = along(lambda v: [poly.pick(v, i) for i in poly.argsort(v)[::-1][:k]], a, -1)
        return [vals, ix]
    if name == "where":
        d = A("condition", "x", "y")
        if "x" not in d.d:
            raise Unmodelled("where(condition)")
        return where(d.nd("condition"), d.nd("x"), d.nd("y"))
    if name == "select" and pre == "jax.lax.":
        d = A("condition", "x", "y")
        return where(d.nd("condition"), d.nd("x"), d.nd("y"))
    if name == "clip":
        d = A("x", "min", "max")
        a = d.nd("x") if "x" in d.d else d.nd("a")
        for k, op in (("min", "max"), ("a_min", "max"), ("max", "min"), ("a_max", "min")):
            if k in d.d and d.d[k] is not NONE:
                a = elem2(op, a, d.nd(k))
        return a
    if name in ("zeros", "ones", "empty"):
        d = A("shape", "dtype")
        s = flat_shape(d.py("shape"))
        return NDA(s, d.dt(default="float32"), [P(1 if name == "ones" else 0)] * math.prod(s))
    if name == "full":
        d = A("shape", "fill_value", "dtype")
        s = flat_shape(d.py("shape"))
        f = d.nd("fill_value")
        r = broadcast(f, s)
        return astype(r, d.dt(default=f.dtype))
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        d = A("a", "fill_value", "dtype", "shape") if name == "full_like" else A("a", "dtype", "shape")
        a = d.nd("a")
        s = flat_shape(d.py("shape")) if d.raw("shape") not in (None, NONE) else a.shape
        dt = d.dt(default=a.dtype)
        if name == "full_like":
            x = d.raw("fill_value")
            x = nd(math.inf) if x is not None and x.op == "ext" and x.args[0].endswith(".inf") else d.nd("fill_value")
            return astype(broadcast(x, s), dt)
        return NDA(s, dt, [P(1 if name == "ones_like" else 0)] * math.prod(s))
    if name == "arange":
        d = A("start", "stop", "step", "dtype")
        xs = [d.py(k) for k in ("start", "stop", "step") if k in d.d and d.d[k] is not NONE]
        if not all(isinstance(x, int) for x in xs):
            raise Unmodelled("arange")
        r = list(range(*xs))
        return NDA((len(r),), d.dt(default="int32"), [P(i) for i in r])
    if name in ("eye", "identity"):
        d = A("N", "M", "k", "dtype") if name == "eye" else A("n", "dtype")
        n = d.py("N") if name == "eye" else d.py("n")
        m = d.py("M") if d.raw("M") not in (None, NONE) else n
        k = d.py("k", 0)
        return NDA((n, m), d.dt(default="float32"), [P(int(j - i == k)) for i in range(n) for j in range(m)])
    if name in ("diag", "diagonal"):
        d = A("v", "k") if name == "diag" else A("v", "k", "axis1", "axis2")
        a = d.nd("v") if "v" in d.d else d.nd("a")
        if d.py("k", 0) or d.py("offset", 0):
            raise Unmodelled("diag offset")
        if name == "diag" and a.ndim == 1:
            n = a.shape[0]
            return NDA((n, n), a.dtype, [a.v[i] if i == j else ZERO for i in range(n) for j in range(n)])
        a1, a2 = (d.py("axis1", 0), d.py("axis2", 1)) if name == "diagonal" else (0, 1)
        a1, a2 = a1 % a.ndim, a2 % a.ndim
        L = "abcdefgh"[:a.ndim]
        s = list(L)
        s[a2] = s[a1]
        if a.shape[a1] != a.shape[a2]:
            raise Unmodelled("diagonal")
        return einsum("".join(s) + "->" + "".join(c for i, c in enumerate(L) if i not in (a1, a2)) + s[a1], a)
    if name == "trace":
        d = A("a", "offset", "axis1", "axis2")
        a = d.nd("a")
        if d.py("offset", 0):
            raise Unmodelled("trace")
        x, y = d.py("axis1", 0) % a.ndim, d.py("axis2", 1) % a.ndim
        L = "abcdefgh"[:a.ndim]
        s = list(L)
        s[y] = s[x]
        return einsum("".join(s) + "->" + "".join(c for i, c in enumerate(L) if i not in (x, y)), a)
    if name in ("triu", "tril"):
        d = A("m", "k")
        a, k = d.nd("m"), d.py("k", 0)
        return NDA(a.shape, a.dtype, [x if (i[-1] - i[-2] >= k if name == "triu" else i[-1] - i[-2] <= k) else ZERO for i, x in zip(a.indices(), a.v)])
    if name in ("array", "asarray", "ascontiguousarray"):
        d = A("object", "dtype")
        a = d.nd("object") if "object" in d.d else d.nd("a")
        a = NDA(a.shape, a.dtype, a.v)
        dt = d.dt(default=a.dtype)
        return astype(a, dt)
    if name in ("atleast_1d", "atleast_2d"):
        a = value(I, st, args[0])
        k = int(name[8])
        return reshape(a, (1,) * (k - a.ndim) + a.shape) if a.ndim < k else a
    if name in ("float32", "float64", "complex64", "complex128", "int32"):
        return astype(value(I, st, args[0]), name)
    if name == "allclose" or name == "array_equal":
        d = A("a", "b")
        a, b = both(d.nd("a"), d.nd("b"))
        if a.v == b.v:
            return TRUE
        if all((x - y).rat() is not None for x, y in zip(a.v, b.v)):
            return FALSE
        return T("call", T("ext", "jax.numpy.allclose"), (T("nd", a), T("nd", b)), ())
    if name == "isclose":
        d = A("a", "b")
        a, b = both(d.nd("a"), d.nd("b"))
        return NDA(a.shape, "bool", [one if x == y else poly.func("isclose", x, y) for x, y in zip(a.v, b.v)])
    if name in ("iscomplexobj", "isrealobj"):
        a = value(I, st, args[0])
        return const((KIND[a.dtype] == 3) == (name == "iscomplexobj"))
    if name == "isscalar":
        v = I.snap(st, args[0])
        return const(v.op == "const" and isinstance(v.args[0], (int, float, complex)) or v.op == "nd" and v.args[0].ndim == 0)
    if name in ("shape", "ndim", "size"):
        a = value(I, st, args[0])
        return {"shape": T("tuple", *[const(x) for x in a.shape]), "ndim": const(a.ndim), "size": const(len(a.v))}[name]
    if name == "result_type" or name == "promote_types":
        ds = []
        for x in args:
            v = I.snap(st, x)
            if v.op == "nd":
                ds.append(v.args[0].dtype)
            elif v.op == "const" and isinstance(v.args[0], (bool, int, float, complex)):
                ds.append("w%d" % KIND[nd(v.args[0]).dtype])
            else:
                ds.append(dtname(v))
        return dtterm(promote(*ds))
    if name == "astype":
        d = A("x", "dtype")
        return astype(d.nd("x"), d.dt())
    if name == "convert_element_type":
        d = A("operand", "new_dtype")
        return astype(d.nd("operand"), d.dt("new_dtype"))
    if name == "dynamic_slice":
        a = value(I, st, args[0])
        s, z = pyarg(I, st, args[1]), pyarg(I, st, args[2])
        s = [min(max(i, 0), d - k) for i, d, k in zip(s, a.shape, z)]
        return index(a, tuple(slice(i, i + k) for i, k in zip(s, z)))
    if name in ("dynamic_slice_in_dim", "slice_in_dim"):
        nm = ("operand", "start_index", "slice_size", "axis") if name[0] == "d" else ("operand", "start_index", "limit_index", "stride", "axis")
        d = A(*nm)
        a, ax, s = d.nd("operand"), d.py("axis", 0), d.py("start_index")
        ax %= a.ndim
        if name[0] == "d":
            k = d.py("slice_size")
            s = min(max(s, 0), a.shape[ax] - k)
            return index(a, tuple([slice(None)] * ax + [slice(s, s + k)]))
        return index(a, tuple([slice(None)] * ax + [slice(s, d.py("limit_index"), d.py("stride"))]))
    if name == "split" or name == "array_split":
        d = A("ary", "indices_or_sections", "axis")
        a, k, ax = d.nd("ary"), d.py("indices_or_sections"), d.py("axis", 0)
        ax %= a.ndim
        n = a.shape[ax]
        if isinstance(k, int):
            if n % k:
                raise Bad("split")
            cuts = list(range(0, n + 1, n // k))
        else:
            cuts = [0] + list(k) + [n]
        return [index(a, tuple([slice(None)] * ax + [slice(i, j)])) for i, j in zip(cuts, cuts[1:])]
    return None


def squeeze(a, axis=None):
    ax = [i for i, d in enumerate(a.shape) if d == 1] if axis is None else normaxes(a, axis)
    if any(a.shape[i] != 1 for i in ax):
        raise Bad("squeeze of an axis that is not 1")
    return reshape(a, [d for i, d in enumerate(a.shape) if i not in ax])


def linalg_model(I, name, args, kwargs, st):
    d = Args(I, st, {"norm": ("x", "ord", "axis", "keepdims"), "matmul": ("x", "y")}.get(name, ("a", "b")), args, kwargs)
    g = lambda: d.nd("a") if "a" in d.d else d.nd("x")  # noqa: E731
    if name == "eigh":
        return list(eigh(g(), d.py("symmetrize_input", True) is not False))
    if name == "eigvalsh":
        return eigh(g(), d.py("symmetrize_input", True) is not False)[0]
    if name == "norm":
        return norm(d.nd("x"), d.py("ord"), d.py("axis"), bool(d.py("keepdims", False)))
    if name == "matrix_norm":
        a = g()
        return norm(a, d.py("ord", d.py("b", "fro")), (-2, -1))
    if name == "vector_norm":
        return norm(g(), d.py("ord", 2), d.py("axis"), bool(d.py("keepdims", False)))
    if name == "svdvals" or name == "svd" and d.py("compute_uv", True) is False:
        return svdvals(g())
    if name == "matrix_transpose":
        return g().swap(-1, -2)
    if name == "matmul":
        return matmul(d.nd("x"), d.nd("y"))
    if name == "trace":
        return einsum("...ii->...", g())
    raise Unmodelled(f"linalg.{name}")


RANDOM = {"normal": ("key", "shape", "dtype"), "uniform": ("key", "shape", "dtype", "minval", "maxval"), "truncated_normal": ("key", "lower", "upper", "shape", "dtype")}


def random_model(I, name, args, kwargs, st, node):
    if name in RANDOM:
        d = Args(I, st, RANDOM[name], args, kwargs)
        s = flat_shape(d.py("shape", ()))
        dt = d.dt(default="float32")
        key = I.snap(st, d.raw("key"))
        extra = tuple(str(I.snap(st, d.d[k])) for k in ("minval", "maxval", "lower", "upper") if k in d.d)
        real = KIND[dt] < 3
        I.emit("draw", st, node, key=key, shape=s, dtype=dt, fn=name)
        return NDA(s, dt, [P(poly.Atom(("draw", name, key, s, dt, extra, i), real=real)) for i in itertools.product(*[range(x) for x in s])])
    return None


def nn_model(I, name, args, kwargs, st):
    d = Args(I, st, ("x", "_1"), args, kwargs)
    a = d.nd("x")
    if name == "relu":
        return elem2("max", a, nd(0))
    if name == "leaky_relu":
        s = d.nd("negative_slope") if "negative_slope" in d.d else d.nd("_1") if "_1" in d.d else nd(0.01)
        return where(elem2(">=", a, nd(0)), a, elem2("*", s, a))
    raise Unmodelled(f"jax.nn.{name}")


NPRE = ("jax.numpy.", "numpy.", "jax.lax.")
CREATE = {"zeros", "ones", "full", "eye", "identity", "arange", "empty", "array", "asarray"}


def call(I, q, args, kwargs, st, node):
    """model of an external call in nd mode; None = not an array function"""
    anynd = any(hasnd(I, st, a) for a in list(args) + list(kwargs.values()))
    if q in OPERATOR and anynd and len(args) == 2:
        return binop(I, OPERATOR[q], args[0], args[1], st)
    if q.startswith("jax.random."):
        r = random_model(I, q[11:], args, kwargs, st, node)
        return wrap(r) if r is not None else None
    if q in ("jax.lax.scan", "jax.lax.fori_loop", "jax.lax.map", "jax.lax.while_loop", "jax.lax.cond", "jax.lax.switch"):
        return control(I, q, args, kwargs, st, node)
    if q == "jax.lax.stop_gradient":
        I.emit("stopgrad", st, node, value=I.snap(st, args[0]))
        return args[0]
    for pre in NPRE:
        if not q.startswith(pre):
            continue
        name = q[len(pre):]
        if name.startswith("linalg."):
            return wrap(linalg_model(I, name[7:], args, kwargs, st)) if anynd else None
        if name in ("allclose", "result_type", "promote_types", "isscalar", "isrealobj", "iscomplexobj") or anynd or name in CREATE:
            try:
                r = fn_model(I, name, args, kwargs, st, pre)
            except Unmodelled:
                if anynd:
                    raise
                return None
            if r is None:
                if anynd:
                    if name in ("issubdtype", "dtype", "ndarray"):
                        return None
                    raise Unmodelled(q)
                return None
            return wrap(r)
        if name == "issubdtype":
            a, b = I.snap(st, args[0]), I.snap(st, args[1])
            try:
                k = KIND[dtname(a)]
            except Unmodelled:
                return None
            n = b.args[0].split(".")[-1] if b.op == "ext" else None
            t = {"complexfloating": {3}, "floating": {2}, "inexact": {2, 3}, "integer": {1}, "number": {1, 2, 3}, "bool_": {0}}.get(n)
            return const(k in t) if t else None
        return None
    if q.startswith("jax.nn.") and anynd:
        return wrap(nn_model(I, q[7:], args, kwargs, st))
    return None


def binop(I, op, a, b, st):
    x, y = value(I, st, a), value(I, st, b)
    if x is None or y is None:
        raise Unmodelled(f"{op} with {a.op} and {b.op}")
    if op == "@":
        return wrap(matmul(x, y))
    return wrap(elem2(op, x, y))


def attr(I, b, name, st):
    a = b.args[0]
    if name == "shape":
        return T("tuple", *[const(x) for x in a.shape])
    if name == "ndim":
        return const(a.ndim)
    if name == "size":
        return const(len(a.v))
    if name == "dtype":
        return dtterm(a.dtype)
    if name == "T":
        return wrap(transpose(a))
    if name == "mT":
        return wrap(a.swap(-1, -2))
    if name in ("real", "imag"):
        return wrap(UNARY[name](a))
    if name == "at":
        return T("attr", b, "at")
    return None


def method(I, b, name, args, kwargs, st, node):
    a = b.args[0]
    if name in ("reshape", "transpose") and not kwargs:
        v = [pyarg(I, st, x) for x in args]
        if len(v) == 1 and isinstance(v[0], tuple):
            v = list(v[0])
        if name == "reshape":
            return wrap(reshape(a, v))
        return wrap(transpose(a, v if v and v[0] is not None else None))
    if name == "astype":
        return wrap(astype(a, dtname(I.snap(st, args[0] if args else kwargs["dtype"]))))
    if name in ("flatten", "ravel"):
        return wrap(reshape(a, (-1,)))
    if name in ("item", "tolist", "block_until_ready", "copy", "view", "__array__"):
        if name == "item" and len(a.v) == 1 and a.v[0].const() is not None:
            return const(pynum(a.v[0].const(), KIND[a.dtype]))
        if name in ("block_until_ready", "copy"):
            return b
        raise Unmodelled(f".{name}()")
    if name in ("__add__", "__sub__", "__mul__", "__matmul__", "__truediv__", "__pow__"):
        return binop(I, {"__add__": "+", "__sub__": "-", "__mul__": "*", "__matmul__": "@", "__truediv__": "/", "__pow__": "**"}[name], b, args[0], st)
    if name in ("sum", "mean", "prod", "max", "min", "any", "all", "std", "var", "cumsum", "squeeze", "swapaxes", "dot", "take", "argsort", "argmax", "argmin", "conj",
                "conjugate", "repeat", "trace", "diagonal", "round", "clip"):
        kw = dict(kwargs)
        return wrap(fn_model(I, name, [b] + list(args), kw, st, "jax.numpy."))
    raise Unmodelled(f"method {name}")


def key_of(I, st, k):
    """index term -> python index"""
    k = I.snap(st, k)
    if k is NONE:
        return None
    if k.op == "const":
        if k.args[0] is Ellipsis:
            return Ellipsis
        if isinstance(k.args[0], int) and not isinstance(k.args[0], bool):
            return k.args[0]
        raise Unmodelled(f"index {k!r}")
    if k.op == "ext" and k.args[0].endswith("newaxis"):
        return None
    if k.op == "slice":
        return slice(*[None if x is NONE else pyarg(I, st, x) for x in k.args])
    if k.op == "nd":
        return k.args[0]
    if k.op == "list":
        v = value(I, st, k)
        if v is not None:
            return NDA(v.shape, "int32", v.v) if v.v else NDA((0,), "int32", [])
    if k.op == "ext" and k.args[0] in ("builtins.Ellipsis", "Ellipsis"):
        return Ellipsis
    raise Unmodelled(f"index {str(k)[:60]}")


def keys_of(I, st, k):
    k = I.refine(st, k)
    if k.op == "tuple":
        return tuple(key_of(I, st, x) for x in k.args)
    return (key_of(I, st, k),)


def get(I, b, k, st):
    return wrap(index(b.args[0], keys_of(I, st, k)))


def at_update(I, base, k, mode, args, st):
    v = value(I, st, args[0])
    if v is None:
        raise Unmodelled("indexed update value")
    a = base.args[0]
    if KIND[v.dtype] > KIND[a.dtype]:
        v = astype(v, a.dtype)
    return wrap(set_at(a, keys_of(I, st, k), v, mode))


def truth(a):
    if len(a.v) == 1:
        c = a.v[0].const()
        if c is not None:
            return not c.zero()
        return None
    raise Bad("truth value of an array")


# ------------------------------------------------------------- maps and loops
def tree_rows(I, st, t, ax, i):
    """i-th slice of every array of a tree along its axis"""
    t = I.snap(st, t)
    if ax is None or t is NONE:
        return t
    if t.op == "nd":
        a = t.args[0]
        if not a.ndim:
            raise Bad("vmap over a scalar")
        x = ax % a.ndim
        return wrap(index(a, tuple([slice(None)] * x + [i])))
    if t.op in ("tuple", "list"):
        axs = ax if isinstance(ax, tuple) else (ax,) * len(t.args)
        r = [tree_rows(I, st, x, y, i) for x, y in zip(t.args, axs)]
        return T("tuple", *r) if t.op == "tuple" else I.new_list(st, r)
    if t.op == "dict":
        return I.new_dict(st, [(k, tree_rows(I, st, v, ax, i)) for k, v in t.args[0]])
    raise Unmodelled(f"vmap over {t.op}")


def tree_size(I, st, t, ax):
    t = I.snap(st, t)
    if ax is None or t is NONE:
        return None
    if t.op == "nd":
        a = t.args[0]
        if not a.ndim:
            raise Bad("vmap over a scalar")
        return a.shape[ax % a.ndim]
    if t.op in ("tuple", "list"):
        axs = ax if isinstance(ax, tuple) else (ax,) * len(t.args)
        ss = [tree_size(I, st, x, y) for x, y in zip(t.args, axs)]
    elif t.op == "dict":
        ss = [tree_size(I, st, v, ax) for k, v in t.args[0]]
    else:
        raise Unmodelled(f"vmap over {t.op}")
    ss = [s for s in ss if s is not None]
    if len(set(ss)) > 1:
        raise Bad("vmap sizes differ")
    return ss[0] if ss else None


def tree_stack(I, st, xs, ax=0):
    xs = [I.snap(st, x) for x in xs]
    x0 = xs[0]
    if ax is None:
        return x0
    if x0 is NONE:
        return NONE
    if x0.op in ("tuple", "list"):
        axs = ax if isinstance(ax, tuple) else (ax,) * len(x0.args)
        r = [tree_stack(I, st, [x.args[i] for x in xs], axs[i]) for i in range(len(x0.args))]
        return T("tuple", *r) if x0.op == "tuple" else I.new_list(st, r)
    if x0.op == "dict":
        return I.new_dict(st, [(k, tree_stack(I, st, [dict(x.args[0])[k] for x in xs], ax)) for k, _ in x0.args[0]])
    vs = [value(I, st, x) for x in xs]
    if any(v is None for v in vs):
        raise Unmodelled(f"stack of {x0.op}")
    return wrap(stack([NDA(v.shape, v.dtype, v.v) for v in vs], ax))


def pyaxes(t):
    if t is NONE:
        return None
    if t.op == "const":
        return t.args[0]
    if t.op in ("tuple", "list"):
        return tuple(pyaxes(x) for x in t.args)
    raise Unmodelled("in_axes")


def vmap(I, f, ia, oa, args, kwargs, st, node):
    ia, oa = pyaxes(ia), pyaxes(oa)
    axs = ia if isinstance(ia, tuple) else (ia,) * len(args)
    if len(axs) != len(args):
        raise Bad("in_axes does not match the arguments")
    sizes = [tree_size(I, st, a, x) for a, x in zip(args, axs)] + [tree_size(I, st, v, 0) for v in kwargs.values()]
    sizes = {s for s in sizes if s is not None}
    if len(sizes) != 1:
        raise Bad(f"vmap sizes {sizes}")
    n = sizes.pop()
    outs = [I.call(f, [tree_rows(I, st, a, x, i) if x is not None else a for a, x in zip(args, axs)],
                   {k: tree_rows(I, st, v, 0, i) for k, v in kwargs.items()}, st, node) for i in range(n)]
    if not outs:
        raise Unmodelled("vmap over an empty axis")
    dead = next((x for x in outs if x.op == "never"), None)
    if dead is not None:
        return dead
    return tree_stack(I, st, outs, oa)


def vectorized(I, fn, args, kwargs, st, node):
    """numpy.vectorize with a signature of one core axis per argument"""
    f, sig = fn.args
    xs = [value(I, st, a) for a in args]
    core = sig.args[0].split("->")[0].replace(" ", "") if sig.op == "const" and isinstance(sig.args[0], str) else None
    if kwargs or core != ",".join(["(n)"] * len(args)) or any(x is None or x.ndim < 1 or x.shape[:-1] != xs[0].shape[:-1] for x in xs):
        raise Unmodelled("vectorize")
    if len({x.shape[-1] for x in xs}) > 1:
        raise Bad("core sizes differ")
    for _ in range(xs[0].ndim - 1):
        f = T("vmapf", f, const(0), const(0))
    return I.call(f, [wrap(x) for x in xs], {}, st, node)


def control(I, q, args, kwargs, st, node):
    name = q[8:]
    if name == "scan":
        d = dict(zip(("f", "init", "xs", "length", "reverse"), args))
        d.update(kwargs)
        xs = d.get("xs", NONE)
        n = tree_size(I, st, xs, 0) if xs is not NONE and (hasnd(I, st, xs) or I.snap(st, xs).op in ("tuple", "dict", "list")) else None
        if n is None:
            ln = d.get("length", NONE)
            if ln.op != "const" or ln is NONE:
                return None
            n = ln.args[0]
        order = range(n)
        if d.get("reverse", FALSE) is TRUE:
            order = reversed(order)
        c, ys = d["init"], {}
        for i in order:
            r = I.call(d["f"], [c, tree_rows(I, st, xs, 0, i) if xs is not NONE else NONE], {}, st, node)
            c = I.get_item(r, const(0), st)
            ys[i] = I.get_item(r, const(1), st)
        if not ys:
            return T("tuple", c, NONE)
        return T("tuple", c, tree_stack(I, st, [ys[i] for i in range(n)]))
    if name == "fori_loop":
        lo, hi = pyarg(I, st, args[0]), pyarg(I, st, args[1])
        c = args[3]
        for i in range(lo, hi):
            c = I.call(args[2], [const(i), c], {}, st, node)
        return c
    if name == "map":
        n = tree_size(I, st, args[1], 0)
        return tree_stack(I, st, [I.call(args[0], [tree_rows(I, st, args[1], 0, i)], {}, st, node) for i in range(n)])
    return None
