"""Normal form for element-wise real expressions built from abs, sqrt and full
reductions: abs is multiplicative, constants leave abs / sqrt / sum, sum is
linear, |e|**2 = e * conj(e) = re(e)**2 + im(e)**2.  Purely syntactic."""
from fractions import Fraction
from math import isqrt

from .algebra import p_const, p_mul, ratfun
from .common import *

LEAFOPS = {"astype"}


def name_of(x):
    """(function name, positional args, kwargs) of a numpy-like call or method call"""
    if x.op != "call":
        return None
    fn, a, kw = x.args
    kw = dict(kw)
    if fn.op == "ext":
        q = fn.args[0]
        for p in ("jax.numpy.", "numpy.", "jax.lax.", "builtins.", "operator.", "math.", "jax.nn."):
            if q.startswith(p):
                return q[len(p):], a, kw
        return None
    if fn.op == "attr":
        return fn.args[1], (fn.args[0],) + a, kw
    return None


def pterm(p):
    """a polynomial as a term over its canonical monomials"""
    return T("poly", tuple(sorted(p.items())))


def mono_term(m, c, atoms):
    xs = [const_frac(c)]
    for k, e in m:
        xs.append(T("**", atoms[k], const(e)) if e != 1 else atoms[k])
    return T("*", *xs) if len(xs) > 1 else xs[0]


def const_frac(c):
    c = Fraction(c)
    return const(int(c)) if c.denominator == 1 else T("/", const(c.numerator), const(c.denominator))


def lead(p):
    return p[min(p)]


class Elem:
    def __init__(self, positive=(), leaf_of=None):
        self.positive = set(positive)     # atoms known to be real and positive
        self.atoms = {}
        self.leaf_of = leaf_of or (lambda t: None)
        self.unknown = []

    # -------------------------------------------------------------- helpers
    def rf(self, t):
        def at(x):
            if x.op in ("sym", "absp", "sqrtp", "sump", "re", "im", "conj", "size", "poly", "atom") or x in self.positive:
                self.atoms[x.sid] = x
                return x
            return None
        n, d = ratfun(t, at)
        for y in walk(t):
            self.atoms.setdefault(y.sid, y)
        return n, d

    def canon(self, n, d):
        """divide both by the leading coefficient of d"""
        c = lead(d)
        return {m: v / c for m, v in n.items()}, {m: v / c for m, v in d.items()}

    def absx(self, e):
        n, d = self.rf(e)
        if not n:
            return const(0)
        return T("/", self.absp(n), self.absp(d))

    def absp(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            xs = [const_frac(abs(c))]
            for k, e in m:
                a = self.atoms[k]
                a = a if a in self.positive or a.op in ("absp", "sqrtp", "size") else T("absp", ((((k, 1),), Fraction(1)),))
                xs.append(T("**", a, const(e)))
            return T("*", *xs)
        # common monomial factors
        common = None
        for m in p:
            dm = dict(m)
            common = dm if common is None else {k: min(v, dm[k]) for k, v in common.items() if k in dm}
        if common:
            q = {}
            for m, c in p.items():
                dm = dict(m)
                for k, v in common.items():
                    dm[k] -= v
                q[tuple(sorted((k, v) for k, v in dm.items() if v))] = c
            f = {tuple(sorted(common.items())): Fraction(1)}
            return T("*", self.absp(f), self.absp(q))
        c = lead(p)
        q = tuple(sorted((m, v / c) for m, v in p.items()))
        return T("*", const_frac(abs(c)), T("absp", q))

    def sqrtx(self, e):
        n, d = self.rf(e)
        if not n:
            return const(0)
        n, d = self.canon(n, d)
        c = lead(n)
        f = Fraction(1)
        if c > 0 and isqrt(c.numerator) ** 2 == c.numerator and isqrt(c.denominator) ** 2 == c.denominator:
            f = Fraction(isqrt(c.numerator), isqrt(c.denominator))
            n = {m: v / c for m, v in n.items()}
        if len(n) == 1 and len(d) == 1:      # sqrt of a square of a non-negative atom
            (mn, cn), = n.items()
            (md, _), = d.items()
            if cn == 1 and all(e_ % 2 == 0 and (self.atoms[k] in self.positive or self.atoms[k].op in ("absp", "sqrtp")) for k, e_ in mn + md):
                up = [T("**", self.atoms[k], const(e_ // 2)) for k, e_ in mn]
                dn = [T("**", self.atoms[k], const(e_ // 2)) for k, e_ in md]
                return T("/", T("*", const_frac(f), *up), T("*", const(1), *dn))
        return T("*", const_frac(f), T("sqrtp", tuple(sorted(n.items())), tuple(sorted(d.items()))))

    def leaves_of(self, t):
        out = set()
        for y in walk(t):
            l = self.leaf_of(y)
            if l is not None:
                out.add(l)
        if t.op in ("absp", "sqrtp"):
            pass
        return out

    def leaf_ids(self, t, seen=None):
        """the data leaves an expression is made of (through poly keys)"""
        out = set()
        todo = [t]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            l = self.leaf_of(x)
            if l is not None:
                out.add(l)
            for y in walk(x):
                l = self.leaf_of(y)
                if l is not None:
                    out.add(l)
                if y.op in ("absp", "sqrtp", "sump"):
                    for p in y.args:
                        if isinstance(p, tuple):
                            for m, _ in p:
                                todo.extend(self.atoms[k] for k, _e in m)
        return out

    def size(self, t):
        ls = self.leaf_ids(t)
        if len(ls) != 1:
            raise AnalysisError(f"the size of {short(t)} is not understood")
        return T("size", const(next(iter(ls))))

    def sumx(self, t):
        if t.op in ("concat",):
            return T("+", *[self.sumx(x) for x in t.args]) if len(t.args) > 1 else self.sumx(t.args[0])
        ls = self.leaf_ids(t)
        if len(ls) > 1:
            raise AnalysisError(f"a sum over {short(t)} mixes leaves {sorted(ls)}")
        n, d = self.rf(t)
        n, d = self.canon(n, d)
        if not ls:
            raise AnalysisError(f"a sum over {short(t)}")
        leaf = next(iter(ls))
        if len(d) != 1 or lead(d) != 1 or next(iter(d)) != ():
            c = lead(n)
            return T("*", const_frac(c), T("sump", tuple(sorted((m, v / c) for m, v in n.items())), tuple(sorted(d.items()))))
        out = []
        for m, c in sorted(n.items()):
            if m == ():
                out.append(T("*", const_frac(c), T("size", const(leaf))))
            else:
                out.append(T("*", const_frac(c), T("sump", ((m, Fraction(1)),), (((), Fraction(1)),))))
        return T("+", *out) if len(out) > 1 else out[0]

    # ------------------------------------------------------------ normalise
    def norm(self, t):
        def f(x):
            if x.op == "attr" and x.args[1] == "size":
                if x.args[0].op == "concat":
                    return T("+", *[self.size(y) for y in x.args[0].args], const(0))
                return self.size(x.args[0])
            if x.op == "attr" and x.args[1] in ("real", "imag"):
                return self.part(x.args[1], x.args[0])
            if x.op == "+":
                return self.parts_sum(x)
            if x.op == "*" and len(x.args) >= 2:
                return self.conj_pairs(x)
            if x.op == "**" and x.args[1].op == "const" and x.args[1].args[0] == 0.5:
                return self.sqrtx(x.args[0])
            r = name_of(x)
            if r is None:
                return x
            nm, a, kw = r
            if nm in ("abs", "absolute", "fabs") and len(a) == 1 and not kw:
                return self.absx(a[0])
            if nm == "hypot" and len(a) == 2:
                return self.sqrtx(T("+", T("**", self.absx(a[0]), const(2)), T("**", self.absx(a[1]), const(2))))
            if nm == "sqrt" and len(a) == 1:
                return self.sqrtx(a[0])
            if nm == "rsqrt" and len(a) == 1:
                return T("/", const(1), self.sqrtx(a[0]))
            if nm in ("power", "float_power", "pow") and len(a) == 2 and a[1].op == "const":
                if a[1].args[0] == 0.5:
                    return self.sqrtx(a[0])
                return T("**", a[0], a[1])
            if nm == "square" and len(a) == 1:
                return T("**", a[0], const(2))
            if nm in ("conj", "conjugate") and len(a) == 1:
                return a[0] if self.isreal(a[0]) else T("conj", a[0])
            if nm in ("real", "imag") and len(a) == 1:
                return self.part(nm, a[0])
            if nm in ("ravel", "flatten", "asarray", "array", "float32", "float64", "float") and len(a) == 1:
                return a[0]
            if nm == "reshape" and len(a) == 2 and a[1].op == "const" and a[1].args[0] == -1:
                return a[0]
            if nm in ("concatenate", "hstack") and len(a) == 1 and not kw and a[0].op in ("tuple", "list"):
                return T("concat", *a[0].args)
            if nm == "astype":
                return a[0]
            if nm == "size" and len(a) == 1:
                return self.size(a[0])
            if nm in ("sum", "mean"):
                ax = kw.pop("axis", a[1] if len(a) > 1 else NONE)
                if ax is NONE and not kw and len(a) <= 2:
                    if nm == "sum":
                        if a[0].op in ("tuple", "list"):
                            return T("+", *a[0].args, const(0))
                        if not self.leaf_ids(a[0]):
                            return a[0]
                        return self.sumx(a[0])
                    if a[0].op == "concat":
                        return T("/", self.sumx(a[0]), T("+", *[self.size(y) for y in a[0].args], const(0)))
                    return T("/", self.sumx(a[0]), self.size(a[0]))
            return x
        return rewrite(t, f)

    def isreal(self, t):
        ok = {"absp", "sqrtp", "size", "re", "im", "const", "+", "*", "/", "**", "neg", "-"}
        return t in self.positive or t.op in ("absp", "sqrtp", "size", "re", "im") or (
            t.op == "const" and not isinstance(t.args[0], complex)) or (
            t.op in ok and all(self.isreal(y) for y in t.args))

    def part(self, w, e):
        if self.isreal(e):
            return e if w == "real" else const(0)
        if e.op == "mag2":
            return T("**", self.absx(e.args[0]), const(2)) if w == "real" else const(0)
        return T("re" if w == "real" else "im", e)

    def conj_pairs(self, x):
        xs = list(x.args)
        for i, a in enumerate(xs):
            if a.op == "conj":
                for j, b in enumerate(xs):
                    if j != i and (b is a.args[0]):
                        rest = [y for k, y in enumerate(xs) if k not in (i, j)]
                        return T("*", T("**", self.absx(b), const(2)), *rest) if rest else T("**", self.absx(b), const(2))
        return x

    def parts_sum(self, x):
        """re(e)**2 + im(e)**2 -> |e|**2"""
        def sqof(t, op):
            if t.op == "**" and t.args[1] is const(2) and t.args[0].op == op:
                return t.args[0].args[0]
            if t.op == "*" and len(t.args) == 2 and t.args[0] is t.args[1] and t.args[0].op == op:
                return t.args[0].args[0]
            return None
        xs = list(x.args)
        for i, a in enumerate(xs):
            e = sqof(a, "re")
            for j, b in enumerate(xs):
                if e is not None and sqof(b, "im") is e:
                    rest = [y for k, y in enumerate(xs) if k not in (i, j)]
                    r = T("**", self.absx(e), const(2))
                    return T("+", r, *rest) if rest else r
        return x

    def eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        n1, d1 = self.rf(a)
        n2, d2 = self.rf(b)
        if self.reduce(p_mul(n1, d2)) == self.reduce(p_mul(n2, d1)):
            return True
        bad = self.opaque_calls(a)
        if bad:
            raise AnalysisError(f"{short(bad[0])} is not modelled")
        return False

    def reduce(self, p):
        return p

    def opaque_calls(self, t, seen=None):
        out, todo, seen = [], [t], set()
        while todo:
            x = todo.pop()
            for y in walk(x):
                if y in seen:
                    continue
                seen.add(y)
                if y.op == "call" and self.leaf_of(y) is None:
                    out.append(y)
                if y.op in ("absp", "sqrtp", "sump"):
                    for p in y.args:
                        for m, _ in p:
                            todo.extend(self.atoms[k] for k, _e in m)
        return out
