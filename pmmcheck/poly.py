"""Exact scalar values: polynomials with Gaussian-rational coefficients over
interned atoms (array entries, eigenvalues, opaque functions of other values).

Two values are the same object of this domain exactly when their normal forms
agree, so comparing a computed entry with a documented formula is a syntactic
test.  Atoms carry the algebraic facts used: complex conjugate, a rule for the
square (|p|^2 = p conj(p), sqrt(p)^2 = p, an indicator is idempotent)."""
from fractions import Fraction


class Atom:
    __slots__ = ("key", "id", "conj", "sq", "real", "pos")
    table = {}
    allatoms = []

    def __new__(cls, key, real=True, sq=None, pos=False):
        a = cls.table.get(key)
        if a is not None:
            return a
        a = object.__new__(cls)
        a.key, a.id, a.real, a.sq, a.pos = key, len(cls.allatoms), real, sq, pos
        a.conj = a if real else None
        cls.table[key] = a
        cls.allatoms.append(a)
        return a

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return showkey(self.key)


def showkey(k, depth=0):
    if isinstance(k, Poly):
        return k.show(depth + 1)
    if isinstance(k, tuple):
        if depth > 2:
            return "…"
        if k and k[0] == "var":
            return k[1] + ("[" + ",".join(map(str, k[2])) + "]" if k[2] else "")
        if k and k[0] == "conj":
            return "conj(" + showkey(k[1], depth + 1) + ")"
        if k and isinstance(k[0], str):
            s = ",".join(showkey(x, depth + 1) for x in k[1:])
            return k[0] + "(" + (s if len(s) < 60 else s[:57] + "...") + ")"
        s = ",".join(showkey(x, depth + 1) for x in k)
        return "(" + (s if len(s) < 60 else s[:57] + "...") + ")"
    if isinstance(k, Atom):
        return showkey(k.key, depth)
    return str(k)


def conj_atom(a):
    if a.conj is None:
        k = a.key
        if k[0] == "pick":
            p = pick([x.conj() for x in k[1]], k[2])
            (m, c), = p.m.items()
            b = m[0][0] if len(m) == 1 and c == 1 else Atom(("conj", a), real=False)
        else:
            b = Atom(("conj", a), real=False)
        a.conj = b
        if b.conj is None:
            b.conj = a
    return a.conj


class C:
    """Gaussian rational"""
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re, self.im = re, im

    def __eq__(self, o):
        if isinstance(o, C):
            return self.re == o.re and self.im == o.im
        return self.im == 0 and self.re == o

    def __hash__(self):
        return hash(self.re) if self.im == 0 else hash((self.re, self.im))

    def __add__(self, o):
        return C(self.re + o.re, self.im + o.im)

    def __neg__(self):
        return C(-self.re, -self.im)

    def __mul__(self, o):
        if self.im == 0 and o.im == 0:
            return C(self.re * o.re)
        return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    def inv(self):
        d = self.re * self.re + self.im * self.im
        return C(Fraction(self.re) / d, -Fraction(self.im) / d)

    def zero(self):
        return self.re == 0 and self.im == 0

    def __repr__(self):
        if self.im == 0:
            return str(self.re)
        return f"({self.re}{'+' if self.im >= 0 else ''}{self.im}i)"


ONE = C(1)


class Poly:
    __slots__ = ("m", "h")

    def __init__(self, m):
        self.m = m
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.m.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __add__(self, o):
        o = P(o)
        if len(o.m) > len(self.m):
            self, o = o, self
        m = dict(self.m)
        for k, c in o.m.items():
            d = m.get(k)
            c = c if d is None else d + c
            if c.zero():
                del m[k]
            else:
                m[k] = c
        return Poly(m)

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __mul__(self, o):
        o = P(o)
        if not self.m or not o.m:
            return ZERO
        if len(self.m) == 1 and () in self.m:
            c0 = self.m[()]
            return o if c0 == 1 else Poly({k: c0 * c for k, c in o.m.items()})
        if len(o.m) == 1 and () in o.m:
            return o * self
        m = {}
        extra = []
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k, sqs = mono(k1, k2)
                c = c1 * c2
                if sqs:
                    p = Poly({k: c})
                    for s in sqs:
                        p = p * s
                    extra.append(p)
                    continue
                d = m.get(k)
                c = c if d is None else d + c
                if c.zero():
                    del m[k]
                else:
                    m[k] = c
        r = Poly(m)
        for p in extra:
            r = r + p
        return r

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return P(o) - self

    def __pow__(self, n):
        r = one
        for _ in range(n):
            r = r * self
        return r

    def conj(self):
        m = {}
        for k, c in self.m.items():
            kk = tuple(sorted(((a if a.real else conj_atom(a)), e) for a, e in k))
            m[kk] = C(c.re, -c.im)
        return Poly(m)

    def isreal(self):
        return self.conj() == self

    def real(self):
        return (self + self.conj()) * HALF

    def imag(self):
        return (self - self.conj()) * P(C(0, Fraction(-1, 2)))

    def const(self):
        """the constant value (C) or None"""
        if not self.m:
            return C(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def rat(self):
        c = self.const()
        return c.re if c is not None and c.im == 0 else None

    def atom(self):
        if len(self.m) == 1:
            (k, c), = self.m.items()
            if len(k) == 1 and k[0][1] == 1 and c == 1:
                return k[0][0]
        return None

    def atoms(self):
        return {a for k in self.m for a, e in k}

    def lead(self):
        """sign-normalising coefficient"""
        k = min(self.m, key=lambda k: (len(k), [(a.id, e) for a, e in k]))
        return self.m[k]

    def inv(self):
        c = self.const()
        if c is not None:
            if c.zero():
                raise ZeroDivisionError
            return P(c.inv())
        if len(self.m) == 1:
            (k, c), = self.m.items()
            r = P(c.inv())
            for a, e in k:
                for _ in range(e):
                    r = r * inv_atom(P(a))
            return r
        c = self.lead()
        return inv_atom(self * P(c.inv())) * P(c.inv())

    def show(self, depth=0):
        if not self.m:
            return "0"
        out = []
        for k in sorted(self.m, key=lambda k: [(a.id, e) for a, e in k]):
            c = self.m[k]
            s = "*".join(showkey(a.key, depth) + (f"^{e}" if e > 1 else "") for a, e in k)
            out.append(s if c == 1 and s else f"{c}" + (f"*{s}" if s else ""))
            if len(out) == 4 and len(self.m) > 4:
                out.append(f"… ({len(self.m)} terms)")
                break
        return " + ".join(out)

    __repr__ = show


def mono(k1, k2):
    """product of two monomials; atoms with a square rule are returned apart"""
    if not k1:
        return k2, ()
    if not k2:
        return k1, ()
    d = dict(k1)
    for a, e in k2:
        d[a] = d.get(a, 0) + e
    sqs = []
    for a in list(d):
        if a.sq is not None and d[a] >= 2:
            sqs += [a.sq] * (d[a] // 2)
            if d[a] % 2:
                d[a] = 1
            else:
                del d[a]
        elif a.key[0] == "inv" and a.key[1].atom() in d:
            b = a.key[1].atom()
            n = min(d[a], d[b])
            for x in (a, b):
                d[x] -= n
                if not d[x]:
                    del d[x]
    return tuple(sorted(d.items(), key=lambda x: x[0].id)), sqs


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): ONE})
    if isinstance(x, C):
        return Poly({(): x}) if not x.zero() else ZERO
    if isinstance(x, bool):
        return one if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly({(): C(x)}) if x else ZERO
    if isinstance(x, float):
        f = Fraction(x).limit_denominator(10**9)
        if float(f) != x:
            f = Fraction(x)
        return P(f if f.denominator != 1 else f.numerator)
    if isinstance(x, complex):
        a, b = P(x.real).rat(), P(x.imag).rat()
        return P(C(a, b))
    raise TypeError(type(x))


ZERO = Poly({})
one = Poly({(): ONE})
HALF = Poly({(): C(Fraction(1, 2))})
IM = Poly({(): C(0, 1)})


def var(name, idx=(), real=True):
    return P(Atom(("var", name, idx, real), real=real))


def inv_atom(p):
    return P(Atom(("inv", p), real=p.isreal()))


def absv(p):
    c = p.const()
    if c is not None and c.im == 0:
        return P(abs(c.re))
    a = p.atom()
    if a is not None and a.pos:
        return p
    if p.isreal() and p.lead().re < 0:
        p = -p
    s = p * p.conj()
    if len(p.m) == 1:
        (k, c), = p.m.items()
        if c.im == 0 and c != 1:
            return P(abs(c.re)) * absv(Poly({k: ONE}))
    return P(Atom(("sqrt", s), sq=s, pos=True))


def nonneg(p):
    """p is a sum of squares |q|^2 of single monomials with positive weight"""
    for k, c in p.m.items():
        if c.im != 0 or c.re < 0:
            return False
        d = dict(k)
        for a, e in k:
            if a.pos or a.real and e % 2 == 0:
                continue
            if a.real or d.get(conj_atom(a)) != e:
                return False
    return True


def sqrtv(p):
    c = p.rat()
    if c is not None and c >= 0:
        import math
        f = Fraction(c)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return P(Fraction(n, d) if d != 1 else n)
    return P(Atom(("sqrt", p), sq=p, pos=True, real=p.isreal()))


def maxv(xs, low=False):
    """maximum (or minimum) of a non-empty list"""
    xs = list(dict.fromkeys(xs))
    if len(xs) == 1:
        return xs[0]
    cs = [x.rat() for x in xs]
    if all(c is not None for c in cs):
        return P(min(cs) if low else max(cs))
    ev = ascending(xs)
    if ev:
        return xs[0] if low else xs[-1]
    key = tuple(sorted(xs, key=lambda p: sorted((tuple((a.id, e) for a, e in k), str(c)) for k, c in p.m.items())))
    sq = None
    pos = all(x.atom() is not None and x.atom().pos for x in xs)
    if pos:
        sq = maxv([x * x for x in xs], low)
    return P(Atom(("min" if low else "max",) + key, sq=sq, pos=pos or all(nonneg(x) for x in xs)))


def ascending(xs):
    """the entries are known to be in ascending order (strictly increasing
    positions of one eigenvalue list, or constants)"""
    cs = [x.rat() for x in xs]
    if all(c is not None for c in cs):
        return all(a <= b for a, b in zip(cs, cs[1:]))
    ats = [x.atom() for x in xs]
    if any(a is None or a.key[0] != "ev" for a in ats):
        return False
    return len({a.key[1] for a in ats}) == 1 and all(a.key[2] < b.key[2] for a, b in zip(ats, ats[1:]))


def argsort(xs):
    """positions (Poly each) sorting xs in ascending order"""
    n = len(xs)
    cs = [x.rat() for x in xs]
    if all(c is not None for c in cs):
        return [P(i) for i in sorted(range(n), key=lambda i: cs[i])]
    if ascending(xs):
        return [P(i) for i in range(n)]
    if ascending([-x for x in xs][::-1]):
        return [P(i) for i in range(n - 1, -1, -1)]
    for p in (range(n), range(n - 1, -1, -1)):
        pass
    # known permutations of one eigenvalue list
    ats = [x.atom() for x in xs]
    if all(a is not None and a.key[0] == "ev" for a in ats) and len({a.key[1] for a in ats}) == 1:
        return [P(i) for i in sorted(range(n), key=lambda i: ats[i].key[2])]
    if all((x.atom() is not None and x.atom().pos and x.atom().sq is not None) for x in xs):
        return argsort([x * x for x in xs])
    if all(x.m and x.lead().re < 0 for x in xs):
        return argsort([-x for x in xs])[::-1]
    key = tuple(xs)
    return [P(Atom(("rank", key, i))) for i in range(n)]


def pick(xs, i):
    """xs[i] for a position that depends on the data"""
    c = i.rat() if isinstance(i, Poly) else None
    if c is not None:
        return xs[int(c)]
    if len(set(xs)) == 1:
        return xs[0]
    return P(Atom(("pick", tuple(xs), i), real=all(x.isreal() for x in xs)))


def indicator(op, p):
    """1 when p op 0, else 0 (op in >=, >, ==)"""
    c = p.rat()
    if c is not None:
        return P({">=": c >= 0, ">": c > 0, "==": c == 0}[op])
    if op == "==":
        if p.lead().re < 0:
            p = -p
        a = Atom(("ind", op, p))
    else:
        s = p.lead()
        if s.re < 0:  # -q >= 0  <=>  not q > 0
            return one - indicator(">" if op == ">=" else ">=", -p)
        p = p * P(C(Fraction(1) / abs(s.re)))
        a = Atom(("ind", op, p), pos=True)
    if a.sq is None:
        a.sq = P(a)
    return P(a)


def choose(c, a, b):
    """a where the 0/1 value c holds, else b"""
    k = c.rat()
    if k is not None:
        return a if k else b
    at = c.atom()
    d = a - b
    if at is None:
        q = (one - c).atom()
        if q is not None:
            return choose(P(q), b, a)
    if at is not None and at.key[0] == "ind" and at.key[1] == ">":
        x = at.key[2]
        y = x.atom()
        if y is not None and all(any(z is y for z, _ in k) for k in d.m):
            return b + indicator(">=", x) * d
    return b + c * d


def func(name, *args, real=True):
    return P(Atom(("f", name) + args, real=real))


def resolve(p, env, memo=None):
    """value of p when the atoms in env (Atom -> rational) are known: data
    dependent choices (ranks, picks, maxima, indicators, roots) are decided"""
    memo = {} if memo is None else memo

    def go(x):
        r = ZERO
        for k, c in x.m.items():
            t = Poly({(): c})
            for a, e in k:
                t = t * at(a) ** e
            r = r + t
        return r

    def at(a):
        if a in memo:
            return memo[a]
        if a in env:
            r = P(env[a])
        else:
            k = a.key
            if k[0] == "sqrt":
                r = sqrtv(go(k[1]))
            elif k[0] == "rank":
                r = argsort([go(x) for x in k[1]])[k[2]]
            elif k[0] == "pick":
                i = go(k[2])
                r = go(k[1][int(i.rat())]) if i.rat() is not None else pick([go(x) for x in k[1]], i)
            elif k[0] in ("max", "min"):
                r = maxv([go(x) for x in k[1:]], k[0] == "min")
            elif k[0] == "ind":
                r = indicator(k[1], go(k[2]))
            elif k[0] == "inv":
                r = go(k[1]).inv()
            elif k[0] == "conj":
                r = P(a)
            else:
                r = P(a)
        memo[a] = r
        return r
    return go(p)
