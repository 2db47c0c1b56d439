"""Case splitting over gate conditions and a normal form for rational
arithmetic.  Purely syntactic: no solver, no numeric evaluation."""
from __future__ import annotations

from fractions import Fraction

from ..terms import FALSE, T, TRUE, children, conj, const, disj, item, ite, neg, walk
from .common import AnalysisError, assume, rewrite

WHERE = {"jax.numpy.where", "numpy.where", "jax.lax.select"}


def where2ite(t):
    def f(x):
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in WHERE and len(x.args[1]) == 3:
            return ite(*x.args[1])
        return x
    return rewrite(t, f)


def bool_atoms(c, out):
    if c.op == "not":
        bool_atoms(c.args[0], out)
    elif c.op in ("and", "or"):
        for x in c.args:
            bool_atoms(x, out)
    elif c.op == "ite":
        for x in c.args:
            bool_atoms(x, out)
    elif c.op != "const":
        if c not in out:
            out.append(c)


def first_atom(t, skip):
    """an ite-free boolean atom controlling some gate of t"""
    for x in walk(t):
        if x.op == "ite":
            out = []
            bool_atoms(x.args[0], out)
            for a in out:
                if a in skip:
                    continue
                if not any(y.op == "ite" for y in walk(a)):
                    return a
    return None


def cases(t, limit=4096, given=None):
    """-> list of (assignment dict, ite-free term)"""
    out = []

    def go(t, asg):
        if len(out) > limit:
            raise AnalysisError("too many cases")
        a = first_atom(t, asg)
        if a is None:
            out.append((asg, t))
            return
        for v in (True, False):
            if given is not None:
                g = given(a)
                if g is not None and g != v:
                    continue
            t2 = assume(t, lambda x, a=a, v=v: v if x is a else None)
            go(t2, {**asg, a: v})
    go(t, {})
    return out


# ------------------------------------------------------------- polynomials
def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


IKEY = -1     # the imaginary unit


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for k, e in m2:
                d[k] = d.get(k, 0) + e
            if d.get(IKEY, 0) >= 2:          # i * i = -1
                c2 = c2 * (-1) ** (d[IKEY] // 2)
                d[IKEY] %= 2
            m = tuple(sorted((k, e) for k, e in d.items() if e))
            r[m] = r.get(m, 0) + c1 * c2
            if not r[m]:
                del r[m]
    return r


def simplify(n, d):
    """cancel common monomial factors"""
    if not n or not d:
        return n, d
    common = None
    for p in (n, d):
        for m in p:
            dm = dict(m)
            common = dm if common is None else {k: min(e, dm[k]) for k, e in common.items() if k in dm and min(e, dm[k]) > 0}
            if not common:
                return n, d
    def div(p):
        r = {}
        for m, c in p.items():
            dm = dict(m)
            for k, e in common.items():
                dm[k] -= e
            r[tuple(sorted((k, e) for k, e in dm.items() if e))] = c
        return r
    return div(n), div(d)


EXTARITH = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "negative": "neg", "square": "sq",
            "reciprocal": "inv", "power": "**", "float_power": "**"}


def ratfun(t, atom=None):
    """rational normal form (num, den) of an ite-free term; non-arithmetic
    sub-terms are atoms (indexed by the hash-consed term id)"""
    memo = {}

    def at(x):
        return {((x.sid, 1),): Fraction(1)}, p_const(1)

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = simplify(*go1(x))
        return r

    def power(b, e):
        (n, d) = go(b)
        rn, rd = p_const(1), p_const(1)
        for _ in range(abs(e)):
            rn, rd = p_mul(rn, n), p_mul(rd, d)
        return (rn, rd) if e >= 0 else (rd, rn)

    def go1(x):
        if atom is not None:
            y = atom(x)
            if y is not None:
                return at(y)
        op = x.op
        if op == "const":
            v = x.args[0]
            if isinstance(v, bool):
                return p_const(int(v)), p_const(1)
            if isinstance(v, int):
                return p_const(v), p_const(1)
            if isinstance(v, float) and v == v and abs(v) != float("inf"):
                return p_const(Fraction(v)), p_const(1)
            if isinstance(v, complex):
                n = p_const(Fraction(v.real))
                if v.imag:
                    n = p_add(n, {((IKEY, 1),): Fraction(v.imag)})
                return n, p_const(1)
            return at(x)
        name = None
        a = x.args
        if op == "call" and a[0].op == "ext" and a[0].args[0].startswith(("jax.numpy.", "numpy.", "jax.lax.", "operator.")) and not a[2]:
            name = EXTARITH.get(a[0].args[0].rsplit(".", 1)[1])
            a = a[1]
        elif op in ("+", "*", "/", "**", "neg", "-"):
            name = op
        if name == "+":
            n, d = go(a[0])
            for y in a[1:]:
                n2, d2 = go(y)
                if d == d2:
                    n = p_add(n, n2)
                else:
                    n, d = p_add(p_mul(n, d2), p_mul(n2, d)), p_mul(d, d2)
            return n, d
        if name == "-" and len(a) == 2:
            n, d = go(a[0])
            n2, d2 = go(a[1])
            return p_add(p_mul(n, d2), p_mul(n2, d), -1), p_mul(d, d2)
        if name == "neg":
            n, d = go(a[0])
            return {m: -c for m, c in n.items()}, d
        if name == "*":
            n, d = p_const(1), p_const(1)
            for y in a:
                n2, d2 = go(y)
                n, d = p_mul(n, n2), p_mul(d, d2)
            return n, d
        if name == "/" and len(a) == 2:
            n, d = go(a[0])
            n2, d2 = go(a[1])
            if not n2:
                return at(x)
            return p_mul(n, d2), p_mul(d, n2)
        if name == "sq":
            return power(a[0], 2)
        if name == "inv":
            n, d = go(a[0])
            return d, n
        if name == "**" and len(a) == 2 and a[1].op == "const" and isinstance(a[1].args[0], (int, float)) and float(a[1].args[0]).is_integer() and abs(a[1].args[0]) <= 6:
            return power(a[0], int(a[1].args[0]))
        return at(x)
    return go(t)


def rat_eq(a, b, atom=None):
    n1, d1 = ratfun(a, atom)
    n2, d2 = ratfun(b, atom)
    return p_mul(n1, d2) == p_mul(n2, d1)


def equal_by_cases(a, b, atom=None, given=None):
    """a and b have the same rational normal form under every assignment of
    the gate conditions -> (bool, failing case)"""
    both = T("tuple", where2ite(a), where2ite(b))
    n = 0
    for asg, t in cases(both, given=given):
        n += 1
        x, y = t.args
        if x is y:
            continue
        if not rat_eq(x, y, atom):
            return False, asg, x, y
    return True, None, n, None


RED = {"mean", "std", "median", "min", "max", "sum", "amin", "amax", "var", "ptp", "quantile", "prod", "all", "any"}


def red_norm(t):
    """canonical reductions: np.mean(x, axis=0) / np.mean(x, 0) / x.mean(axis=0) -> red(name, x, axis, rest)"""
    def f(x):
        if x.op != "call":
            return x
        fn, a, kw = x.args
        kw = dict(kw)
        name = None
        if fn.op == "ext" and fn.args[0].startswith(("jax.numpy.", "numpy.")):
            name = fn.args[0].rsplit(".", 1)[1]
        elif fn.op == "attr" and fn.args[1] in RED:
            name = fn.args[1]
            a = (fn.args[0],) + a
        if name not in RED or not a:
            return x
        a = list(a)
        name = {"amin": "min", "amax": "max"}.get(name, name)
        q = None
        if name == "quantile":
            q = kw.pop("q", None) or (a.pop(1) if len(a) > 1 else None)
        ax = kw.pop("axis", None) or (a.pop(1) if len(a) > 1 else const(None))
        kw = {k: v for k, v in kw.items() if not (k == "keepdims" and v is FALSE)}
        return T("red", name, a[0], ax, q if q is not None else const(None), tuple(sorted(kw.items())))
    return rewrite(t, f)


def red(name, x, axis=0, q=None):
    return T("red", name, x, const(axis), q if q is not None else const(None), ())
