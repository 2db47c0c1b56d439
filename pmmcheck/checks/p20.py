"""P20: the eigenvalue modules return the documented part of the spectrum.

Eigenvalues, Eigenvectors and Eigensystem are evaluated on Hermitian matrices
of unknown entries.  The result is an array of selections among the exact
eigenvalues (eigenvectors) of each matrix; it is decided for every order type
of the spectrum (every interleaving of magnitudes and signs)."""
from fractions import Fraction

from .ndutil import *

KINDS = ("SA", "LA", "SM", "LM", "EA", "EM", "IA", "IM")
RULES = {
    "selection": "the eigenvalues returned are the documented ones (smallest, largest, exterior or interior; algebraically or by magnitude), in ascending order, for every order type of the spectrum",
    "vectors": "the eigenvectors are returned as columns, in the order of the selected eigenvalues",
    "container": "every matrix in the data is treated on its own and stays at its place in the container",
    "accepts": "every documented option is accepted (upper or lower case) for matrices at least as large as the number of eigenvalues",
    "rejects": "an unknown option, a non-positive number, a non-square or too small matrix is rejected",
}


def spectra(n):
    """one spectrum (ascending) per order type of n distinct non-zero reals with distinct magnitudes"""
    for neg in itertools.product((False, True), repeat=n):
        yield sorted(-(i + 1) if s else i + 1 for i, s in enumerate(neg))


def admissible(n, k, which):
    """lists of positions in the sorted spectrum that count as the documented selection"""
    w = which[0]
    if k == n or w == "S":
        return [list(range(k))]
    if w == "L":
        return [list(range(n - k, n))]
    if w == "E":
        return [list(range(lo)) + list(range(n - (k - lo), n)) for lo in {k // 2, k - k // 2}]
    return [list(range(lo, lo + k)) for lo in {(n - k) // 2, (n - k + 1) // 2}]


ORDER_KEYS = {"ev"}


def orderly(p, evs):
    """every data-dependent choice in p compares +-e, |e| or powers of single eigenvalues: then the order type decides it"""
    def go(x):
        if isinstance(x, poly.Poly):
            return all(at(a) for a in x.atoms())
        return True

    def single(x):
        if len(x.m) != 1:
            return False
        ((k, c),) = x.m.items()
        return len(k) == 1 and c.im == 0 and (k[0][0].key[0] == "ev" or k[0][0].key[0] == "sqrt" and single(k[0][0].key[1]))

    def at(a):
        if a.key[0] == "rank":
            s = {str(sorted((e, str(c)) for k, c in x.m.items() for _, e in k)) for x in a.key[1]}
            return all(single(x) for x in a.key[1]) and len(s) == 1
        if a.key[0] == "pick":
            return all(go(x) for x in a.key[1]) and go(a.key[2])
        return a.key[0] in ("ev", "evec", "conj")
    return go(p)


def sizes(tier):
    return (1, 2, 3, 4, 5, 6, 7) if tier == "thorough" else (1, 2, 3, 4, 5, 6)


def SHAPES20():
    """(module, options, input shape) for the declared-shape check"""
    for cls in ("Eigenvalues", "Eigenvectors", "Eigensystem"):
        for k in (None, 1, 2):
            for w in ("SA", "EM", "IA", "LA"):
                for sh in (Shape(3, 3), [Shape(2, 2), Shape(3, 3)], {"b": Shape(2, 2), "a": (Shape(3, 3),)}):
                    if w == "SA" or isinstance(sh, Shape):
                        yield cls, {"num_eig": k, "which": w}, sh


def check_leaf(rep, tag, where, M, E, V, k, which):
    """M: (b,n,n) matrices; E: (b,k) eigenvalues or None; V: (b,n,k) or None"""
    nb, n = M.shape[:2]
    k = n if k is None else k
    es, vs = nd.eigh(M)
    for name, got, shape in (("eigenvalues", E, (nb, k)), ("eigenvectors", V, (nb, n, k))):
        if got is None:
            continue
        if isinstance(got, T):
            raise AnalysisError(f"value {short(got)} not understood")
        if not isinstance(got, NDA) or got.shape != shape:
            rep.ob("selection" if name == "eigenvalues" else "vectors", tag, False, f"the {name} have the form {struct(got)}, expected array{list(shape)}", where)
            return
    cases = list(spectra(n))
    for b in range(nb):
        evs = [es.at((b, i)).atom() for i in range(n)]
        vec = {vs.at((b, r, c)): (r, c) for r in range(n) for c in range(n)}
        for sp in cases:
            env = dict(zip(evs, sp))
            order = sorted(range(n), key=(lambda i: sp[i]) if which[1] == "A" else (lambda i: abs(sp[i])))
            good = [[order[j] for j in w] for w in admissible(n, k, which)]
            pos = None
            if E is not None:
                vals = [poly.resolve(E.at((b, j)), env) for j in range(k)]
                for v, j in zip(vals, range(k)):
                    if v.rat() is None and odd_atoms(v):
                        raise AnalysisError(f"eigenvalue {v.show()[:100]} not understood")
                pos = [sp.index(v.rat()) if v.rat() in sp else None for v in vals]
                if pos not in good:
                    rep.ob("selection", tag, False, f"for a matrix with eigenvalues {sp} the module returns {[v.show()[:60] for v in vals]}; documented: {[sp[i] for i in good[0]]}", where)
                    return
            if V is not None:
                cols = []
                for j in range(k):
                    col = [poly.resolve(V.at((b, r, j)), env) for r in range(n)]
                    hit = [vec.get(v) for v in col]
                    if any(h is None for h in hit):
                        if any(odd_atoms(v) for v in col):
                            raise AnalysisError(f"eigenvector {col[0].show()[:100]} not understood")
                        rep.ob("vectors", tag, False, f"for eigenvalues {sp}: column {j} is {[v.show()[:40] for v in col]}, no eigenvector of the matrix", where)
                        return
                    if [h[0] for h in hit] != list(range(n)) or len({h[1] for h in hit}) != 1:
                        rep.ob("vectors", tag, False, f"for eigenvalues {sp}: column {j} mixes components {hit} (row, vector) of the eigenvectors", where)
                        return
                    cols.append(hit[0][1])
                if cols not in good or pos is not None and cols != pos:
                    rep.ob("vectors", tag, False, f"for eigenvalues {sp} the columns belong to the eigenvalues {[sp[c] for c in cols]}; documented: {[sp[i] for i in (good[0] if pos is None else pos)]}", where)
                    return
        for got in (E, V):
            if got is not None and not all(orderly(x, evs) for x in got.v):
                raise AnalysisError("the selection compares more than the order of the eigenvalues")
    if E is not None:
        rep.ob("selection", tag, True, "", where)
    if V is not None:
        rep.ob("vectors", tag, True, "", where)


def outputs(cls, got, data):
    """[(matrix, eigenvalues, eigenvectors)] or None when the container differs"""
    if cls == "Eigenvalues":
        return [(m, e, None) for m, e in zip(leaves(data), leaves(got))] if same_tree(data, got) else None
    if cls == "Eigenvectors":
        return [(m, None, v) for m, v in zip(leaves(data), leaves(got))] if same_tree(data, got) else None
    if not isinstance(got, dict) or set(got) != {"eigenvalues", "eigenvectors"} or not all(same_tree(data, got[x]) for x in got):
        return None
    return list(zip(leaves(data), leaves(got["eigenvalues"]), leaves(got["eigenvectors"])))


def one(prog, rep, tag, cls, k, which, data, shape, dflt=False):
    where = f"modules/{cls.lower()}.py"
    try:
        kw = {}
        if not dflt:
            kw = dict(num_eig=k, which=which)
        m = Mod(prog, cls, **kw)
        m.compile(shape)
        got, st, pre = m.forward((), data)
        outs = outputs(cls, got, data)
        if outs is None and not plain(got):
            raise AnalysisError(f"result {struct(got)} not understood")
        rep.ob("container", tag, outs is not None and st is pre, f"data {struct(data)} gives {struct(got)}" if outs is None else "the state changes", where)
        rep.ob("accepts", tag, True, "", where)
        for i, (M, E, V) in enumerate(outs or []):
            check_leaf(rep, tag, where, M, E, V, k, which.upper())
        rep.saw(m.I)
    except Raised as e:
        rep.ob("accepts", tag, False, str(e), where)


def run(prog, rep):
    for r, t in RULES.items():
        rep.rule(r, t, 1)
    names = {c.name for c in concrete_modules(prog)}
    for cls in ("Eigenvalues", "Eigenvectors", "Eigensystem"):
        if cls not in names:
            continue
        for which in KINDS:
            for n in sizes(rep.tier):
                for k in list(range(1, n + 1)) + [None]:
                    tag = f"{cls}(num_eig={k}, which={which!r}) of a {n}x{n} matrix"
                    with rep.unit(tag):
                        dt = ("complex64", "float32")[(n + (k or 0)) % 2]
                        w = which if n % 2 else which.lower()
                        one(prog, rep, tag, cls, k, w, hermitian("M", (2 if n < 3 else 1, n, n), dt), Shape(n, n))
            tag = f"{cls}(num_eig=2, which={which!r}) of a tree of matrices"
            for j, mk in enumerate((lambda f: {"a": f(2), "b": f(3)}, lambda f: [f(3), {"z": f(2)}], lambda f: (f(4), [f(2), f(3)]))):
                for k in (2, None):
                    with rep.unit(tag + f" {j} {k}"):
                        one(prog, rep, f"{tag} ({j}, num_eig={k})", cls, k, which, mk(lambda n: hermitian(f"M{n}", (1, n, n))), mk(lambda n: Shape(n, n)))
        with rep.unit(cls + " defaults"):
            one(prog, rep, f"{cls}() (smallest eigenvalue) of a 3x3 matrix", cls, 1, "SA", hermitian("M", (2, 3, 3)), Shape(3, 3), True)
        for what, kw, shape in (("which='XA'", dict(which="XA"), None), ("which='SB'", dict(which="SB"), None), ("which=''", dict(which=""), None), ("num_eig=0", dict(num_eig=0), None), ("num_eig=-1", dict(num_eig=-1), None),
                                ("num_eig=3 of a 2x2 matrix", dict(num_eig=3), Shape(2, 2)), ("a 2x3 matrix", dict(num_eig=1), Shape(2, 3)),
                                ("a vector", dict(num_eig=1), Shape(3)), ("a 3x3 and a 2x2 matrix for num_eig=3", dict(num_eig=3), {"a": Shape(3, 3), "b": Shape(2, 2)})):
            with rep.unit(f"{cls} rejects {what}"):
                rejects(prog, rep, f"{cls}: {what}", cls, kw, shape)


def rejects(prog, rep, tag, cls, kw, shape):
    where = f"modules/{cls.lower()}.py"
    try:
        m = Mod(prog, cls, **kw)
        if shape is not None:
            m.compile(shape)
        m.open()
    except Raised:
        rep.ob("rejects", tag, True, "", where)
        return
    rep.ob("rejects", tag, False, "is accepted", where)
