"""P19: parameters given by the user are the ones used.

Modules are constructed with given parameter values (arrays of unknown
entries) and compiled; and modules compiled with random parameters get new
values and are compiled again with another key.  In both cases the parameters
read back, and the ones the forward function of the module is documented to
use, are the given values."""
from .ndutil import *
from . import p13
from .p14 import HOOKS
from .p17 import show

RULES = {
    "given": "parameters given to the constructor are, entry by entry, the parameters of the compiled module",
    "kept": "parameters set on a compiled module are read back and survive a further compilation for the same input shape with another key",
    "before": "parameters set on a module that is not compiled yet are its parameters after compilation with any key",
    "fixed": "every entry of the value given for a module that is not trainable enters its output",
    "mismatch": "given parameters whose shape contradicts the other options or the input shape are refused when constructing or compiling the module",
    "accepts": "a documented option and input shape is accepted",
}
S = Shape


def herm(name, *shape):
    return hermitian(name, shape)


def given(tier):
    """(class, keywords, shape, expected parameters)"""
    for p in (1, 2, 3):
        for n in (1, 2, 3):
            for bt in (True, False):
                M = herm("M", p + bt, n, n)
                for kw in ({}, dict(matrix_size=n)):
                    yield "AffineHermitianMatrix", dict(kw, Ms=M, bias_term=bt, smoothing=0.5), S(p), M
                yield "AffineEigenvaluePMM", dict(matrix_size=n, Ms=M, bias_term=bt), S(p), [M]
        for ts in ((), (2,), (2, 3)):
            for bt in (True, False):
                for dt in ("float32", "complex64"):
                    M = fresh("M", (p + bt,) + ts, dt)
                    for kw in ({}, dict(tensor_shape=S(*ts))):
                        yield "AffineTensor", dict(kw, Ms=M, bias_term=bt, real=dt == "float32"), S(p), M
    for cls in ("ExpectationValueSum", "TransitionAmplitudeSum"):
        for q, l, n, r in ((1, 1, 2, 1), (2, 1, 2, 2), (1, 2, 3, 1), (2, 3, 1, 1)):
            for c in (True, False):
                D = herm("D", q, l, n, n)
                for kw in ({}, dict(num_observables=l, output_size=q)):
                    yield cls, dict(kw, Ds=D, centered=c), S(n, r), D
    for dt in ("float32", "complex64"):
        real = dt == "float32"
        for sh in ((), (2,), (2, 2)):
            B = fresh("B", sh, dt)
            yield "Bias", dict(bias=B, real=real), S(*sh), B
            yield "Constant", dict(constant=B, trainable=True), S(3), B
            yield "Constant", dict(constant=B), S(3), None
            yield "Bias", dict(bias=B, real=real, trainable=False), S(*sh), None
        T2 = {"b": fresh("B", (2,), dt), "a": [fresh("C", (1, 2), dt), fresh("D", (2,), dt)]}
        sh = {"b": S(2), "a": [S(1, 2), S(2)]}
        yield "Bias", dict(bias=T2, real=real), sh, T2
        yield "Constant", dict(constant=T2, trainable=True), S(1), T2
        W, V = fresh("W", (3, 2), dt), fresh("V", (2, 2), dt)
        for tr in (True, False):
            q = W if tr else None
            yield "Einsum", dict(einsum_str="ij,j->i", params=W, trainable=tr, real=real), S(2), q
            yield "Einsum", dict(einsum_str=("ij,jk", "k", "i"), params=(W, V), trainable=tr, real=real), S(2), (W, V) if tr else None
            yield "MatMul", dict(params=W, trainable=tr, real=real), S(2), q
            yield "MatMul", dict(params=W, output_shape=S(3, 2), trainable=tr, real=real), S(2, 2), q
    mixed = [fresh("B", (2,), "complex64"), fresh("C", (1, 2), "float32")]
    yield "Bias", dict(bias=mixed, real=False), [S(2), S(1, 2)], mixed
    yield "Bias", dict(bias=mixed[::-1], real=False), [S(1, 2), S(2)], mixed[::-1]
    yield "Constant", dict(constant=mixed, trainable=True), S(1), mixed
    for bt in (True, False):
        for ev in (True, False):
            for p, n, q, l in ((1, 2, 1, 1), (2, 2, 2, 2), (2, 1, 3, 1)):
                M, D, b = herm("M", p + 1, n, n), herm("D", q, l, n, n), fresh("b", (q,), "float32")
                yield "AffineObservablePMM", dict(matrix_size=n, num_eig=1, num_secondaries=l, output_size=q, bias_term=bt, use_expectation_values=ev, Ms=M, Ds=D, **(dict(b=b) if bt else {})), S(p), [M, D] + ([b] if bt else [])


def mismatched(tier):
    M = herm("M", 3, 2, 2)
    yield "AffineHermitianMatrix", dict(Ms=M), S(1)
    yield "AffineHermitianMatrix", dict(Ms=M, matrix_size=3), S(2)
    yield "AffineHermitianMatrix", dict(Ms=M, bias_term=False), S(2)
    yield "AffineTensor", dict(Ms=fresh("M", (3, 2)), tensor_shape=S(2)), S(1)
    yield "AffineTensor", dict(Ms=fresh("M", (3, 2)), tensor_shape=S(3)), S(2)
    yield "AffineTensor", dict(Ms=fresh("M", (3, 2)), bias_term=False), S(2)
    for cls in ("ExpectationValueSum", "TransitionAmplitudeSum"):
        D = herm("D", 2, 1, 2, 2)
        yield cls, dict(Ds=D, num_observables=2), S(2, 1)
        yield cls, dict(Ds=D, output_size=1), S(2, 1)
        yield cls, dict(Ds=D), S(3, 1)
    yield "Bias", dict(bias=fresh("B", (2,))), S(3)
    yield "Bias", dict(bias=fresh("B", (2, 2))), S(2)
    yield "Einsum", dict(einsum_str="ij,j->i", params=fresh("W", (3, 2))), S(3)
    yield "MatMul", dict(params=fresh("W", (3, 2))), S(3)
    yield "MatMul", dict(params=fresh("W", (3, 2)), output_shape=S(2, 2)), S(2, 2)


def others(shape):
    """input shapes that differ from shape in one dimension of every leaf"""
    ls = [s for s in leaves(shape) if isinstance(s, Shape)]
    for k in range(max((len(s.d) for s in ls), default=0)):
        yield tmap(lambda s: S(*[d + (i == k) for i, d in enumerate(s.d)]) if isinstance(s, Shape) else s, shape)


def same(a, b):
    """the same arrays in the same order (containers are not compared: a model reports one entry per module)"""
    a, b = leaves(a), leaves(b)
    return len(a) == len(b) and all(isinstance(x, NDA) and isinstance(y, NDA) and x.shape == y.shape and all(v == w for v, w in zip(x.v, y.v)) for x, y in zip(a, b))


def understood(p):
    for x in leaves(p):
        if not isinstance(x, NDA):
            raise AnalysisError(f"parameters {struct(p)} not understood")
        for v in x.v:
            if odd_atoms(v):
                raise AnalysisError(f"parameter entry {v.show()[:100]} uses a function without a model")


def tagof(cls, args, kw, shape):
    return f"{cls}({', '.join([show(a) for a in args] + [f'{k}={show(v)}' for k, v in kw.items()])}) on {show(shape)}"


def brief(p):
    xs = leaves(p)
    return f"{struct(p)} with first entry {xs[0].v[0].show()[:60]}" if xs and isinstance(xs[0], NDA) and xs[0].v else struct(p)


def run(prog, rep):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    names = {c.name: c for c in concrete_modules(prog)}
    names.update({c.name: c for c in model_classes(prog)})

    models = {c.name for c in model_classes(prog)}

    def unit(cls, args, kw, shape, f, accept=True):
        if cls not in names:
            return
        tag, where = tagof(cls, args, kw, shape), prog.rel(names[cls].module.path)
        with rep.unit(tag):
            ms = []
            try:
                f(tag, where, ms)
                rep.ob("accepts", tag, True, "", where)
            except Raised as e:
                rep.ob("accepts", tag, False, str(e), where)
            finally:
                for m in ms:
                    rep.saw(m.I)

    for cls, kw, shape, want in given(rep.tier):
        def f(tag, where, ms):
            m = Mod(prog, cls, (), hooks=HOOKS, **kw)
            ms.append(m)
            for rng in (RNG, RNG2):
                m.compile(shape, rng)
                m.open()
                p = m.params()
                understood(p)
                if want is not None:
                    rep.ob("given", tag, same(p, want), f"the parameters are {brief(p)}, given {brief(want)}", where)
            if want is not None and cls not in models:
                k = itertools.count()
                H = cls in ("AffineHermitianMatrix", "ExpectationValueSum", "TransitionAmplitudeSum")
                new = tmap(lambda x: (hermitian(f"p{next(k)}", x.shape) if H and len(x.shape) > 1 else fresh(f"p{next(k)}", x.shape, x.dtype)) if isinstance(x, NDA) else x, p)
                m.method("set_params", thaw(m.I, m.st, new))
                m.compile(shape, RNG)
                m.open()
                got = m.params()
                understood(got)
                rep.ob("kept", tag, same(got, new), f"set to {brief(new)}, read back as {brief(got)} after compiling again", where)
            if want is None:
                k = itertools.count()
                data = tmap(lambda s: fresh(f"x{next(k)}", (2,) + s.d), shape)
                got, _, _ = m.forward(p, data)
                seen = {a for x in leaves(got) if isinstance(x, NDA) for v in x.v for a in atoms_below(v)}
                miss = [a for w in leaves(list(kw.values())) if isinstance(w, NDA) for v in w.v for a in v.atoms() if a not in seen]
                rep.ob("fixed", tag, not miss, f"{len(miss)} entries of the given value have no influence on the output", where)
        unit(cls, (), kw, shape, f)
    for cls, kw, shape, kind in p13.table(rep.tier):
        def g(tag, where, ms):
            m = Mod(prog, cls, (), hooks=HOOKS, **kw)
            ms.append(m)
            m.compile(shape)
            k = itertools.count()
            old = m.params()
            H = kind == "hermitian" or cls in ("AffineObservablePMM",)
            new = tmap(lambda x: (hermitian if H and len(x.shape) > 1 else fresh)(f"p{next(k)}", x.shape, *(() if H and len(x.shape) > 1 else (x.dtype,))) if isinstance(x, NDA) else x, old)
            m.method("set_params", thaw(m.I, m.st, new))
            m.open()
            got = m.params()
            understood(got)
            rep.ob("kept", tag, same(got, new), f"set to {brief(new)}, read back as {brief(got)}", where)
            m.compile(shape, RNG2)
            m.open()
            got = m.params()
            understood(got)
            rep.ob("kept", tag, same(got, new), f"set to {brief(new)}, {brief(got)} after compiling again", where)
            if cls in models:
                return
            b = Mod(prog, cls, (), hooks=HOOKS, **kw)
            ms.append(b)
            b.method("set_params", thaw(b.I, b.st, new))
            b.compile(shape)
            b.open()
            got = b.params()
            understood(got)
            rep.ob("before", tag, same(got, new), f"set to {brief(new)} before compiling, {brief(got)} afterwards", where)
            for other in others(shape):
                try:
                    o = Mod(prog, cls, (), hooks=HOOKS, **kw)
                    ms.append(o)
                    o.compile(other)
                    o.open()
                    q = leaves(o.params())
                except Raised:
                    continue
                if [getattr(x, "shape", None) for x in q] == [getattr(x, "shape", None) for x in leaves(new)]:
                    continue
                try:
                    o = Mod(prog, cls, (), hooks=HOOKS, **kw)
                    ms.append(o)
                    o.method("set_params", thaw(o.I, o.st, new))
                    o.compile(other)
                    o.open()
                    rep.ob("mismatch", f"{tag}, then {show(other)}", False, f"parameters {brief(new)} set for {show(shape)} are accepted when compiling for {show(other)}, with parameters {brief(o.params())}", where)
                except Raised:
                    rep.ob("mismatch", f"{tag}, then {show(other)}", True, "", where)
        unit(cls, (), kw, shape, g)
    for cls, kw, shape in mismatched(rep.tier):
        if cls not in names:
            continue
        tag, where = tagof(cls, (), kw, shape), prog.rel(names[cls].module.path)
        with rep.unit("refuse " + tag):
            m = None
            try:
                m = Mod(prog, cls, (), hooks=HOOKS, **kw)
                m.compile(shape)
                m.open()
                rep.ob("mismatch", tag, False, f"accepted, with parameters {struct(m.params())}", where)
            except Raised:
                rep.ob("mismatch", tag, True, "", where)
            finally:
                if m is not None:
                    rep.saw(m.I)
