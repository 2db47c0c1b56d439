"""P18: parametric matrix modules build the documented matrix.

AffineHermitianMatrix, LowRankAffineHermitianMatrix and AffineTensor are
compiled and evaluated in the exact-array domain for every combination of
their options; each entry of the result is compared, as a polynomial in the
parameter entries and features, with the documented expression."""
from .ndutil import *

RULES = {
    "formula": "every entry of the module's result is the documented expression M0 + x1 M1 + ... + xp Mp + s C (as a polynomial in the entries of the parameters and of the input)",
    "hermitian": "the matrix built from arbitrary parameters and real features equals its conjugate transpose",
    "container": "the result has the container structure of the data and the state is handed back unchanged",
    "gradient": "no parameter is cut off from differentiation in the forward function",
    "accepts": "a documented option and input shape is accepted",
}
STRUCTS = {"array": lambda x: x, "dict": lambda x: {"a": x}, "nested": lambda x: {"a": [x]}, "tuple": lambda x: (x,)}


def mat(A, i):
    return nd.index(A, [i])


def comm(A, B):
    return nd.matmul(A, B) - nd.matmul(B, A)


def affine(Ms, x, bias):
    """M0 + sum x_i M_i for each row of x; Ms list of NDA"""
    rows = []
    dt = nd.promote(Ms[0].dtype, x.dtype)
    for b in range(x.shape[0]):
        acc = NDA(Ms[0].shape, dt, [P(0)] * len(Ms[0].v))
        if bias:
            acc = acc + Ms[0]
        for i, M in enumerate(Ms[1:] if bias else Ms):
            acc = acc + NDA(M.shape, dt, [x.at((b, i)) * v for v in M.v])
        rows.append(acc)
    return rows


def smooth(Ms, s):
    acc = None
    for i in range(len(Ms)):
        for j in range(i):
            c = comm(Ms[i], Ms[j])
            acc = c if acc is None else acc + c
    if acc is None:
        return None
    return NDA(acc.shape, acc.dtype, [poly.IM * P(s) * v for v in acc.v])


def expect(cls, params, x, bias, s):
    if cls == "AffineTensor":
        Ms = [mat(params, i) for i in range(params.shape[0])]
        return nd.stack(affine(Ms, x, bias), 0)
    if cls == "LowRankAffineHermitianMatrix":
        if not isinstance(params, tuple) or len(params) != 2 or params[0].ndim != 2 or params[1].ndim != 3:
            raise AnalysisError("the parameters are not (coefficients, vectors)")
        ls, us = params
        p, n, r = us.shape
        Ms = [build((n, n), us.dtype, lambda ix: psum([ls.at((q, k)) * us.at((q, ix[0], k)) * us.at((q, ix[1], k)).conj() for k in range(r)])) for q in range(p)]
    else:
        Ms = [mat(params, i) for i in range(params.shape[0])]
        Ms = [build(M.shape, M.dtype, lambda ix: (M.at(ix) + M.at((ix[1], ix[0])).conj()) * P(0.5)) for M in Ms]
    rows = affine(Ms, x, bias)
    c = smooth(Ms, s) if s else None
    if c is not None:
        rows = [r + c for r in rows]
    return nd.stack(rows, 0)


def configs(tier):
    deep = tier == "thorough"
    ps = (1, 2, 3, 4) if deep else (1, 2, 3)
    ns = (1, 2, 3, 4) if deep else (1, 2, 3)
    for bias in (True, False):
        for p in ps:
            for s in (None, 0.0, 0.375, -2.0):
                for n in ns:
                    if s and (n == 3 and p >= 3 or n == 4 and p >= 2):
                        continue
                    yield "AffineHermitianMatrix", p, bias, s, dict(matrix_size=n), n
                    for r in range(1, n + 1):
                        if s and p * n * r > 8:
                            continue
                        yield "LowRankAffineHermitianMatrix", p, bias, s, dict(matrix_size=n, matrix_rank=r), n
        for p in ps:
            for shp in ((2,), (2, 3), (1, 2, 2), (2, 2, 1, 2)):
                for real in (True, False):
                    yield "AffineTensor", p, bias, None, dict(tensor_shape=shp, real=real), 0


def run(prog, rep):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    names = {c.name for c in concrete_modules(prog)}
    structs = list(STRUCTS.items())
    for i, (cls, p, bias, s, kw, n) in enumerate(configs(rep.tier)):
        if cls not in names:
            continue
        tag0 = f"{cls}({', '.join(f'{k}={v}' for k, v in kw.items())}{'' if s is None else f', smoothing={s}'}{'' if bias else ', bias_term=False'}) on {p} features"
        for sn, mk in (structs if n in (0, 1) and p == 2 else structs[i % 4:i % 4 + 1]):
            tag = f"{tag0} in {sn}"
            with rep.unit(tag):
                one(prog, rep, tag, cls, p, bias, s, kw, mk, (1, 2)[i % 2])


def one(prog, rep, tag, cls, p, bias, s, kw, mk, nb):
    opts = dict(kw)
    if cls != "AffineTensor" and s is not None:
        opts["smoothing"] = s
    opts["bias_term"] = bias
    where = f"modules/{cls.lower()}.py"
    kw = {k: T("tuple", *[const(d) for d in v]) if isinstance(v, tuple) else v for k, v in opts.items()}
    try:
        m = Mod(prog, cls, **kw)
        m.compile(mk(Shape(p)))
        pr = m.params()
        want_p = p + (1 if bias else 0)
        for dt in ((None,) if cls == "LowRankAffineHermitianMatrix" else ("complex64", "float32")):
            params = m.fresh_params(dtype=dt)
            x = fresh("x", (nb, p))
            d = mk(x)
            got, st, pre = m.forward(params, d)
            rep.ob("gradient", tag, not m.cut, f"stop_gradient on a value of the parameters at {m.cut[:1]}", where)
            ok = same_tree(d, got)
            rep.ob("container", tag, ok and st is pre, f"data {struct(d)} gives {struct(got)}" if not ok else f"the state {short(pre)} becomes {short(st)}", where)
            if not ok:
                continue
            g = leaves(got)[0]
            w = expect(cls, params, x, bias, s)
            bad = differs(g, w)
            rep.ob("formula", tag, bad is None, f"{dt or 'complex64'} parameters: {bad}", where)
            if cls != "AffineTensor" and isinstance(g, NDA) and g.ndim == 3 and g.shape[1] == g.shape[2]:
                asym = [ix for ix in g.indices() if g.at(ix) != g.at((ix[0], ix[2], ix[1])).conj()]
                rep.ob("hermitian", tag, not asym, f"entry {list(asym[0]) if asym else ''} is not the conjugate of its mirror entry", where)
        rep.ob("accepts", tag, True, "", where)
    except Raised as e:
        rep.ob("accepts", tag, False, str(e), where)
    finally:
        if "m" in locals():
            rep.saw(m.I)


