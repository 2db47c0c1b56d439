"""P13: randomly initialised parameters come from the given key, every
independent entry from draws of its own, scaled by the initialisation
magnitude.

Every module that draws its parameters is compiled in the exact-array domain,
where a random draw is an unknown labelled with its key (a term), distribution
and position; the parameters found are inspected as polynomials in the draws."""
from .ndutil import *
from .p14 import HOOKS
from .p17 import show

RULES = {
    "key": "every random draw at compilation uses the key given to compile or one derived from it alone",
    "single-use": "no key is used for two draws, within a module or in two modules of a model",
    "independent": "two entries of the parameters have a random draw in common only when one is the complex conjugate of the other (Hermitian parameters)",
    "random": "every entry of a randomly initialised parameter contains a random draw",
    "scale": "randomly initialised parameters are proportional to init_magnitude",
    "type": "parameters requested complex have independent real and imaginary parts, the others are real; Hermitian parameters are Hermitian",
    "accepts": "a documented option and input shape is accepted",
}
S = Shape
TREE = {"b": S(2), "a": [S(1, 2), S()]}


def table(tier):
    """(class, keywords, shape, kind) with kind real | complex | hermitian | None (not pinned)"""
    ps = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    for p in ps:
        for bt in (True, False):
            for n in (1, 2, 3):
                yield "AffineHermitianMatrix", dict(matrix_size=n, bias_term=bt), S(p), "hermitian"
            for n, r in ((1, 1), (2, 1), (3, 2)):
                yield "LowRankAffineHermitianMatrix", dict(matrix_size=n, matrix_rank=r, bias_term=bt), S(p), None
            for real in (True, False):
                for ts in (S(2), S(2, 3), S()):
                    yield "AffineTensor", dict(tensor_shape=ts, bias_term=bt, real=real), S(p), "real" if real else "complex"
    yield "AffineHermitianMatrix", dict(matrix_size=2, smoothing=0.5), {"a": S(2)}, "hermitian"
    yield "LowRankAffineHermitianMatrix", dict(matrix_size=2, matrix_rank=2, smoothing=0.5), {"a": S(2)}, None
    for cls in ("ExpectationValueSum", "TransitionAmplitudeSum"):
        for l, q, n in ((1, 1, 2), (2, 1, 2), (1, 2, 2), (2, 2, 1), (1, 1, 3)):
            for c in (True, False):
                yield cls, dict(num_observables=l, output_size=q, centered=c), S(n, 1), "hermitian"
    for real in (True, False):
        kind = "real" if real else "complex"
        for sh in (S(2), S(2, 2), S(), [S(2), S(2)], TREE, {"z": S(1), "a": S(1)}):
            yield "Bias", dict(real=real), sh, kind
            yield "Bias", dict(real=real, scalar=True), sh, kind
            yield "Constant", dict(shape=sh, real=real, trainable=True), S(4), kind
            yield "PReLU", dict(real=real), sh, kind
            yield "PReLU", dict(real=real, single_parameter=False), sh, kind
        for es, dm, sh in (("ij,j->i", dict(i=3), S(2)), (("ab", "b", "a"), dict(a=2), S(2)), (("ab,bc", "c", "a"), dict(a=2, b=2), S(2)),
                           (("ij,ij", "j", "i"), dict(i=2), S(2)), (("i,i,i", "i", "i"), {}, S(2)), (("ij,jk", {"x": "ik", "y": "ab"}, "ab"), dict(j=2), {"x": S(3, 2), "y": S(2, 1)})):
            yield "Einsum", dict(einsum_str=es, dim_map=dm, trainable=True, real=real), sh, kind
        for o, sh in ((2, S(3)), (S(2, 2), S(2, 2)), (S(2, None), S(2, 2))):
            yield "MatMul", dict(output_shape=o, trainable=True, real=real), sh, kind
        yield "MatMul", dict(path_order=["x", "..", "y.0"], trainable=True, real=real), {"x": S(2, 3), "y": [S(1, 2)]}, kind
        for b in (True, False):
            for o, sh in ((1, S(1)), (2, S(2)), (3, S(2))):
                yield "LinearNN", dict(out_features=o, bias=b, real=real), sh, kind
    yield "Constant", dict(shape=[S(2), S(2)], real=[True, False], trainable=True), S(1), None
    for n, p in ((1, 1), (2, 2)):
        yield "AffineEigenvaluePMM", dict(matrix_size=n, num_eig=1), S(p), "hermitian"
        for bt in (True, False):
            for ev in (True, False):
                yield "AffineObservablePMM", dict(matrix_size=n, num_eig=1, num_secondaries=2, output_size=2, bias_term=bt, use_expectation_values=ev), S(p), None


def models(tier):
    A = dict(matrix_size=2)
    yield "SequentialModel", [Inst("LinearNN", out_features=2), Inst("Bias"), Inst("LinearNN", out_features=2, activation=Inst("ReLU")), Inst("PReLU")], S(2)
    yield "SequentialModel", [Inst("Bias"), Inst("Bias"), Inst("Bias", real=False)], S(2)
    yield "SequentialModel", [Inst("LinearNN", out_features=2), Inst("AffineHermitianMatrix", **A), Inst("Eigenvectors", num_eig=1), Inst("ExpectationValueSum", num_observables=1, output_size=2), Inst("Bias")], S(1)
    yield "SequentialModel", {"a": Inst("Bias"), "b": Inst("SequentialModel", [Inst("Bias"), Inst("SequentialModel", [Inst("Bias")]), Inst("Bias")]), "c": Inst("Bias")}, S(2)
    yield "SequentialModel", [Inst("SequentialModel", [Inst("LinearNN", out_features=2)]), Inst("SequentialModel", [Inst("LinearNN", out_features=2)])], S(2)
    yield "SequentialModel", [Inst("AffineObservablePMM", matrix_size=2, num_eig=1, output_size=2), Inst("AffineEigenvaluePMM", matrix_size=2), Inst("LinearNN", out_features=1)], S(1)


def draws(p):
    return {a for a in atoms_below(p) if a.key[0] == "draw"}


def keyid(k):
    """identity of a key: children of one key at one position count as one, however many children were made"""
    def f(x):
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "jax.random.split" and x.args[1]:
            return T("children", x.args[1][0])
        return x
    return rewrite(k, f)


def scaled(p, c):
    return p * P(c)


def run(prog, rep):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    names = {c.name: c for c in concrete_modules(prog)}
    names.update({c.name: c for c in model_classes(prog)})
    for cls, kw, shape, kind in table(rep.tier):
        if cls in names:
            one(prog, rep, names[cls], (), kw, shape, kind, True)
    for cls, mods, shape in models(rep.tier):
        one(prog, rep, names[cls], (mods,), {}, shape, None, False)
    if "NonSequentialModel" in names:
        B = Inst("Bias")
        for mods, con in (({"a": B, "b": B, "c": B}, {"input": ["a", "b"], "a": "c", "c": "output.x", "b": "output.y"}),
                          ({"a": [B, {"p": B}], "b": Inst("SequentialModel", [B, B])}, {"input": "a.0", "a.0": "a.1.p", "a.1.p": "b", "b": "output"})):
            one(prog, rep, names["NonSequentialModel"], (mods, con), {}, S(2), None, False)


def one(prog, rep, ci, args, kw, shape, kind, mag):
    cls = ci.name
    tag = f"{cls}({', '.join([show(a) for a in args] + [f'{k}={show(v)}' for k, v in kw.items()])}) on {show(shape)}"
    where = prog.rel(ci.module.path)
    with rep.unit(tag):
        ms = []
        try:
            for f in (0.5, 2.0) if mag else (None,):
                m = Mod(prog, cls, args, hooks=HOOKS, **(kw if f is None else dict(kw, init_magnitude=f)))
                ms.append(m)
                m.compile(shape)
                m.open()
            ps = [m.params() for m in ms]
            judge(prog, rep, tag, where, ms, ps, kind, mag)
        except Raised as e:
            rep.ob("accepts", tag, False, str(e), where)
        finally:
            for m in ms:
                rep.saw(m.I)


def flat(p):
    """entries with a label; AnalysisError for anything but arrays"""
    out = []
    for k, x in enumerate(leaves(p)):
        if not isinstance(x, NDA):
            raise AnalysisError(f"parameters {struct(p)} not understood")
        for ix, v in zip(x.indices(), x.v):
            odd = odd_atoms(v)
            if odd:
                raise AnalysisError(f"parameter entry {v.show()[:100]} uses a function without a model")
            out.append((k, ix, v, x))
    return out


def judge(prog, rep, tag, where, ms, ps, kind, mag):
    m = ms[0]
    ev = [e for e in m.I.events if e.kind == "draw"]
    bad = sorted({short(e.data["key"], 60) for e in ev if {a for a in walk(e.data["key"]) if a.op == "sym"} != {T("sym", "rng")}})
    for e in ev:
        opaque = [x for x in walk(e.data["key"]) if x.op == "call" and not str(x.args[0]).startswith("jax.random.")]
        if opaque and not bad:
            raise AnalysisError(f"key {short(e.data['key'])} not understood")
    rep.ob("key", tag, not bad, f"draws from {', '.join(bad)}", where)
    used = {}
    twice = []
    for e in ev:
        k = keyid(e.data["key"])
        if k in used:
            twice.append(f"{short(e.data['key'], 60)} at {used[k]} and {e.where}")
        used[k] = e.where
    rep.ob("single-use", tag, not twice, "; ".join(twice[:2]), where)
    es = flat(ps[0])
    ds = [draws(v) for _, _, v, _ in es]
    rep.ob("random", tag, all(ds), "; ".join(f"entry {list(ix)} of parameter {k} is {v.show()[:80]}" for (k, ix, v, _), d in list(zip(es, ds)) if not d), where)
    owner, shared = {}, []
    for i, d in enumerate(ds):
        for a in d:
            for j in owner.get(a, ()):
                if es[i][2] != es[j][2].conj():
                    shared.append(f"entries {list(es[j][1])} of parameter {es[j][0]} and {list(es[i][1])} of parameter {es[i][0]}")
            owner.setdefault(a, []).append(i)
    rep.ob("independent", tag, not shared, f"{shared[:1]} share draws", where)
    if mag:
        q = flat(ps[1])
        ok = len(q) == len(es) and all(b[2] == scaled(a[2], 4) for a, b in zip(es, q))
        n = next((i for i, (a, b) in enumerate(zip(es, q)) if b[2] != scaled(a[2], 4)), 0)
        rep.ob("scale", tag, ok, f"entry {list(es[n][1])} of parameter {es[n][0]} is {es[n][2].show()[:80]} for magnitude 0.5 and {q[n][2].show()[:80]} for 2" if es and len(q) == len(es) else "different parameters", where)
    if kind in ("real", "complex"):
        for k, x in enumerate(leaves(ps[0])):
            cplx = nd.KIND[x.dtype] >= 3
            w = kind == "complex"
            rep.ob("type", tag, cplx == w and all((v != v.conj()) == w for v in x.v), f"parameter {k} has type {x.dtype}", where)
    if kind == "hermitian":
        for k, x in enumerate(leaves(ps[0])):
            bad = [ix for ix in x.indices() if x.at(ix) != x.at(ix[:-2] + (ix[-1], ix[-2])).conj() or ix[-1] != ix[-2] and x.at(ix) == x.at(ix).conj()]
            rep.ob("type", tag, not bad and nd.KIND[x.dtype] >= 3, f"parameter {k} ({x.dtype}): entries {bad[:2]}", where)
    rep.ob("accepts", tag, True, "", where)
