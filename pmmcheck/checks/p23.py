"""P23: observable modules compute the documented sums.

ExpectationValueSum and TransitionAmplitudeSum are evaluated on arrays of
unknown state vectors and observables; every output is compared, as an exact
expression, with the documented sum of expectation values / transition
probabilities and the centering term."""
from .ndutil import *
from . import p18
from .p18 import STRUCTS
from .p20 import admissible, spectra

RULES = {
    "formula": "every output is the documented sum over state vectors and observables (Hermitian part of the parameters), minus half the squared operator norms when centered",
    "container": "the result has the container structure of the data and the state is handed back unchanged",
    "gradient": "no parameter is cut off from differentiation in the forward function",
    "accepts": "a documented option and input shape is accepted",
    "pmm-eigenvalues": "AffineEigenvaluePMM returns the selected eigenvalues of the documented affine matrix, for every order type of its spectrum",
    "pmm-observables": "AffineObservablePMM returns the documented sum over the selected eigenvectors of the documented affine matrix plus the bias, for every order type of the spectrum",
    "rejects": "state vectors of another size than given observables are rejected",
}


def herm(D):
    return build(D.shape, D.dtype, lambda ix: (D.at(ix) + D.at((ix[0], ix[1], ix[3], ix[2])).conj()) * P(0.5))


def expect(cls, D, v, centered):
    D = herm(D)
    q, l, n, _ = D.shape
    nb, _, r = v.shape

    def amp(b, k, m, i, j):
        return psum([v.at((b, a, i)).conj() * D.at((k, m, a, c)) * v.at((b, c, j)) for a in range(n) for c in range(n)])

    def z(ix):
        b, k = ix
        if cls == "ExpectationValueSum":
            s = psum([amp(b, k, m, i, i) for m in range(l) for i in range(r)])
        else:
            s = psum([(lambda x: x * x.conj())(amp(b, k, m, i, j)) for m in range(l) for i in range(r) for j in range(r)])
        if centered:
            for m in range(l):
                x = nd.opnorm(nd.index(D, [k, m]))
                s = s - P(0.5) * x * x
        return s
    return build((nb, q), "float32", z)


def configs(tier):
    for cls in ("ExpectationValueSum", "TransitionAmplitudeSum"):
        for centered in (True, False):
            for q, l in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
                for n, r in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)) if tier == "thorough" else ((1, 1), (2, 1), (2, 2), (3, 1)):
                    if n * r > 3 and q * l > 2 and cls != "ExpectationValueSum":
                        continue
                    yield cls, centered, q, l, n, r


def run(prog, rep):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    names = {c.name for c in concrete_modules(prog)}
    for i, (cls, centered, q, l, n, r) in enumerate(configs(rep.tier)):
        if cls not in names:
            continue
        for sn, mk in (STRUCTS.items() if n == 1 and q == 1 else list(STRUCTS.items())[i % 4:i % 4 + 1]):
            tag = f"{cls}(num_observables={l}, output_size={q}, centered={centered}) on {r} vectors of size {n} in {sn}"
            with rep.unit(tag):
                one(prog, rep, tag, cls, centered, q, l, n, r, mk, 1 + i % 2)
    for cls in ("ExpectationValueSum", "TransitionAmplitudeSum"):
        for what, shape in (("vectors of size 3 for 2x2 observables", Shape(3, 1)), ("a vector instead of columns", Shape(2)), ("two arrays", {"a": Shape(2, 1), "b": Shape(2, 1)})):
            with rep.unit(f"{cls} rejects {what}"):
                where = f"modules/{cls.lower()}.py"
                try:
                    m = Mod(prog, cls, Ds=hermitian("D", (1, 2, 2, 2)))
                    m.compile(shape)
                    m.open()
                    ok = False
                except Raised:
                    ok = True
                rep.ob("rejects", f"{cls}: {what}", ok, "is accepted", where)

    composites(prog, rep, {c.name for c in model_classes(prog)})


def chosen(n, k, which, sp):
    order = sorted(range(n), key=(lambda i: sp[i]) if which[1] == "A" else (lambda i: abs(sp[i])))
    return [[order[j] for j in w] for w in admissible(n, n if k is None else k, which)]


def composites(prog, rep, names):
    if "AffineEigenvaluePMM" in names:
        for n, p, k, which, s, bias in ((1, 1, 1, None, None, True), (2, 1, 1, None, None, True), (2, 2, 1, "LA", None, False), (2, 1, 2, "EA", 0.375, True), (3, 1, 2, "SM", None, True), (2, 2, 1, "LM", 0.0, True), (2, 1, 1, "IM", None, False),
                                        (3, 1, 1, "IA", None, True), (3, 2, 2, "EM", None, True), (2, 2, 2, "sa", 0.375, False)):
            opts = dict(matrix_size=n, num_eig=k, bias_term=bias)
            opts.update({} if which is None else dict(which=which), **({} if s is None else dict(smoothing=s)))
            for sn, mk in list(STRUCTS.items())[::(1 if n == 1 else 2)]:
                tag = f"AffineEigenvaluePMM({', '.join(f'{a}={b}' for a, b in opts.items())}) on {p} features in {sn}"
                with rep.unit(tag):
                    eigenvalue_pmm(prog, rep, tag, opts, n, p, k, (which or "SA").upper(), s, bias, mk)
    if "AffineObservablePMM" in names:
        for i, (n, p, r, which, s, ab, l, q, cent, bt, ev) in enumerate(itertools.product((2,), (1, 2), (1, 2), (None, "SA", "EM"), (None, 0.375), (True, False), (1, 2), (1, 2), (True, False), (True, False), (False, True))):
            # every pair of option values; n = 3 for a few
            if i % 23 and not (rep.tier == "thorough" and i % 5 == 0):
                continue
            opts = dict(matrix_size=n, num_eig=r, affine_bias_matrix=ab, num_secondaries=l, output_size=q, centered=cent, bias_term=bt, use_expectation_values=ev)
            opts.update({} if which is None else dict(which=which), **({} if s is None else dict(smoothing=s)))
            mk = list(STRUCTS.values())[i % 4]
            tag = f"AffineObservablePMM({', '.join(f'{a}={b}' for a, b in opts.items())}) on {p} features in {list(STRUCTS)[i % 4]}"
            with rep.unit(tag):
                observable_pmm(prog, rep, tag, opts, n, p, r, which or ("SA" if s else "LM"), s, ab, cent, bt, ev, mk)


def eigenvalue_pmm(prog, rep, tag, opts, n, p, k, which, s, bias, mk):
    where = "modules/affineeigenvaluepmm.py"
    try:
        m = Mod(prog, "AffineEigenvaluePMM", **opts)
        m.compile(mk(Shape(p)))
        params = m.fresh_params()
        x = fresh("x", (2, p))
        got, st, pre = m.forward(params, mk(x))
        g = one_leaf(rep, "pmm-eigenvalues", tag, where, mk(x), got)
        if g is None:
            return
        M = p18.expect("AffineHermitianMatrix", [a for a in leaves(params) if isinstance(a, NDA)][0], x, bias, s)
        E, _ = nd.eigh(M)
        kk = n if k is None else k
        bad = None
        if g.shape != (2, kk):
            bad = f"the result has shape {g.shape}, expected {(2, kk)}"
        for b in range(2):
            for sp in spectra(n):
                if bad:
                    break
                env = {E.at((b, i)).atom(): v for i, v in enumerate(sp)}
                vals = [poly.resolve(g.at((b, j)), env) for j in range(kk)]
                if [v.rat() for v in vals] not in [[sp[i] for i in w] for w in chosen(n, k, which, sp)]:
                    if any(odd_atoms(v) for v in vals):
                        raise AnalysisError("result not understood")
                    bad = f"for eigenvalues {sp} of M(x) the module returns {[v.show()[:60] for v in vals]}"
        rep.ob("pmm-eigenvalues", tag, bad is None, bad or "", where)
        rep.saw(m.I)
    except Raised as e:
        rep.ob("accepts", tag, False, str(e), where)


def one_leaf(rep, rule, tag, where, data, got):
    if not plain(got):
        raise AnalysisError(f"result {struct(got)} not understood")
    ok = same_tree(data, got) and len(leaves(got)) == 1
    rep.ob("container", tag, ok, f"data {struct(data)} gives {struct(got)}", where)
    return leaves(got)[0] if ok else None


def observable_pmm(prog, rep, tag, opts, n, p, r, which, s, ab, cent, bt, ev, mk):
    where = "modules/affineobservablepmm.py"
    try:
        m = Mod(prog, "AffineObservablePMM", **opts)
        m.compile(mk(Shape(p)))
        params = m.fresh_params()
        ps = leaves(params)
        want = [3, 4] + [1] * bt
        if bt and len(ps) == 3 and isinstance(params[3], (dict, list, tuple)):
            want = want[:2] + [x.ndim for x in ps[2:]]
        if [a.ndim for a in ps] != want:
            raise AnalysisError(f"parameters {struct(params)} not understood")
        x = fresh("x", (1, p))
        got, st, pre = m.forward(params, mk(x))
        g = one_leaf(rep, "pmm-observables", tag, where, mk(x), got)
        if g is None:
            return
        M = p18.expect("AffineHermitianMatrix", ps[0], x, ab, s)
        E, V = nd.eigh(M)
        bad = None
        q = opts["output_size"]
        if g.shape != (1, q):
            bad = f"the result has shape {g.shape}, expected {(1, q)}"
        for sp in spectra(n):
            if bad:
                break
            env = {E.at((0, i)).atom(): v for i, v in enumerate(sp)}
            res = [poly.resolve(v, env) for v in g.v]
            alts = []
            for w in chosen(n, r, which.upper(), sp):
                v = build((1, n, len(w)), V.dtype, lambda ix: V.at((0, ix[1], w[ix[2]])))
                z = expect("ExpectationValueSum" if ev else "TransitionAmplitudeSum", ps[1], v, cent)
                alts.append([a + (ps[2].v[j] if bt else P(0)) for j, a in enumerate(z.v)])
            if res not in alts:
                if any(odd_atoms(v) for v in res):
                    raise AnalysisError("result not understood")
                j = [a == b for a, b in zip(res, alts[0])].index(False)
                bad = f"for eigenvalues {sp} of M(x) output {j} is {res[j].show()[:140]}, documented {alts[0][j].show()[:140]}"
        rep.ob("pmm-observables", tag, bad is None, bad or "", where)
        rep.saw(m.I)
    except Raised as e:
        rep.ob("accepts", tag, False, str(e), where)


def one(prog, rep, tag, cls, centered, q, l, n, r, mk, nb):
    where = f"modules/{cls.lower()}.py"
    try:
        m = Mod(prog, cls, num_observables=l, output_size=q, centered=centered)
        m.compile(mk(Shape(n, r)))
        for pd, vd in (("complex64", "complex64"), ("float32", "float32"), ("complex64", "float32")):
            params = m.fresh_params(dtype=pd)
            if not isinstance(params, NDA) or params.shape != (q, l, n, n):
                raise AnalysisError(f"parameters {struct(params)} not understood")
            v = fresh("v", (nb, n, r), vd)
            d = mk(v)
            got, st, pre = m.forward(params, d)
            rep.ob("gradient", tag, not m.cut, f"stop_gradient on a value of the parameters at {m.cut[:1]}", where)
            if not plain(got):
                raise AnalysisError(f"result {struct(got)} not understood")
            ok = same_tree(d, got)
            rep.ob("container", tag, ok and st is pre, f"data {struct(d)} gives {struct(got)}" if not ok else "the state changes", where)
            if ok:
                bad = differs(leaves(got)[0], expect(cls, params, v, centered))
                rep.ob("formula", tag, bad is None, f"{pd} observables, {vd} vectors: {bad}", where)
        rep.ob("accepts", tag, True, "", where)
        rep.saw(m.I)
    except Raised as e:
        rep.ob("accepts", tag, False, str(e), where)
