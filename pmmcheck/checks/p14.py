"""P14: the declared output shape is the shape of the output.

Every module of the library (and the composite models) is compiled for a table
of options and input shapes; the shape tree returned by get_output_shape is
compared with the shapes of the arrays its forward function returns for
batches of several sizes."""
from .ndutil import *
from . import p17, p18, p23
from .p17 import show
from .p20 import SHAPES20

RULES = {
    "declared": "get_output_shape of a compiled module returns, with the same container structure, the shape of every leaf its forward function returns, without the batch dimension",
    "batch": "the leading dimension of every leaf of the result is the batch size of the input",
    "accepts": "a documented option and input shape is accepted",
    "composed": "the declared output shape of a model is the one obtained by handing each module's declared output to the next, and the shape its forward function returns",
}
S = Shape


def table(tier):
    seen = set()
    for c in p17.cases(tier):
        if c.tag not in seen:
            seen.add(c.tag)
            yield c.cls, c.args, c.kw, c.shape
    structs = list(p18.STRUCTS.values())
    for i, (cls, p, bias, s, kw, n) in enumerate(p18.configs(tier)):
        if s is None:
            kw = {k: Shape(*v) if isinstance(v, tuple) else v for k, v in kw.items()}
            yield cls, (), dict(kw, bias_term=bias), structs[i % 4](S(p))
    for i, (cls, kw, shape) in enumerate(SHAPES20()):
        yield cls, (), kw, shape
    for i, (cls, centered, q, l, n, r) in enumerate(p23.configs(tier)):
        if n * q * l <= 4:
            yield cls, (), dict(num_observables=l, output_size=q, centered=centered), structs[i % 4](S(n, r))
    for i, (n, p, k, w) in enumerate(((1, 1, 1, "SA"), (2, 1, 1, "LA"), (2, 2, 2, "EA"), (3, 1, 2, "SM"))):
        for mk in structs:
            yield "AffineEigenvaluePMM", (), dict(matrix_size=n, num_eig=k, which=w), mk(S(p))
    for i, (n, r, l, q, bt, ev) in enumerate(((1, 1, 1, 1, True, False), (2, 1, 2, 1, False, False), (2, 2, 1, 2, True, True), (2, 1, 1, 3, False, True))):
        for mk in structs[i % 2::2]:
            yield "AffineObservablePMM", (), dict(matrix_size=n, num_eig=r, num_secondaries=l, output_size=q, bias_term=bt, use_expectation_values=ev), mk(S(2))
    for act in ("ReLU", "Tanh", "Softmax", "Abs"):
        for s in (S(2), S(), {"b": S(1, 2), "a": [S(3)]}):
            yield act, (), {}, s
    yield "GLU", (), {}, S(4)
    yield "GLU", (), {}, [S(2, 2)]


def models(tier):
    """module chains: (modules, input shape)"""
    yield [Inst("Flatten"), Inst("LinearNN", out_features=3), Inst("ReLU")], S(2, 2)
    yield [Inst("Reshape", S(2, 3)), Inst("Flatten"), Inst("Bias")], S(6)
    yield [Inst("TreeKey", ("b", "a")), Inst("ConcatenateLeaves", axis=0), Inst("LinearNN", out_features=1)], {"a": S(2), "b": S(3)}
    yield [Inst("AffineHermitianMatrix", matrix_size=2), Inst("Eigenvalues", num_eig=1)], S(1)
    yield [Inst("AffineHermitianMatrix", matrix_size=2), Inst("Eigenvectors", num_eig=1), Inst("ExpectationValueSum", num_observables=1, output_size=2)], S(1)
    yield [Inst("Comment", "x"), Inst("MatMul", output_shape=2, trainable=True), Inst("PReLU", single_parameter=False)], S(3)
    yield [Inst("TreeFlatten"), Inst("Reshape", [S(2, 1), None])], {"y": S(3), "x": S(2)}
    yield [Inst("Constant", shape=[S(2), S(2, 2)], trainable=True), Inst("MatMul", path_order=["1", "0"])], S(5)


def graphs(tier):
    """module graphs: ((modules, connections), input shape)"""
    L = lambda k: Inst("LinearNN", out_features=k)  # noqa: E731
    yield ({"a": L(3), "b": L(1), "c": Inst("Bias")}, {"input": ["a", "b"], "a": "c", "c": "output.x", "b": "output.y"}), S(2)
    yield ({"a": [L(3), {"p": Inst("ReLU")}], "b": L(2)}, {"input": "a.0", "a.0": "a.1.p", "a.1.p": "b", "b": "output"}), S(2, 2)
    yield ({"a": L(2), "b": L(3), "c": Inst("ConcatenateLeaves", axis=0), "d": L(1)}, {"input.x": "a", "input.y": "b", "a": "c.0", "b": "c.1", "c": "d", "d": "output"}), {"x": S(2), "y": S(3)}
    yield ({"h": Inst("AffineHermitianMatrix", matrix_size=2), "v": Inst("Eigenvalues", num_eig=2), "r": Inst("Reshape", S(1, 2))}, {"input": "h", "h": "v", "v": ["r", "output.e"], "r": "output.r"}), S(1)


def elementwise(I, fn, args, kwargs, st, node):
    x = I.snap(st, args[0])
    if x.op != "nd" or len(args) > 1 or kwargs:
        raise AnalysisError("activation")
    a = x.args[0]
    return T("nd", NDA(a.shape, a.dtype, [poly.func("act", v) for v in a.v]))


def glu(I, fn, args, kwargs, st, node):
    x = I.snap(st, args[0])
    if x.op != "nd" or len(args) > 1 or kwargs:
        raise AnalysisError("activation")
    a = x.args[0]
    if a.shape[-1] % 2:
        return I.ndop(st, node, lambda: p17._reject("jax.nn.glu"))
    s = a.shape[:-1] + (a.shape[-1] // 2,)
    return T("nd", build(s, a.dtype, lambda ix: poly.func("glu", a.at(ix))))


HOOKS = {"jax.nn.softmax": elementwise, "jax.numpy.tanh": elementwise, "jax.numpy.abs": elementwise, "jax.nn.glu": glu}


def shape_of(x):
    return S(*x.shape[1:]) if isinstance(x, NDA) else x


def run(prog, rep):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    names = {c.name: c for c in concrete_modules(prog)}
    names.update({c.name: c for c in model_classes(prog)})
    for i, (cls, args, kw, shape) in enumerate(table(rep.tier)):
        if cls not in names:
            continue
        tag = f"{cls}({', '.join([show(a) for a in args] + [f'{k}={show(v)}' for k, v in kw.items()])}) on {show(shape)}"
        where = prog.rel(names[cls].module.path)
        with rep.unit(tag):
            m = None
            try:
                m = Mod(prog, cls, args, hooks=HOOKS, **kw)
                m.compile(shape)
                compare(rep, "declared", tag, where, m, (1, 2, 3, 4) if rep.tier == "thorough" else (1, 3))
            except Raised as e:
                rep.ob("accepts", tag, False, str(e), where)
            finally:
                if m is not None:
                    rep.saw(m.I)
    chain = [("SequentialModel", (mods,), shape) for mods, shape in models(rep.tier)]
    chain += [("NonSequentialModel", args, shape) for args, shape in graphs(rep.tier)]
    for cls, args, shape in chain:
        if cls not in names or not all(x.cls in names for x in leaves(args) if isinstance(x, Inst)):
            continue
        tag = f"{cls}({', '.join(show(a) for a in args)}) on {show(shape)}"
        where = prog.rel(names[cls].module.path)
        with rep.unit(tag):
            m = None
            try:
                m = Mod(prog, cls, args, hooks=HOOKS)
                m.compile(shape)
                compare(rep, "composed", tag, where, m, (2,))
            except Raised as e:
                rep.ob("accepts", tag, False, str(e), where)
            finally:
                if m is not None:
                    rep.saw(m.I)


def compare(rep, rule, tag, where, m, sizes):
    decl = m.out_shape()
    again = m.out_shape()
    m.open()
    if not plain(decl):
        raise AnalysisError(f"declared shape {struct(decl)} not understood")
    for nb in sizes:
        k = itertools.count()
        data = tmap(lambda s: fresh(f"x{next(k)}", (nb,) + s.d), m.shape)
        got, st, pre = m.forward(m.fresh_params(), data)
        if not plain(got):
            raise AnalysisError(f"result {struct(got)} not understood")
        have = tmap(shape_of, got)
        bs = {x.shape[:1] for x in leaves(got)}
        rep.ob("batch", tag, bs <= {(nb,)}, f"the results have leading dimensions {sorted(bs)} for a batch of {nb}", where)
        rep.ob(rule, tag, have == decl and decl == again, f"batch of {nb}: declared {decl!r}{'' if decl == again else f' then {again!r}'}, the result has feature shapes {have!r}", where)
    rep.ob("accepts", tag, True, "", where)
