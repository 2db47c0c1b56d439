"""P17: structural and algebraic modules compute their documented expression.

Einsum, MatMul, Reshape, Flatten, TreeFlatten, TreeKey, ConcatenateLeaves,
Constant, Bias, LinearNN, PReLU, Comment are compiled for a table of option
values and input structures and their forward function is applied to arrays of
unknown entries; every entry of the result is compared as an exact expression.
Each activation module hands its input leaves to the function it is named
after."""
import ast
import re

from ..interp import pyval
from ..program import Program
from .ndutil import *
from .acttable import TABLE

RULES = {
    "formula": "every entry of the module's result is the documented expression of the entries of its parameters and of the data, for every data value",
    "container": "the result has the documented container structure and the state is handed back unchanged",
    "accepts": "a documented option and input shape is accepted",
    "gradient": "no parameter is cut off from differentiation in a forward function",
    "activation": "an activation module applies the function it is documented for, with the given arguments, to every leaf of its input",
    "user": "a function module a user writes applies its own f to the data, declares the shape f gives, needs no parameters and is ready before compiling, alone and inside a model",
    "exports": "every public name of the modules package is defined",
}
S = Shape


class Case:
    def __init__(self, cls, shape_, want, args=(), dtypes=("float32",), signs=False, known=True, where=None, **kw):
        self.cls, self.shape, self.want, self.args, self.kw = cls, shape_, want, args, kw
        self.dtypes, self.signs = dtypes, signs
        self.where = where or f"modules/{cls.lower()}.py"

    @property
    def tag(self):
        a = ", ".join([show(x) for x in self.args] + [f"{k}={show(v)}" for k, v in self.kw.items()])
        return f"{self.cls}({a}) on {show(self.shape)}"


def show(x):
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k!r}: {show(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return ("[%s]" if isinstance(x, list) else "(%s)") % ", ".join(show(v) for v in x)
    return f"array{x.shape}" if isinstance(x, NDA) else repr(x)


def ein(lead, ins, out):
    """documented einsum over the parameter leaves and the data leaves in
    traversal order, the batch being a common extra index"""
    def want(params, data):
        ps, xs = leaves(params), leaves(data)
        spec = ",".join(list(lead) + ["Z" + s for s in ins]) + "->Z" + out
        if len(ps) != len(lead):
            raise AnalysisError(f"parameters {struct(params)} not understood")
        return nd.einsum(spec, *ps, *xs)
    return want


def chain(order, nlead=0):
    """product of the operands in the given order; -1 = the parameter"""
    def want(params, data):
        ps, xs = leaves(params), leaves(data)
        if len(ps) != nlead:
            raise AnalysisError(f"parameters {struct(params)} not understood")
        rows = []
        for b in range(xs[0].shape[0]):
            ops = [ps[0] if i < 0 else nd.index(xs[i], [b]) for i in order]
            r = ops[0]
            for o in ops[1:]:
                r = nd.matmul(r, o)
            rows.append(r)
        return nd.stack(rows, 0)
    return want


def leafwise(f):
    return lambda params, data: tmap(f, data)


def rows(x, shape):
    return nd.reshape(x, (x.shape[0],) + tuple(shape))


def size(s):
    n = 1
    for d in s:
        n *= d
    return n


def cat(order, axis):
    def want(params, data):
        xs = leaves(data)
        xs = [xs[i] for i in order]
        if axis is None:
            return nd.concat([rows(x, (size(x.shape[1:]),)) for x in xs], 1)
        return nd.concat(xs, axis + 1 if axis >= 0 else xs[0].ndim + axis)
    return want


def const_rows(value=None):
    def want(params, data):
        n = leaves(data)[0].shape[0]
        return tmap(lambda c: nd.stack([c] * n, 0), params if value is None else value)
    return want


class Wrong(Exception):
    pass


def linear(bias, act=None):
    def want(params, data):
        x = leaves(data)[0]
        x = rows(x, (size(x.shape[1:]),))
        ps = leaves(params)
        if len(ps) != 1 + bias:
            raise Wrong(f"parameters {struct(params)}: a weight matrix {'and a bias ' if bias else ''}expected")
        W = ps[0]
        out = build((x.shape[0], W.shape[0]), nd.promote(W.dtype, x.dtype), lambda ix: psum([W.at((ix[1], j)) * x.at((ix[0], j)) for j in range(x.shape[1])]) + (ps[1].at((ix[1],)) if bias else P(0)))
        return act(out) if act else out
    return want


def prelu(single):
    def leaf(x, a):
        # documented: x where x >= 0, a*x elsewhere
        return nd.where(nd.elem2(">=", x, nd.nd(0)), x, nd.elem2("*", a, x))

    def want(params, data):
        if single:
            ps = leaves(params)
            if len(ps) != 1:
                raise AnalysisError(f"parameters {struct(params)} not understood")
            a = nd.reshape(ps[0], ())
            return tmap(lambda x: leaf(x, a), data)
        if not same_tree(params, data):
            raise AnalysisError(f"parameters {struct(params)} not understood")
        return tmap(leaf, data, params)
    return want


def cases(tier):
    deep = tier == "thorough"
    RC = ("float32", "complex64")
    ident = leafwise(lambda x: x)
    A3 = [S(2), (S(3), S(1))]
    NEST = {"b": [S(2), S(1, 2)], "a": (S(3), {"y": S(2, 2), "x": S()})}

    # ---- Einsum ---------------------------------------------------------
    yield Case("Einsum", (S(3), S(3)), ein([], ["i", "i"], ""), ("i,i->",), RC)
    yield Case("Einsum", (S(2), S(3)), ein([], ["i", "j"], "ji"), ("i,j->ji",))
    for s in ("c,a,b->abc", "c,a,b", ["k", ("i", "j")], (["k", ("i", "j")], "ijk"), (["a", ("b", "c")], "bca")):
        yield Case("Einsum", A3, ein([], ["c", "a", "b"], "abc"), (s,))
    for s in ("ab,c,a,b->c", "ab,c,a,b", ("ij", ["k", ("i", "j")]), ("ij", ["k", ("i", "j")], "k")):
        yield Case("Einsum", A3, ein(["ab"], ["c", "a", "b"], "c"), (s,), RC, trainable=True)
    for s in ("ab,cd,c,a,b->d", "ab,cd,c,a,b", ("ab,cd", ["c", ("a", "b")]), ("ab,cd", ["c", ("a", "b")], "d")):
        yield Case("Einsum", A3, ein(["ab", "cd"], ["c", "a", "b"], "d"), (s,), dim_map={"d": 2}, trainable=True)
    for real in (True, False):
        yield Case("Einsum", (S(2, 1), S(2, 1), S(2, 1)), ein(["ij"], ["jk", "jk", "jk"], "ik"), ("ij,jk,jk,jk->ik",), dim_map={"i": 3}, trainable=True, real=real)
    W = fresh("W", (3, 2))
    V = fresh("V", (2, 2))
    yield Case("Einsum", (S(2, 1), S(2, 1)), lambda p, d: nd.einsum("ij,Zjk,Zjk->Zik", W, *leaves(d)), ("ij,jk,jk->ik",), params=W, trainable=False)
    yield Case("Einsum", [S(2, 1)], lambda p, d: nd.einsum("ij,jl,Zlk->Zik", W, V, *leaves(d)), ("ij,jl,lk->ik",), params=(W, V))
    yield Case("Einsum", [S(2, 1)], lambda p, d: nd.einsum("ij,jl,Zlk->Zik", W, V, *leaves(d)), ((("ij,jl"), ["lk"], "ik"),), params=[W, V])
    yield Case("Einsum", {"y": S(2, 2), "x": S(3, 2)}, ein(["ij"], ["ai", "bj"], "ab"), (("ij", {"y": "bj", "x": "ai"}, "ab"),), trainable=True)
    yield Case("Einsum", {"x": S(3, 2), "y": S(2, 1)}, ein(["ij", "jk"], ["ik", "ab"], "ab"), (("ij,jk", {"x": "ik", "y": "ab"}, "ab"),), trainable=True, dim_map={"j": 2})
    yield Case("Einsum", S(2, 3), ein([], ["ij"], "ji"), ("ij->ji",), RC)
    yield Case("Einsum", S(2, 3), ein([], ["ba"], "ab"), ("ba",))
    yield Case("Einsum", S(2, 2), ein([], ["ii"], "i"), ("ii->i",))
    yield Case("Einsum", S(2, 2), ein([], ["ii"], ""), ("ii",))
    yield Case("Einsum", S(2), ein(["ij"], ["j"], "i"), ("ij,j->i",), dim_map={"i": 3}, trainable=True)
    yield Case("Einsum", S(2), ein(["ij"], ["j"], "i"), ("ij,j",), RC, dim_map={"i": 3}, trainable=True)
    yield Case("Einsum", S(2, 3), ein([], ["ij"], "i"), ("ij->i",))
    yield Case("Einsum", (S(2, 3), S(3, 2)), ein([], ["aB", "BC"], "Ca"), ("aB,BC",))
    yield Case("Einsum", (S(2, 3), S(3, 2)), ein([], ["ij", "jk"], "ik"), ((("ij", "jk"), "ik"),))
    yield Case("Einsum", (S(2, 3), S(3, 2)), ein([], ["ij", "jk"], "ik"), (("ij", "jk"),))
    yield Case("Einsum", (S(2, 2), S(2, 2)), ein([], ["zb", "ba"], "az"), ("zb,ba->az",))
    yield Case("Einsum", (S(2), S(2)), ein([], ["i", "i"], "i"), ("i,i->i",))

    # ---- MatMul ---------------------------------------------------------
    yield Case("MatMul", S(3), chain([-1, 0], 1), (), RC, output_shape=2, trainable=True)
    yield Case("MatMul", S(3), chain([-1, 0], 1), output_shape=S(2), trainable=True, real=False)
    yield Case("MatMul", [S(3)], chain([-1, 0], 1), output_shape=2, trainable=True)
    for o in (2, S(2, 1), S(2, None)):
        yield Case("MatMul", S(3, 1), chain([-1, 0], 1), output_shape=o, trainable=True)
    abc = (S(1, 2), S(2, 3), S(3, 2))
    yield Case("MatMul", abc, chain([0, 1, 2]), (), RC)
    yield Case("MatMul", abc, chain([-1, 0, 1, 2], 1), output_shape=S(2, None), trainable=True)
    yield Case("MatMul", (S(1, 2), S(2)), chain([0, 1]))
    yield Case("MatMul", (S(2, 2), S(2)), chain([-1, 0, 1], 1), output_shape=S(3), trainable=True)
    sq = (S(2, 2), S(2, 2), S(2, 2))
    yield Case("MatMul", sq, chain([0, 1, 2]))
    M = fresh("M", (3, 2))
    yield Case("MatMul", (S(2, 1),), lambda p, d: chain([-1, 0], 1)(M, d), params=M)
    yield Case("MatMul", S(2), lambda p, d: chain([-1, 0], 1)(M, d), (), RC, params=M)
    yield Case("MatMul", S(2, 2), lambda p, d: chain([-1, 0], 1)(M, d), params=M, output_shape=S(3, 2))
    xy = {"x": S(2, 3), "y": [S(1, 2)]}
    yield Case("MatMul", xy, chain([1, 0]), path_order=["y.0", "x"])
    yield Case("MatMul", xy, chain([1, 0]), path_order=["y/0", "x"], separator="/")
    yield Case("MatMul", xy, chain([1, 0], 0), path_order=["y.0", "x"], output_shape=S(1, 3))
    yield Case("MatMul", xy, chain([1, 0, -1], 1), path_order=["y.0", "x", ".."], output_shape=S(1, 2), trainable=True)
    yield Case("MatMul", xy, chain([1, 0, -1], 1), path_order=["y.0", "x", ".."], output_shape=S(None, 2), trainable=True)
    yield Case("MatMul", xy, chain([1, 0, -1], 1), path_order=["y.0", "x", ".."], output_shape=S(1), trainable=True)
    yield Case("MatMul", xy, chain([1, 0, -1], 1), path_order=["y.0", "x", ".."], output_shape=1, trainable=True)
    yield Case("MatMul", xy, chain([1, 0, -1], 1), path_order=["y.0", "x", ".."], trainable=True)
    yield Case("MatMul", xy, chain([1, -1, 0], 1), path_order=["y.0", "..", "x"], trainable=True)
    yield Case("MatMul", xy, chain([0, -1, 1], 1), path_order=["x", "..", "y.0"], trainable=True)
    yield Case("MatMul", xy, chain([0, -1, 1], 1), path_order=["x", "//", "y/0"], trainable=True, separator="/")
    yield Case("MatMul", xy, chain([-1, 1, 0], 1), path_order=["..", "y.0", "x"], trainable=True, output_shape=S(2, 3))
    F = fresh("F", (3, 1))
    yield Case("MatMul", xy, lambda p, d: chain([0, -1, 1], 1)(F, d), path_order=["x", "..", "y.0"], params=F)
    F3 = fresh("F", (2, 2))
    yield Case("MatMul", sq, lambda p, d: chain([2, -1, 0, 1], 1)(F3, d), path_order=["2", "..", "0", "1"], params=F3)
    for o in itertools.permutations(range(3)):
        yield Case("MatMul", {"c": S(2, 2), "a": S(2, 2), "b": S(2, 2)}, chain(list(o)), path_order=["abc"[i] for i in o])
        yield Case("MatMul", ([S(2, 2)], {"k": S(2, 2)}, S(2, 2)), chain(list(o)), path_order=[["0.0", "1.k", "2"][i] for i in o])
    # twelve leaves: numeric, not lexicographic order of the indices
    n = 12
    o = [11, 2, 10, 0, 9, 1, 3, 4, 8, 5, 6, 7]
    shp = [None] * n
    for j, i in enumerate(o):
        shp[i] = S(1 + j % 2, 1 + (j + 1) % 2)
    yield Case("MatMul", shp, chain(o), path_order=[str(i) for i in o])
    yield Case("MatMul", shp, chain([-1] + o, 1), path_order=[".."] + [str(i) for i in o], output_shape=S(2, None), trainable=True)

    # ---- Reshape, Flatten, TreeFlatten, TreeKey, ConcatenateLeaves -----
    yield Case("Reshape", S(2, 3), ident)
    yield Case("Reshape", NEST, ident)
    for a, b in ((S(6), S(2, 3)), (S(2, 3), S(3, 2)), (S(2, 3), S(6)), (S(4), S(1, 2, 2)), (S(1), S())):
        yield Case("Reshape", a, leafwise(lambda x, b=b: rows(x, b.d)), (b,), RC)
    yield Case("Reshape", S(2, 3), leafwise(lambda x: rows(x, (3, 2))), (S(3, -1),))
    yield Case("Reshape", S(2, 3), leafwise(lambda x: rows(x, (6,))), (S(-1),))
    yield Case("Reshape", [S(6), (S(4), S(2, 2))], lambda p, d: [rows(d[0], (2, 3)), (d[1][0], rows(d[1][1], (4,)))], ([S(2, 3), (None, S(-1))],))
    yield Case("Reshape", {"b": S(6), "a": S(4)}, lambda p, d: {"b": rows(d["b"], (3, 2)), "a": rows(d["a"], (2, 2))}, ({"a": S(2, 2), "b": S(3, 2)},))
    yield Case("Reshape", (S(6), S(6)), lambda p, d: (rows(d[0], (3, 2)), rows(d[1], (2, 3))), ((S(3, 2), S(-1, 3)),))
    for s in (S(), S(3), S(2, 3), S(2, 1, 2)):
        yield Case("Flatten", s, leafwise(lambda x, s=s: rows(x, (size(s.d),))), (), RC)
    yield Case("Flatten", NEST, leafwise(lambda x: rows(x, (size(x.shape[1:]),))))
    yield Case("Flatten", (S(2, 2), [S(2, 2)]), leafwise(lambda x: rows(x, (4,))))
    yield Case("TreeFlatten", (S(1), [S(1), {"b": S(1), "a": S(1)}]), lambda p, d: leaves(d))
    yield Case("ConcatenateLeaves", (S(2), [S(2), {"b": S(2), "a": S(2)}]), cat([0, 1, 2, 3], 0), axis=0)
    yield Case("Flatten", [S(2, 2)], leafwise(lambda x: rows(x, (4,))))
    yield Case("TreeFlatten", S(2), lambda p, d: [d])
    for s in (NEST, [S(2), S(1)], {"b": S(1), "a": S(2)}, {"z": {"q": S(2)}, "c": [S(1), (S(3),)]}):
        yield Case("TreeFlatten", s, lambda p, d: leaves(d))
    nest = {"b": [S(2), S(1)], "a": (S(3), {"y": S(2), "x": S(1)})}
    yield Case("TreeKey", nest, ident)
    yield Case("TreeKey", S(2), ident)
    doc = [{"x": S(2), "y": S(3)}, S(1)]
    yield Case("TreeKey", doc, lambda p, d: {"a": d[0]["x"], "b": d[1]}, ({"a": "0.x", "b": "1"},))
    yield Case("TreeKey", doc, lambda p, d: (d[0]["x"], d[1]), (("0.x", "1"),))
    yield Case("TreeKey", doc, lambda p, d: (d[0]["x"], d[1]), (("0|x", "1"),), separator="|")
    yield Case("TreeKey", doc, lambda p, d: d[0], ("0",))
    yield Case("TreeKey", doc, lambda p, d: d[0]["y"], ("0.y",))
    yield Case("TreeKey", nest, lambda p, d: [{"k": d["a"][1]["y"]}, (d["b"][1], d["b"], d["a"][0])], ([{"k": "a.1.y"}, ("b.1", "b", "a.0")],))
    yield Case("TreeKey", nest, lambda p, d: {"second": d["b"][0], "first": d["b"][1]}, ({"second": "b.0", "first": "b.1"},))
    yield Case("TreeKey", [S(1)] * 12, lambda p, d: [d[10], d[2], d[11], d[1]], (["10", "2", "11", "1"],))
    for ax in (None, 0, -1):
        yield Case("ConcatenateLeaves", [S(2), S(3)], cat([0, 1], ax), axis=ax)
    for ax in (None, 1, -1, 2, -2):
        if ax in (1, -2):
            s = {"b": S(2, 1, 2), "a": (S(2, 3, 2), S(2, 2, 2))}
        else:
            s = {"b": S(1, 2, 1), "a": (S(1, 2, 3), S(1, 2, 2))}
        yield Case("ConcatenateLeaves", s, cat([0, 1, 2], ax), axis=ax)
        for po, ix in ((["b", "a.1", "a.0"], [2, 1, 0]), (("a.1", "b", "a.0"), [1, 2, 0])):
            yield Case("ConcatenateLeaves", s, cat(ix, ax), axis=ax, path_order=po)
    yield Case("ConcatenateLeaves", {"b": S(1), "a": [S(2), S(2, 2)]}, cat([0, 1, 2], None), (), RC)
    yield Case("ConcatenateLeaves", {"b": S(1), "a": [S(2), S(2, 2)]}, cat([2, 1, 0], None), path_order=["b", "a/1", "a/0"], separator="/")
    yield Case("ConcatenateLeaves", {"b": S(1), "a": [S(2), S(2, 2)]}, cat([1], None), path_order=["a.1"])
    yield Case("ConcatenateLeaves", S(3), cat([0], None))
    yield Case("ConcatenateLeaves", [S(1)] * 12, cat(list(range(12)), 0), axis=0)
    yield Case("ConcatenateLeaves", [S()] * 3, cat([0, 1, 2], None))

    # ---- Constant, Bias, LinearNN, PReLU, Comment ----------------------
    C = fresh("C", (2, 2))
    c0 = fresh("c", ())
    D = fresh("D", (3,), "complex64")
    D2 = fresh("D2", (3,), "complex64")
    for shp in (S(2), [S(1), {"k": S(3, 2)}]):
        for tr in (True, False):
            yield Case("Constant", shp, const_rows(C), (C,), trainable=tr, known=False)
            yield Case("Constant", shp, const_rows({"a": C, "b": [D, c0]}), ({"a": C, "b": [D, c0]},), trainable=tr)
            yield Case("Constant", shp, const_rows((D, [D2, C])), ((D, [D2, C]),), trainable=tr)
        yield Case("Constant", shp, const_rows(), shape=(S(2), [S(2), S(2)]), trainable=True, real=(True, [False, True]))
        yield Case("Constant", shp, const_rows(c0), (c0,))
        yield Case("Constant", shp, const_rows(nd.nd(2.5)), (2.5,))
        yield Case("Constant", shp, const_rows(), shape=S(2, 1), trainable=True)
        yield Case("Constant", shp, const_rows(), shape={"a": S(2), "b": (S(), S(1, 2))}, trainable=True)
        yield Case("Constant", shp, const_rows(), shape={"a": S(2), "b": S(1)}, trainable=True, real={"a": True, "b": False})
        yield Case("Constant", shp, const_rows(), shape=S(2), trainable=True, real=False)
    for real in (True, False):
        for s in (S(3), S(2, 2), S(), [S(3), S(1)], {"b": S(2), "a": (S(3), S(1, 2))}, (S(2), S(2)), ([S(1)], {"q": S(1), "p": (S(1), S(1))})):
            yield Case("Bias", s, lambda p, d: tmap(lambda x, b: nd.elem2("+", x, b), d, p), (), RC, real=real)
            yield Case("Bias", s, lambda p, d: tmap(lambda x: nd.elem2("+", x, leaves(p)[0]), d), scalar=True, real=real)
    B = fresh("B", (3,))
    yield Case("Bias", S(3), leafwise(lambda x: nd.elem2("+", x, B)), bias=B)
    yield Case("Bias", (S(3), [S(3)]), leafwise(lambda x: nd.elem2("+", x, B)), bias=B)
    yield Case("Bias", S(3), leafwise(lambda x: nd.elem2("+", x, B)), bias=B, trainable=False)
    yield Case("Bias", (S(3), [S(2)]), leafwise(lambda x: nd.elem2("+", x, nd.nd(1.5))), bias=1.5, scalar=True)
    B2 = fresh("B2", (2,))
    yield Case("Bias", {"v": S(2), "u": S(3)}, lambda p, d: {"v": nd.elem2("+", d["v"], B2), "u": nd.elem2("+", d["u"], B)}, bias={"u": B, "v": B2})
    for s in (S(3), S(2, 2), {"a": S(2)}, [S(1, 2)], S()):
        for b in (True, False):
            for real in (True, False):
                yield Case("LinearNN", s, linear(b), (), out_features=2, bias=b, real=real)
            yield Case("LinearNN", s, linear(b, lambda z: nd.elem2("max", z, nd.nd(0))), out_features=2, bias=b, activation=Inst("ReLU"), signs="relu")
    for single in (True, False):
        for real in (True, False):
            for s in (S(2), S(1, 2), S(), [S(2), {"k": S(1)}], (S(2), S(2)), {"b": S(1), "a": S(1)}, {"b": (S(1), [S(1)]), "a": S(1)}, ([S(1), S(1)], (S(1),))):
                yield Case("PReLU", s, prelu(single), single_parameter=single, real=real, signs=True)
    for s in (S(2), NEST):
        yield Case("Comment", s, ident)
        yield Case("Comment", s, ident, ("text",))


def evaluate(prog, c, nb, dtype, pdtype=None, hooks=None):
    m = Mod(prog, c.cls, c.args, hooks=hooks, **c.kw)
    m.compile(c.shape)
    params = m.fresh_params(dtype=pdtype)
    k = itertools.count()
    data = tmap(lambda s: fresh(f"x{next(k)}", (nb,) + s.d, dtype), c.shape)
    return m, params, data


def given(c):
    """parameters fixed by the caller: the documented value does not depend on
    what is in the parameter slot, so the module's own values are used"""
    vals = (list(c.args[:1]) if c.cls in ("Constant", "Bias") else []) + [c.kw.get("params"), c.kw.get("bias"), c.kw.get("constant")]
    return c.cls in ("Constant", "Bias", "Einsum", "MatMul") and any(isinstance(x, (NDA, float)) for x in leaves(vals))


def check(prog, rep, c, nb, dtype):
    tag = f"{c.tag}, {dtype} data, batch of {nb}"
    m = None
    try:
        m, params, data = evaluate(prog, c, nb, dtype)
        if given(c):
            params = m.params()
        got, st, pre = m.forward(params, data)
        want = c.want(params, data)
        if not plain(got):
            raise AnalysisError(f"result {struct(got)} not understood")
        ok = same_tree(want, got)
        rep.ob("container", tag, ok and st is pre, f"the result is {struct(got)}, documented {struct(want)}" if not ok else "the state changes", c.where)
        rep.ob("gradient", tag, not m.cut, f"stop_gradient on a value of the parameters at {m.cut[:1]}", c.where)
        if ok:
            bad = None
            gl, wl = leaves(got), leaves(want)
            envs = [None]
            if c.signs:
                atoms = sorted({a for x in leaves(data) for p in x.v for a in p.atoms()}, key=str) if c.signs is True else []
                envs = [dict(zip(atoms, v)) for v in itertools.product((-2, 0, 3), repeat=len(atoms))] if len(atoms) <= 4 else [dict(zip(atoms, itertools.cycle(v))) for v in itertools.permutations((-2, 0, 3, -1, 5), 3)]
            for i, (g, w) in enumerate(zip(gl, wl)):
                for env in envs:
                    gg, ww = (g, w) if not env else (NDA(g.shape, g.dtype, [poly.resolve(p, env) for p in g.v]), NDA(w.shape, w.dtype, [poly.resolve(p, env) for p in w.v]))
                    bad = bad or differs(gg, ww)
                if bad:
                    bad = f"leaf {i}: {bad}"
                    break
            rep.ob("formula", tag, bad is None, bad or "", c.where)
        rep.ob("accepts", tag, True, "", c.where)
    except Wrong as e:
        rep.ob("formula", tag, False, str(e), c.where)
    except Raised as e:
        rep.ob("accepts", tag, False, str(e), c.where)
    finally:
        if m is not None:
            rep.saw(m.I)


def run(prog, rep):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    names = {c.name for c in concrete_modules(prog)} | {c.name for c in model_classes(prog)}
    for i, c in enumerate(cases(rep.tier)):
        if c.cls not in names:
            continue
        for dt in c.dtypes:
            for nb in ((1, 2, 3) if rep.tier == "thorough" else (1, 2)):
                with rep.unit(c.tag):
                    check(prog, rep, c, nb, dt)
    activations(prog, rep)
    exports(prog, rep)
    with rep.unit("user"):
        user(prog, rep)


USER = """
import jax
import jax.numpy as np
from parametricmatrixmodels.modules import FuncBase

class UserPower(FuncBase):
    __version__ = "0.0.0"
    def __init__(self, k=2):
        self.k = k
    def f(self, data):
        return jax.tree.map(lambda x: x**self.k, data)
    def get_hyperparameters(self):
        return {"k": self.k}

class UserFirst(FuncBase):
    __version__ = "0.0.0"
    def __init__(self):
        pass
    def f(self, data):
        first = jax.tree.leaves(data)[0]
        return jax.tree.map(lambda x: x * first, data)
    def get_hyperparameters(self):
        return {}

class UserHalves(FuncBase):
    __version__ = "0.0.0"
    def __init__(self):
        pass
    def f(self, data):
        return {"a": data[:, :2], "b": [data[:, 0]]}
    def get_hyperparameters(self):
        return {}
"""


def user(prog, rep):
    up = Program(prog.repo, {"userfuncs": USER})
    where = "modules/funcbase.py"
    pw = lambda k: lambda d: tmap(lambda x: _pow(x, k), d)
    halves = lambda d: {"a": _cols(d, 2), "b": [_cols(d, None)]}
    first = lambda d: tmap(lambda x: NDA(x.shape, x.dtype, [p * q for p, q in zip(x.v, leaves(d)[0].v)]), d)
    rows_ = [
        ("UserPower(3)", "UserPower", (), {"k": 3}, S(2), S(2), pw(3)),
        ("UserPower()", "UserPower", (), {}, {"x": S(2), "y": [S()]}, {"x": S(2), "y": [S()]}, pw(2)),
        *((f"UserFirst() on {show(sh)}", "UserFirst", (), {}, sh, sh, first) for sh in ({"x": S(2), "y": [S(2)]}, [S(2), S(2)], (S(2), S(2)))),
        ("UserHalves()", "UserHalves", (), {}, S(3), {"a": S(2), "b": [S()]}, halves),
        ("SequentialModel([UserPower(3), UserHalves()])", "SequentialModel", ([Inst("UserPower", 3), Inst("UserHalves")],), {}, S(3), {"a": S(2), "b": [S()]}, lambda d: halves(pw(3)(d))),
    ]
    for tag, cls, args, kw, sh, osh, want in rows_:
        m = None
        try:
            m = Mod(up, cls, args, **kw)
            if cls != "SequentialModel":
                rep.ob("user", f"{tag}: ready", pyval(m.method("is_ready")) == (True,), "a function module is not ready before compile", where)
                n = pyval(m.method("get_num_trainable_floats"))
                rep.ob("user", f"{tag}: count", n == (0,), f"a function module counts {n!r} trainable floats", where)
            m.compile(sh)
            got = m.out_shape()
            rep.ob("user", f"{tag}: shape", got == osh, f"declares {show(got)}, f gives {show(osh)}", where)
            for nb in (1, 2):
                k = itertools.count()
                data = tmap(lambda s: fresh(f"x{next(k)}", (nb,) + s.d), sh)
                out, st, pre = m.forward(m.params(), data)
                w = want(data)
                if not plain(out):
                    raise AnalysisError(f"result {struct(out)} not understood")
                ok = same_tree(w, out)
                bad = None if ok else f"the result is {struct(out)}, f gives {struct(w)}"
                for g, x in zip(leaves(out), leaves(w)) if ok else ():
                    bad = bad or differs(g, x)
                rep.ob("user", f"{tag}: batch of {nb}", bad is None and (cls == "SequentialModel" or st is pre), bad or "the state changes", where)
        except Wrong as e:
            rep.ob("user", tag, False, str(e), where)
        except Raised as e:
            rep.ob("user", tag, False, str(e), where)
        finally:
            if m is not None:
                rep.saw(m.I)


def _pow(x, k):
    v = x.v
    for _ in range(k - 1):
        v = [p * q for p, q in zip(v, x.v)]
    return NDA(x.shape, x.dtype, list(v))


def _cols(x, n):
    nb, w = x.shape
    return NDA((nb,), x.dtype, [x.v[i * w] for i in range(nb)]) if n is None else NDA((nb, n), x.dtype, [x.v[i * w + j] for i in range(nb) for j in range(n)])


# other public names of the same jax function
ALIASES = [("abs", "absolute"), ("acos", "arccos"), ("acosh", "arccosh"), ("asin", "arcsin"), ("asinh", "arcsinh"), ("atan", "arctan"), ("atanh", "arctanh"), ("atan2", "arctan2"),
           ("conj", "conjugate"), ("deg2rad", "radians"), ("rad2deg", "degrees"), ("amax", "max"), ("amin", "min"), ("pow", "power"), ("invert", "bitwise_not", "bitwise_invert"), ("round", "around")]
NNALIASES = [("jax.nn.silu", "jax.nn.swish"), ("jax.nn.hard_silu", "jax.nn.hard_swish"), ("jax.nn.logsumexp", "jax.scipy.special.logsumexp"), ("jax.nn.sigmoid", "jax.scipy.special.expit"),
             ("jax.nn.softmax", "jax.scipy.special.softmax"), ("jax.nn.log_softmax", "jax.scipy.special.log_softmax")]


def canonical():
    names = {}
    for f in set(TABLE.values()):
        names[f] = f
    for g in [tuple("jax.numpy." + x for x in a) for a in ALIASES] + NNALIASES:
        for x in g:
            names[x] = g[0]
    return names


def _reject(name):
    raise nd.Bad(f"{name} of a container of arrays")


def act_hook(name):
    def hook(I, fn, args, kwargs, st, node):
        x = I.snap(st, args[0]) if args else None
        if x is None or x.op != "nd":
            if x is not None and x.op in ("tuple", "list", "dict"):
                return I.ndop(st, node, lambda: nd.psum(_reject(name)))
            raise AnalysisError(f"{name} is not applied to an array")
        key = ("act", name, x, tuple(I.snap(st, a) for a in args[1:]), tuple(sorted((k, I.snap(st, v)) for k, v in kwargs.items())))
        a = x.args[0]
        return T("nd", NDA(a.shape, a.dtype, [P(poly.Atom(key + (ix,), real=True)) for ix in a.indices()]))
    return hook


def activations(prog, rep):
    names = canonical()
    hooks = {n: act_hook(c) for n, c in names.items()}
    for ci in sorted(concrete_modules(prog), key=lambda c: c.name):
        if not any(b.name == "ActivationBase" for b in prog.mro(ci)[1:]):
            continue
        fn = TABLE.get(ci.name)
        if fn is None:
            m = re.search(r"``(jax\.[\w.]+)``", ast.get_docstring(ci.node) or "")
            fn = m.group(1) if m else None
        if fn is None:
            continue
        canon = names.get(fn, fn)
        hk = hooks if fn in hooks else {**hooks, fn: act_hook(fn)}
        for args, kw in (((), {}), ((T("sym", "second"),), {}), ((), {"axis": T("sym", "ax")}), ((T("sym", "second"), 2), {"k": 0.5})):
            for shape in (S(2), {"b": S(1, 2), "a": [S(1)]}):
                tag = f"{ci.name}({', '.join([str(a) for a in args] + [f'{k}={v}' for k, v in kw.items()])}) on {show(shape)}"
                where = f"{prog.rel(ci.module.path)}:{ci.node.lineno}"
                with rep.unit(tag):
                    try:
                        m = Mod(prog, ci.name, args, hooks=hk, **kw)
                        m.compile(shape)
                        k = itertools.count()
                        data = tmap(lambda s: fresh(f"x{next(k)}", (2,) + s.d), shape)
                        got, st, pre = m.forward(m.params(), data)
                        want = tmap(lambda x: act_hook(canon)(m.I, None, [T("nd", x)] + [thaw(m.I, m.st, a) for a in args], {a: thaw(m.I, m.st, b) for a, b in kw.items()}, m.st, None).args[0], data)
                        if not plain(got):
                            raise AnalysisError(f"result {struct(got)} not understood")
                        ok = same_tree(got, want) and st is pre
                        bad = None
                        for g, w in zip(leaves(got), leaves(want)) if ok else ():
                            bad = bad or differs(g, w, known={("act", n) for n in set(names.values()) | {canon}})
                        rep.ob("activation", tag, ok and bad is None, f"{bad or struct(got)}; documented: {fn} of every leaf with these arguments"[:300], where)
                        rep.saw(m.I)
                    except Raised as e:
                        rep.ob("accepts", tag, False, str(e), where)


def exports(prog, rep):
    """every name in __all__ of a package module is bound there"""
    for mod in sorted(prog.modules.values(), key=lambda m: m.name):
        names = None
        for n in mod.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets) and isinstance(n.value, (ast.List, ast.Tuple)):
                names = [e.value for e in n.value.elts if isinstance(e, ast.Constant)]
        if names is None or any(isinstance(n, ast.FunctionDef) and n.name == "__getattr__" for n in mod.tree.body) or any(isinstance(n, ast.Name) and n.id in ("globals", "exec", "setattr", "vars") for n in ast.walk(mod.tree)):
            continue
        bound = {n.id for n in ast.walk(mod.tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for x in names:
            r = prog.resolve(mod, x)
            ok = x in bound or r is not None and not (r[0] == "ext" and r[1].startswith("parametricmatrixmodels."))
            rep.ob("exports", f"{mod.name}.{x}", ok, f"__all__ lists {x!r} but {mod.name} does not define it", prog.rel(mod.path))
