"""P16: the registered loss functions compute their documented formulas.

make_loss_fn is analysed for every registered name with an opaque model
function, on array targets and on trees of differently shaped leaves; the
returned loss is compared, in a normal form over abs / sqrt / sum, with the
formula of its name."""
import ast

from .common import *
from .elem import Elem

M = T("ext", "user.MODEL")
EPS = const(1e-4)


def sub(a, b):
    return T("+", a, T("neg", b))


def absx(x):
    return T("call", T("ext", "jax.numpy.abs"), (x,), ())


def sqrt(x):
    return T("call", T("ext", "jax.numpy.sqrt"), (x,), ())


def sq(x):
    return T("**", x, const(2))


def huber(delta):
    d = const(delta)
    return lambda p, y, u: T("*", sq(d), sub(sqrt(T("+", const(1), sq(T("/", absx(sub(p, y)), d)))), const(1)))


def rd(p, y):
    return T("+", T("*", T("+", y, p), const(2.0)), EPS)


FORM = {
    "mse": lambda p, y, u: sq(absx(sub(p, y))),
    "mae": lambda p, y, u: absx(sub(p, y)),
    "pseudo_huber": huber(1.0),
    "pseudo_huber:2.0": huber(2.0),
    "pseudo_huber:0.25": huber(0.25),
    "pseudo_huber:1.5": huber(1.5),
    "mse_unc": lambda p, y, u: sq(T("/", absx(sub(p, y)), u)),
    "mae_unc": lambda p, y, u: T("/", absx(sub(p, y)), u),
    "mre": lambda p, y, u: absx(T("/", sub(p, y), T("+", y, EPS))),
    "mre_unc": lambda p, y, u: absx(T("/", sub(p, y), T("*", T("+", y, EPS), u))),
    "mrd": lambda p, y, u: absx(T("/", sub(p, y), rd(p, y))),
    "mrd_unc": lambda p, y, u: absx(T("/", sub(p, y), T("*", rd(p, y), u))),
    "mse_unsupervised": lambda p, y, u: sq(absx(sub(p, y))),
    "mae_unsupervised": lambda p, y, u: absx(sub(p, y)),
    "mre_unsupervised": lambda p, y, u: absx(T("/", sub(p, y), T("+", y, EPS))),
}
UNKNOWN = ["", "MSE", "mse_", "mean", "unc", "mse_unc_unsupervised", "mae2", "huber"]


def tree(I, st, kind, prefix):
    s = [T("sym", f"$leaf{prefix}{j}") for j in range({"array": 1, "tuple": 2, "dict": 2, "nested": 3}[kind])]
    if kind == "array":
        return s[0], s
    if kind == "tuple":
        return T("tuple", *s), s
    if kind == "nested":
        return T("tuple", s[0], T("tuple", s[1], s[2])), s
    return I.new_dict(st, [(const("a"), s[0]), (const("b"), s[1])]), s


def run(prog, rep):
    rep.rule("formula", "the loss is the mean over all elements of all leaves of the formula of its name", 30)
    rep.rule("model", "the loss evaluates the model once, on the given inputs, parameters, mode flag, state and RNG, and returns the state the model returns", 30)
    rep.rule("evaluates", "the loss does not raise on a tree whose leaves differ in shape", 30)
    rep.rule("unknown", "a name that is not registered is refused", 6)
    rep.assume("uncertainties are positive reals; predictions and targets of one leaf have one shape")
    for name in FORM:
        for kind in ("array", "tuple", "nested", "dict"):
            with rep.unit(f"{name}/{kind}"):
                one(prog, rep, name, kind)
    for name in UNKNOWN:
        with rep.unit(f"unknown/{name}"):
            I, st = Interp(prog), State()
            mk = I.get_attr(T("pkgmod", "parametricmatrixmodels.training"), "make_loss_fn", st, None)
            I.call(mk, [const(name), M], {}, st, None)
            rep.ob("unknown", f"make_loss_fn({name!r})", not alive(st), "an unknown loss name is accepted", "parametricmatrixmodels.training.make_loss_fn")


def one(prog, rep, name, kind):
    I, st = Interp(prog), State()
    X, xs = tree(I, st, kind, "x")
    Y, ys = tree(I, st, kind, "y")
    U, us = tree(I, st, kind, "u")
    Pd, ps = tree(I, st, kind, "p")
    unsup = name.endswith("_unsupervised")
    NS = T("sym", "NEWSTATE")
    calls = []

    def model(I_, fn, args, kwargs, s, node):
        calls.append((tuple(I_.snap(s, a) for a in args), {k: I_.snap(s, v) for k, v in kwargs.items()}))
        return T("tuple", Pd, NS)
    I.hooks["user.MODEL"] = model
    where = "parametricmatrixmodels.training.make_loss_fn"
    mk = I.get_attr(T("pkgmod", "parametricmatrixmodels.training"), "make_loss_fn", st, None)
    f = I.call(mk, [const(name), M], {}, st, None)
    rest = [T("sym", n) for n in ("PARAMS", "TRAINING", "STATE", "RNG")]
    args = [T("sym", "EPOCH"), X]
    if not unsup:
        args.append(Y)
    if name.endswith("_unc"):
        args.append(U)
    tag = f"{name}/{kind}"
    r = I.snap(st, I.call(f, args + rest, {}, st, None))
    rep.saw(I)
    why = None if alive(st) else "raises"
    if kind != "array" and why is None:
        why = tied(prog, I)
    rep.ob("evaluates", tag, why is None, why or "", where)
    if not alive(st):
        return
    if r.op != "tuple" or len(r.args) != 2:
        raise AnalysisError(f"the loss returns {short(r)}")
    m = None
    names = ("X", "params", "training", "state", "rng")
    if len(calls) != 1:
        m = f"the model is evaluated {len(calls)} times"
    else:
        a = list(calls[0][0])
        if calls[0][1]:
            raise AnalysisError("the model is called with keywords")
        for n, got, want in zip(names, a, [I.snap(st, X)] + rest):
            if got is not want and not same(got, want):
                m = f"the model gets {short(got)} as {n}"
        if len(a) != 5:
            m = f"the model gets {len(a)} arguments"
    if m is None and r.args[1] is not NS:
        m = f"the returned state is {short(r.args[1])}"
    rep.ob("model", tag, m is None, m or "", where)
    ref = xs if unsup else ys
    E = Elem(positive=us, leaf_of=lambda t: int(t.args[0][6:]) if t.op == "sym" and t.args[0].startswith("$leaf") else None)
    want = T("/", T("+", *[T("call", T("ext", "jax.numpy.sum"), (FORM[name](p, y, u),), ()) for p, y, u in zip(ps, ref, us)], const(0)),
             T("+", *[T("attr", p, "size") for p in ps], const(0)))
    ok = E.eq(r.args[0], want)
    rep.ob("formula", tag, ok, f"the loss is {short(r.args[0], 400)}", where)


def same(a, b):
    return strip_conv(a) is strip_conv(b)


def tied(prog, I):
    """a runtime-checked annotation on the way ties the shapes of the leaves together"""
    for q in sorted(I.funcs_seen):
        mod, _, nm = q.partition(":")
        g = prog.modules[mod].globals.get(nm) if mod in prog.modules else None
        if g is None or g[0] != "func":
            continue
        node = g[1].node
        if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) or not checked(node):
            continue
        a = node.args
        for ann in [x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs] + [node.returns]:
            for d in tying(ann):
                return f"{q} is runtime-checked and its annotation \"{d}\" requires all leaves of a tree to have one shape"
    return None


def checked(node):
    return any("jaxtyped" in ast.dump(d) or "beartype" in ast.dump(d) for d in node.decorator_list)


def tying(ann):
    if ann is None:
        return
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return
    for n in ast.walk(ann):
        if isinstance(n, ast.Subscript) and (getattr(n.value, "id", None) or getattr(n.value, "attr", None)) == "PyTree":
            first = n.slice.elts[0] if isinstance(n.slice, ast.Tuple) else n.slice
            for s in ast.walk(first):
                if isinstance(s, ast.Subscript) and isinstance(s.slice, ast.Tuple) and len(s.slice.elts) == 2:
                    dims = s.slice.elts[1]
                    if isinstance(dims, ast.Constant) and isinstance(dims.value, str):
                        for d in dims.value.split():
                            if d not in ("...", "_", "*_") and "?" not in d and not d.lstrip("#*").startswith("_"):
                                yield dims.value
