"""P22: limiting the batch size does not change what is evaluated.

model_util.autobatch is analysed for an opaque evaluation function and input
trees of constant sample counts: every call of the function is recorded with
the rows it was given, and the rows of the result are traced back to the rows
of the input."""
from .trainutil import rows
from .common import *

FN = T("ext", "user.FN")
SIZES = [(7, 3), (6, 3), (3, 3), (2, 3), (4, 1), (1, 1), (5, 4), (8, 2), (8, 3), (7, 4)]


def arr(name, n, *rest):
    return T("arr", T("sym", name), T("tuple", const(n), *[const(r) for r in rest]))


def fn_hook(shape):
    def hook(I, fn, args, kwargs, st, node):
        names = ("params", "X", "training", "state", "rng")
        a = {**dict(zip(names, args)), **kwargs}
        if set(a) != set(names):
            return None
        a = {k: I.snap(st, v) for k, v in a.items()}
        ls = leaves(a["X"])
        n = ls[0].args[1].args[0] if ls[0].op == "arr" else const(0)
        base = T("call", FN, tuple(a[k] for k in names), ())
        out = [T("arr", T("out", base, const(j)), T("tuple", n, *[const(r) for r in s])) for j, s in enumerate(shape)]
        I.emit("fn", st, node, call=base, n=n)
        return T("tuple", out[0] if len(out) == 1 else T("tuple", *out), T("newstate", base))
    return hook


def leaves(t):
    if t.op in ("tuple", "list"):
        return [y for x in t.args for y in leaves(x)]
    if t.op == "dict":
        return [y for _, x in t.args[0] for y in leaves(x)]
    return [t]


def outrows(t, n):
    """[(call, output leaf, row of that call)] of a result leaf; n: rows of each call"""
    if t.op == "arr":
        return outrows(t.args[0], n)
    if t.op == "concat":
        return [r for x in t.args for r in outrows(x, n)]
    if t.op == "out":
        return [(t.args[0], t.args[1].args[0], i) for i in range(n[t.args[0]])]
    if t.op == "item" and t.args[1].op == "slice" and all(x is NONE or x.op == "const" for x in t.args[1].args):
        return outrows(t.args[0], n)[slice(*[x.args[0] for x in t.args[1].args])]
    if t.op == "item" and t.args[1].op == "const":
        return [outrows(t.args[0], n)[t.args[1].args[0]]]
    if t.op == "expand":
        return outrows(t.args[0], n)
    if t.op == "call" and extname(t.args[0]) == "jax.pure_callback" and len(t.args[1]) >= 3:
        return outrows(t.args[1][2], n)
    raise AnalysisError(f"result {short(t)} is not understood")


TREES = {
    "array": (lambda n: arr("X", n, 3), [(2,)]),
    "vector": (lambda n: arr("X", n), [(2,)]),
    "tree": (lambda n: T("tuple", arr("X", n, 3), arr("Z", n), arr("W", n, 2, 2)), [(2,), (4, 2)]),
    "tree-vector-out": (lambda n: T("tuple", arr("X", n, 3), arr("Z", n, 2)), [(), (3,)]),
}


def run(prog, rep):
    rep.rule("evaluates", "batched evaluation returns without error whenever the function itself would", 40)
    rep.rule("rows", "row i of every result leaf is the evaluation of sample i, each sample evaluated exactly once with all input leaves from the same samples", 40)
    rep.rule("limit", "no evaluation gets more samples than the limit; without a limit, or with few samples, there is one evaluation", 40)
    rep.rule("arguments", "every evaluation gets the given parameters, mode flag and RNG, and the state returned by the previous one; the last state is returned", 40)
    for kind, (mk, shape) in TREES.items():
        for avoid in (False, True):
            for verbose in (False, True):
                for n, mx in SIZES + [(5, None)]:
                    if verbose and rep.tier == "quick" and (kind != "tree" or (n, mx) not in ((7, 3), (6, 3))):
                        continue
                    with rep.unit(f"{kind}/{avoid}/{n}/{mx}"):
                        one(prog, rep, kind, mk, shape, avoid, verbose, n, mx)


def one(prog, rep, kind, mk, shape, avoid, verbose, n, mx):
    I = Interp(prog)
    I.unroll = True
    st = State()
    I.hooks["user.FN"] = fn_hook(shape)
    I.hooks["jax.pure_callback"] = lambda I_, fn, args, kwargs, s, node: args[2] if len(args) > 2 else None
    where = "parametricmatrixmodels.model_util"
    ab = I.get_attr(T("pkgmod", where), "autobatch", st, None)
    g = I.call(ab, [FN, const(mx)], {"avoid_recompilation": const(avoid), "verbose": const(verbose)}, st, None)
    P, TR, S, R = (T("sym", x) for x in ("P", "TR", "S", "R"))
    X = mk(n)
    r = I.snap(st, I.call(g, [P, X, TR, S, R], {}, st, None))
    rep.saw(I)
    tag = f"autobatch/{kind}/N={n},max={mx}{'/avoid_recompilation' if avoid else ''}{'/verbose' if verbose else ''}"
    bad = [e for e in I.events if e.kind == "badindex"]
    ok = alive(st) and not bad
    rep.ob("evaluates", tag, ok, f"raises: indexing {short(bad[0].data['obj'])} with {short(bad[0].data['key'])}" if bad else "raises", where)
    if not ok:
        return
    evs = [e for e in I.events if e.kind == "fn"]
    if r.op != "tuple" or len(r.args) != 2:
        raise AnalysisError(f"the result is {short(r)}")
    out, ns = r.args
    cn = {e.data["call"]: e.data["n"].args[0] for e in evs}
    calls = [e.data["call"] for e in evs]
    sz = {"X": n, "Z": n, "W": n}
    err = None
    inrows = {}
    for c in calls:
        per = [rows(x, sz) for x in leaves(c.args[1][1])]
        ids = [[i for _, i in p] for p in per]
        if [p[0][0] for p in per if p] != [x.args[0].args[0] for x in leaves(X)]:
            err = f"the function is given {short(c.args[1][1])}"
        if any(x != ids[0] for x in ids):
            err = "the input leaves of one evaluation hold different samples"
        inrows[c] = ids[0]
    if err is None:
        used = sorted(i for c in calls for i in inrows[c])
        if used != list(range(n)):
            err = f"samples evaluated: {used} of {n}"
    if err is None:
        lo = leaves(out)
        if len(lo) != len(shape):
            err = f"the result has {len(lo)} leaves instead of {len(shape)}"
        for j, x in enumerate(lo):
            rr = outrows(x, cn)
            got = [inrows[c][i] if k == j else None for c, k, i in rr]
            if got != list(range(n)):
                err = f"the rows of result leaf {j} are the evaluations of samples {got}"
    rep.ob("rows", tag, err is None, err or "", where)
    big = [v for v in cn.values() if mx is not None and v > mx]
    m = None
    if big:
        m = f"an evaluation gets {max(big)} samples"
    elif (mx is None or n <= mx) and len(calls) != 1:
        m = f"{len(calls)} evaluations"
    rep.ob("limit", tag, m is None, m or "", where)
    m = None
    prev = S
    for c in calls:
        a = c.args[1]
        if a[0] is not P or a[2] is not TR or a[4] is not R:
            m = f"an evaluation gets params={short(a[0])}, training={short(a[2])}, rng={short(a[4])}"
        if a[3] is not prev:
            m = f"an evaluation gets state {short(a[3])} instead of {short(prev)}"
        prev = T("newstate", c)
    if m is None and ns is not prev:
        m = f"the returned state is {short(ns)}"
    rep.ob("arguments", tag, m is None, m or "", where)

