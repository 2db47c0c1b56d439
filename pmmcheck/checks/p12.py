"""P12: prediction and gradients use the current parameters, state and RNG in
inference mode, and change nothing.

The entry points are evaluated on a ready model with opaque modules (nothing
cached yet); the value graph of the result must be the model's evaluation
function applied to (get_params(), cast X, False, get_state(), rng), the
Jacobian of it with respect to the parameters, or the per-sample Jacobian with
respect to the input.  A second call with other batching options on the same
model must use those options.  Writes to the model and calls to setters are
collected as effects with their guards."""
from .common import *

M = leafsyms("m", 3)
X = T("sym", "X")
R = T("sym", "rng")
ENTRY = ("__call__", "predict", "grad_input", "grad_params")
SET = ("set_params", "set_state", "set_rng", "set_hyperparameters", "reset", "deserialize", "set_precision")
OPQ = ("_verify_input", "_get_callable", "get_params", "get_state", "get_rng") + tuple(s for s in SET if s != "reset")


def ready(prog, ci, extra=()):
    I = Interp(prog)
    st = State()
    A = I.sym_instance(st, ci, "A", {"modules": I.new_list(st, list(M))})
    I.call_method(A, "reset", [], {}, st, ci.node)
    for f in ("input_shape", "output_shape", "execution_order"):
        I.set_attr(A, f, T("sym", "$new_" + f), st, ci.node)
    I.set_attr(A, "_optimizer_state", T("sym", "$opt"), st, ci.node)
    I.hooks[method(prog, ci, "is_ready").qual] = lambda *a: TRUE
    for m in OPQ:
        I.opaque.add(method(prog, ci, m).qual)
    I.opaque.add("parametricmatrixmodels.tree_util:safecast")
    I.opaque |= set(extra)
    return I, st, A


def mcall(prog, ci, name):
    """term of the opaque call A.name()"""
    return T("call", T("ext", method(prog, ci, name).qual), (), (("self", T("sym", "A")),))


def is_fn(t, qual):
    return t.op == "call" and extname(t.args[0]) == qual


def is_mcall(t, prog, ci, name):
    return is_fn(t, method(prog, ci, name).qual)


def is_cast(t):
    return is_fn(t, "parametricmatrixmodels.tree_util:safecast") and any(v is X for _, v in t.args[2]) and any(v is T("sym", "dtype") for _, v in t.args[2])


def with_rng(kind):
    def v(x):
        if x is T("is", R, NONE):
            return kind == "none"
        if x.op == "isinst" and x.args[0] is R and x.args[1] is T("ext", "builtins.int"):
            return kind == "int"
        return None
    return v


def rng_ok(t, kind, prog, ci):
    t = assume(t, with_rng(kind))
    if kind == "none":
        return is_mcall(t, prog, ci, "get_rng") or t is T("attr", T("sym", "A"), "rng")
    if kind == "int":
        return t.op == "call" and extname(t.args[0]) in ("jax.random.key", "jax.random.PRNGKey") and t.args[1] == (R,)
    return t is R


def args_ok(a, prog, ci, kind):
    if len(a) != 5:
        return f"called with {len(a)} arguments"
    if not is_mcall(a[0], prog, ci, "get_params"):
        return f"parameters are {short(a[0])}"
    if a[2] is not FALSE:
        return f"training flag is {short(a[2])}"
    if not is_mcall(a[3], prog, ci, "get_state"):
        return f"state is {short(a[3])}"
    if not rng_ok(a[4], kind, prog, ci):
        return f"rng ({kind}) is {short(a[4])}"
    return None


def eval_call(t, prog, ci, kind, data=is_cast):
    """t = callable(params, X, False, state, rng)"""
    if not (t.op == "call" and is_mcall(t.args[0], prog, ci, "_get_callable")):
        return f"result comes from {short(t)}"
    m = args_ok(t.args[1], prog, ci, kind)
    if m:
        return m
    if not data(t.args[1][1]):
        return f"data is {short(t.args[1][1])}"
    return None


def strip_item(t, i):
    if t.op == "item" and t.args[1] is const(i):
        return t.args[0]
    return None


def out_ok(e, v, prog, ci, kind):
    if e in ("__call__", "predict"):
        c = strip_item(v, 0)
        return eval_call(c, prog, ci, kind) if c is not None else f"returns {short(v)}"
    if e == "grad_params":
        if not (v.op == "gradof" and v.args[0] == "jac" and v.args[1] in (0, const(0))):
            return f"is not the Jacobian with respect to the parameters: {short(v)}"
        c = strip_item(v.args[2], 0)
        return eval_call(c, prog, ci, kind) if c is not None else f"differentiates {short(v.args[2])}"
    # grad_input
    if not (v.op == "vm" and v.args[1] in (0, const(0))):
        return f"is not stacked over samples: {short(v)}"
    g = v.args[0]
    if not (g.op == "gradof" and g.args[0] == "jac" and g.args[1] in (1, const(1))):
        return f"is not the per-sample Jacobian with respect to the input: {short(g)}"
    m = args_ok(g.args[3], prog, ci, kind)
    if m:
        return m
    row = g.args[3][1]
    if not (row.op == "row" and is_cast(row.args[0]) and row.args[1] in (0, const(0))):
        return f"the sample is {short(row)}"
    cs = {y for y in walk(g.args[2]) if y.op == "call" and is_mcall(y.args[0], prog, ci, "_get_callable")}
    if len(cs) != 1:
        return "does not differentiate one evaluation"
    return eval_call(next(iter(cs)), prog, ci, kind, data=lambda d: contains(d, lambda y: y is row))


SHAPES = {"array": (3,), "vector": (), "tree": ((3,), (1,), (2, 4)), "tree-mixed-rank": ((), (5,), (3, 2, 2))}


def accepts(prog, rep, ci, e, tag, shapes):
    """a dictionary of leaves of unrelated shapes goes through"""
    I, st, A = ready(prog, ci)
    mk = lambda i, s: T("arr", T("sym", f"X{i}"), T("tuple", const(7), *[const(d) for d in s]))
    nested = shapes and isinstance(shapes[0], tuple)
    data = T("tuple", *[mk(i, s) for i, s in enumerate(shapes)]) if nested else mk(0, shapes)
    I.opaque.discard("parametricmatrixmodels.tree_util:safecast")
    I.hooks["parametricmatrixmodels.tree_util:safecast"] = lambda I_, fn, args, kwargs, s, node: args[0] if args else kwargs.get("arr")
    I.call_method(A, e, [data], {"max_batch_size": const(3)}, st, ci.node)
    rep.saw(I)
    bad = [x for x in I.events if x.kind == "annot"]
    rep.ob("accepts", f"{ci.qual}.{e}/{tag}", not bad, "; ".join(sorted({f"{x.data['qual']}: {x.data['param']}: {x.data['why']}" for x in bad})), ci.module.name)


def run(prog, rep):
    rep.rule("value", "the result is the model's evaluation function (or its Jacobian w.r.t. parameters / per sample w.r.t. the input) at (current parameters, the given data, inference mode, current state, the requested RNG)", 20)
    rep.rule("return-state", "the new state is returned exactly when return_state is set", 8)
    rep.rule("effects", "nothing but evaluation caches is written; the state is set, to the new state, exactly when update_state is set", 8)
    rep.rule("options", "a later call with other batching options uses those options", 8)
    rep.rule("accepts", "no runtime-checked annotation on the way rejects a tree of inputs whose leaves differ in shape", 16)
    for ci in model_classes(prog):
        for e in ENTRY:
            for tag, shapes in SHAPES.items():
                with rep.unit(f"{ci.qual}.{e}/{tag}"):
                    accepts(prog, rep, ci, e, tag, shapes)
        caches = cache_attrs(prog, ci)
        for e in ENTRY:
            with rep.unit(f"{ci.qual}.{e}"):
                I, st, A = ready(prog, ci)
                kw = {k: T("sym", k) for k in ("rng", "return_state", "update_state", "dtype")}
                mark = len(I.events)
                v = I.snap(st, I.call_method(A, e, [X], kw, st, ci.node))
                rep.saw(I)
                on = lambda n, d: lambda x: d if x is T("sym", n) else None
                v0 = assume(v, on("return_state", False))
                v1 = assume(v, on("return_state", True))
                for kind in ("none", "int", "key"):
                    m = out_ok(e, assume(v0, with_rng(kind)), prog, ci, kind) if alive(st) else "raises"
                    rep.ob("value", f"{ci.qual}.{e}/rng={kind}", m is None, m or "", ci.module.name)
                ok = v1.op == "tuple" and len(v1.args) == 2 and v1.args[0] is v0 and v0.op != "tuple" and state_of(v1.args[1], prog, ci)
                rep.ob("return-state", f"{ci.qual}.{e}", ok, f"with return_state the result is {short(v1)}, without {short(v0)}", ci.module.name)
                bad = []
                nset = 0
                for x in I.events[mark:]:
                    if x.kind == "setattr" and x.data["obj"] is A:
                        f = x.data["attr"]
                        if f not in caches:
                            bad.append(f"writes attribute {f}")
                    elif x.kind == "call":
                        q = extname(x.data["fn"]) or ""
                        for s in SET:
                            if q == method(prog, ci, s).qual:
                                pcs = [(assume(c, on("update_state", False)), pol) for c, pol in x.pc]
                                if s != "set_state" or not any(c.op == "const" and bool(c.args[0]) != pol for c, pol in pcs):
                                    bad.append(f"calls {s} without update_state")
                                    continue
                                nset += 1
                                vals = [t for k, t in x.data["result"].args[2] if k != "self"]
                                if len(vals) != 1 or not state_of(vals[0], prog, ci) or vals[0] is not v1.args[1]:
                                    bad.append(f"sets the state to {[short(t) for t in vals]}")
                                pc1 = [(assume(c, on("update_state", True)), pol) for c, pol in x.pc]
                                if any(c.op != "const" or bool(c.args[0]) != pol for c, pol in pc1):
                                    bad.append("update_state alone does not set the state")
                if nset != 1:
                    bad.append("update_state sets the state %d times" % nset)
                rep.ob("effects", f"{ci.qual}.{e}", not bad, "; ".join(sorted(set(bad))), ci.module.name)
                # options of a second call
                I, st, A = ready(prog, ci, ("parametricmatrixmodels.model_util:autobatch",))
                for i in (1, 2):
                    k2 = {"max_batch_size": T("sym", f"m{i}"), "avoid_recompilation": T("sym", f"a{i}"), "dtype": T("sym", "dtype")}
                    v = I.snap(st, I.call_method(A, e, [X], k2, st, ci.node))
                rep.saw(I)
                for tag, eqm, eqa in (("same", True, True), ("max_batch_size", False, True), ("avoid_recompilation", True, False)):
                    def ev(x):
                        if x.op == "==":
                            s = {y.args[0] for y in walk(x) if y.op == "sym"}
                            if s <= {"m1", "m2"} and len(s) == 2:
                                return eqm
                            if s <= {"a1", "a2"} and len(s) == 2:
                                return eqa
                            if {"m1", "m2", "a1", "a2"} <= s:
                                return eqm and eqa
                        return None
                    w = assume(v, ev)
                    abs_ = {y for y in walk(w) if is_fn(y, "parametricmatrixmodels.model_util:autobatch")}
                    ok = bool(abs_)
                    msg = "is not batched"
                    for ab in abs_:
                        a = dict(ab.args[2])
                        same = lambda n, eq: a.get("max_batch_size" if n == "m" else "avoid_recompilation") in ((T("sym", n + "1"), T("sym", n + "2")) if eq else (T("sym", n + "2"),))
                        ok = ok and same("m", eqm) and same("a", eqa)
                        msg = f"uses max_batch_size={short(a.get('max_batch_size'))}, avoid_recompilation={short(a.get('avoid_recompilation'))}"
                    rep.ob("options", f"{ci.qual}.{e}/{tag}", ok, f"second call (m2, a2) {msg}", ci.module.name)


def cache_attrs(prog, ci):
    """attributes reset() clears, except the compiled shapes and the optimizer"""
    I = Interp(prog)
    st = State()
    A = I.sym_instance(st, ci, "A")
    I.call_method(A, "reset", [], {}, st, ci.node)
    return {f for f, v in I.obj(st, A).fields.items() if is_empty(I.snap(st, v))} - {"input_shape", "output_shape", "execution_order", "_optimizer_state", "rng", "modules"}


def state_of(t, prog, ci):
    """t is the second component of the evaluation (possibly per sample)"""
    if t.op == "vm":
        t = t.args[0]
    c = strip_item(t, 1)
    return c is not None and c.op == "call" and is_mcall(c.args[0], prog, ci, "_get_callable")
