"""P09: evaluation is guarded by readiness and by the compiled input shape.

is_ready() is evaluated over models with opaque modules and must be exactly
"there are modules, all (executed) ones are ready, both shapes known".  Every
entry point is then evaluated (a) on an unready model: it must raise on every
path, before evaluating anything; (b) on a ready model compiled for shape s
with inputs of shape (N, *s'): it must raise exactly when s' differs from s, for
single arrays and for trees of arrays."""
from .common import *

ENTRY = ("__call__", "predict", "grad_input", "grad_params")
PREC = ("set_precision", "astype")


def shape(*dims):
    return T("tuple", *[const(d) if isinstance(d, int) else d for d in dims])


N = T("sym", "N")


def arr(I, st, prog, name, *dims):
    return I.sym_instance(st, prog.get_class("BaseModule"), name, {"shape": shape(N, *dims)})


def inputs(I, st, prog):
    """(tag, compiled shape, X, matches)"""
    a = lambda n, *d: arr(I, st, prog, n, *d)
    D = lambda **k: I.new_dict(st, [(const(n), v) for n, v in k.items()])
    L = lambda *x: I.new_list(st, list(x))
    out = []
    s = shape(3, 5)
    out += [("array/same", s, a("X", 3, 5), True), ("array/first-dim", s, a("X", 4, 5), False),
            ("array/last-dim", s, a("X", 3, 4), False), ("array/rank-1", s, a("X", 3), False),
            ("array/rank+1", s, a("X", 3, 5, 1), False), ("array/swapped", s, a("X", 5, 3), False),
            ("vector/same", shape(3), a("X", 3), True), ("vector/other", shape(3), a("X", 2), False)]
    for k, mk in (("dict", lambda *v: D(**dict(zip("ab", v)))), ("list", lambda *v: L(*v))):
        sh = mk(shape(3), shape(2, 2))
        out += [(f"{k}/same", sh, mk(a("X0", 3), a("X1", 2, 2)), True),
                (f"{k}/second-leaf", sh, mk(a("X0", 3), a("X1", 2, 3)), False),
                (f"{k}/first-leaf", sh, mk(a("X0", 4), a("X1", 2, 2)), False),
                (f"{k}/swapped", sh, mk(a("X0", 2, 2), a("X1", 3)), False),
                (f"{k}/missing-leaf", sh, mk(a("X0", 3)), False)]
    return out


def run(prog, rep):
    rep.rule("ready", "is_ready() holds exactly when there are modules, every (executed) module is ready and both shapes are known", 10)
    rep.rule("unready-raises", "prediction, gradients and precision changes raise on a model that is not ready, before evaluating anything", 20)
    rep.rule("shape-guard", "prediction, gradients and training raise exactly when the input's shapes (without the batch axis) differ from the compiled ones", 100)
    rep.rule("callable-ready", "a model that is not ready gives out no evaluation function", 2)
    ms = leafsyms("m", 3)
    for ci in model_classes(prog):
        # --- is_ready
        for kind in ("list", "dict"):
            names = ["0", "1", "2"] if kind == "list" else ["a", "b", "c"]
            for drop in (None, "input_shape", "output_shape", *range(3)):
                with rep.unit(f"{ci.qual}.is_ready/{kind}/{drop}"):
                    I = Interp(prog)
                    st = State()
                    order = I.new_list(st, [const("input"), *map(const, names), const("output")])
                    f = {"modules": skeleton(I, st, kind, ms), "input_shape": shape(3), "output_shape": shape(2), "execution_order": order, "separator": const(".")}
                    if isinstance(drop, str):
                        f[drop] = NONE
                    A = I.sym_instance(st, ci, "A", f)
                    r = I.snap(st, I.call_method(A, "is_ready", [], {}, st, ci.node))

                    def v(x):
                        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "is_ready":
                            return not (isinstance(drop, int) and x.args[0].args[0] is ms[drop])
                        return None
                    r = assume(r, v)
                    want = drop is None
                    rep.ob("ready", f"{ci.qual}/{kind}/" + ("all" if drop is None else f"without {drop}"), r is (TRUE if want else FALSE),
                           f"is_ready() is {short(r)} although it should be {want}", ci.module.name)
                    rep.saw(I)
        I = Interp(prog)
        st = State()
        A = I.sym_instance(st, ci, "A", {"modules": I.new_list(st, []), "input_shape": shape(3), "output_shape": shape(2), "execution_order": NONE})
        r = I.snap(st, I.call_method(A, "is_ready", [], {}, st, ci.node))
        rep.ob("ready", f"{ci.qual}/empty", r is FALSE, f"an empty model's is_ready() is {short(r)}", ci.module.name)
        # --- unready
        for e in ENTRY + PREC + ("_get_callable",):
            with rep.unit(f"{ci.qual}.{e}/unready"):
                I = Interp(prog)
                st = State()
                A = I.sym_instance(st, ci, "A", {"modules": I.new_list(st, ms)})
                I.hooks[method(prog, ci, "is_ready").qual] = lambda *a: FALSE
                args = [] if e == "_get_callable" else [T("sym", "X")]
                I.call_method(A, e, args, {}, st, ci.node)
                touched = [c for c in I.events if c.kind == "call" and c.data["fn"].op == "attr" and c.data["fn"].args[0] in ms
                           and c.data["fn"].args[1] in ("set_precision", "_get_callable", "set_params", "set_state")]
                rep.ob("callable-ready" if e == "_get_callable" else "unready-raises", f"{ci.qual}.{e}", not alive(st) and not touched,
                       f"{e} on an unready model " + ("returns" if alive(st) else "touches its modules before raising"), ci.module.name)
                rep.saw(I)
    # --- shapes
    for ci in model_classes(prog):
        for e in ENTRY + ("train",):
            with rep.unit(f"{ci.qual}.{e}/shapes"):
                I0, st0 = Interp(prog), State()
                n = len(inputs(I0, st0, prog))
                for k in range(n):
                    I = Interp(prog)
                    st = State()
                    tag, sh, X, ok = inputs(I, st, prog)[k]
                    A = I.sym_instance(st, ci, "A", {"modules": I.new_list(st, ms), "input_shape": sh, "output_shape": shape(2)})
                    I.hooks[method(prog, ci, "is_ready").qual] = lambda *a: TRUE
                    for m in ("_get_callable", "get_params", "get_state", "get_rng", "set_state", "set_params"):
                        I.opaque.add(method(prog, ci, m).qual)
                    for q in ("model_util:autobatch", "training:train", "training:make_loss_fn", "tree_util:safecast"):
                        I.opaque.add("parametricmatrixmodels." + q)
                    I.call_method(A, e, [X], {}, st, ci.node)
                    rep.saw(I)
                    rep.ob("shape-guard", f"{ci.qual}.{e}/{tag}", alive(st) == ok,
                           f"{e} " + ("raises for the compiled input shape" if ok else "accepts an input of another shape"), ci.module.name)
