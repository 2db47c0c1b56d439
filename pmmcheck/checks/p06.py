"""P06: structural edits do what they say and invalidate everything prepared
for the previous structure.

Every mutator is evaluated on a model whose module container is a list, tuple
or dict of opaque modules and whose every other attribute is an opaque
'stale' value.  Afterwards (a) the container holds the edited sequence, (b)
is_ready() is False whatever the modules say, and (c) after the shapes are set
again, evaluating / differentiating reaches no attribute value from before the
edit except the modules and the RNG."""
from .common import *

EVAL = ("__call__", "predict", "grad_input", "grad_params")


def container(I, st, kind, xs):
    if kind == "list":
        return I.new_list(st, list(xs))
    if kind == "tuple":
        return T("tuple", *xs)
    return I.new_dict(st, [(const(n), x) for n, x in zip("abcdefg", xs)])


def values(I, st, v):
    v = I.snap(st, v)
    if v.op in ("list", "tuple"):
        return v.op, list(v.args), None
    if v.op == "dict":
        return "dict", [x for _, x in v.args[0]], [k for k, _ in v.args[0]]
    return v.op, None, None


M = leafsyms("m", 3)
X = T("sym", "$leaf_x")
K = const("k")


_0, _1, _2 = M
NESTED = [
    # modules, path, modules after replacing the one at the path by X
    ({"a": _0, "b": {"a": _1, "c": _2}}, ("b", "a"), {"a": _0, "b": {"a": X, "c": _2}}),
    ({"a": [_0, _1], "b": _2}, ("a", 1), {"a": [_0, X], "b": _2}),
    ([_0, [_1, _2]], (1, 0), [_0, [X, _2]]),
    ([_0, {"a": _1, "b": _2}], (1, "b"), [_0, {"a": _1, "b": X}]),
    ({"a": {"b": {"a": _0, "b": _1}, "c": _2}}, ("a", "b", "a"), {"a": {"b": {"a": X, "b": _1}, "c": _2}}),
    ([[[_0, _1]], [_2]], (0, 0, 1), [[[_0, X]], [_2]]),
    ([{"a": [_0, {"b": _1}]}, _2], (0, "a", 1, "b"), [{"a": [_0, {"b": X}]}, _2]),
]


def edits():
    """name, container kinds, args, kwargs, wanted values, wanted return"""
    m0, m1, m2 = M
    out = []
    for kind in ("list", "tuple", "dict"):
        kw = {"key": K} if kind == "dict" else {}
        keys = [const("a"), const("b"), const("c")]
        for i in (0, 1, 3):
            w = list(M)
            w.insert(i, X)
            ks = list(keys)
            ks.insert(i, K)
            for nm in ("insert_module", "insert"):
                out.append((f"{nm}({i})", nm, kind, [const(i), X], kw, w, ks, None))
        for nm in ("append_module", "append", "add_module", "add"):
            out.append((nm, nm, kind, [X], kw, [*M, X], [*keys, K], None))
        for nm in ("prepend_module", "prepend"):
            out.append((nm, nm, kind, [X], kw, [X, *M], [K, *keys], None))
        for i in (0, 1, 2):
            w = list(M)
            r = w.pop(i)
            ks = list(keys)
            ks.pop(i)
            out.append((f"pop_module_by_index({i})", "pop_module_by_index", kind, [const(i)], {}, w, ks, r))
            for nm in ("pop_module_by_key", "pop"):
                out.append((f"{nm}({i})", nm, kind, [const("abc"[i]) if kind == "dict" else const(i)], {}, w, ks, r))
            if kind != "tuple":
                w = list(M)
                w[i] = X
                out.append((f"setitem({i})", "__setitem__", kind, [const("abc"[i]) if kind == "dict" else const(i), X], {}, w, keys, None))
                out.append((f"setitem-path({i})", "__setitem__", kind, [T("tuple", const("abc"[i]) if kind == "dict" else const(i)), X], {}, w, keys, None))
    return out


def notinst(x):
    if x.op == "isinst" and x.args[0] in (X, *M):
        c = x.args[1]
        return c.op == "cls" or None
    return None


def stale(v):
    keep = {"_name", "rng", "separator", "connections"}
    return {y.args[1] for y in walk(v) if y.op == "attr" and y.args[0] is T("sym", "A") and y.args[1] not in keep
            and not y.args[1].startswith("__")}


def run(prog, rep):
    rep.rule("edit", "the edited container holds exactly the old modules in order with the requested insertion / removal / replacement, and pop returns the removed module", 100)
    rep.rule("not-ready", "after the edit is_ready() is False", 100)
    rep.rule("fresh", "after the edit (and setting shapes again) evaluation and gradients use only what is built from the current modules; the optimizer state is gone", 100)
    rep.rule("isolated", "an edit leaves the module sequence of every other model, and the container the model was constructed from, as it was", 50)
    rep.rule("sum", "model + module is a new, not ready model with the modules of the old one followed by the new one, and leaves the old model as it was", 6)
    rep.rule("load-fresh", "deserialize and set_hyperparameters discard everything prepared for the previous modules", 6)
    for ci in model_classes(prog):
        for tag, name, kind, args, kw, want, keys, ret in edits():
            for variant in ("edit",):
                with rep.unit(f"{ci.qual}.{tag}/{kind}"):
                    I = Interp(prog)
                    st = State()
                    A = I.sym_instance(st, ci, "A", {"modules": container(I, st, kind, M)})
                    r = I.call_method(A, name, list(args), dict(kw), st, ci.node)
                    what = f"{ci.qual}.{tag}/{kind}"
                    if not rep.ob("edit", what + ".returns", alive(st), "raises", ci.module.name):
                        continue
                    k, vals, ks = values(I, st, I.obj(st, A).fields["modules"])
                    ok = k == kind and vals == want and (ks is None or ks == keys) and (ret is None or r is ret)
                    rep.ob("edit", what, ok, f"modules become {short(I.snap(st, I.obj(st, A).fields['modules']))}, returns {short(r)}", ci.module.name)
                    rd = I.snap(st, I.call_method(A, "is_ready", [], {}, st, ci.node))
                    rep.ob("not-ready", what, rd is FALSE, f"is_ready() is {short(rd)} after the edit", ci.module.name)
                    rep.saw(I)
                    os_ = I.snap(st, I.get_attr(A, "_optimizer_state", st, ci.node))
                    rep.ob("fresh", what + "._optimizer_state", not stale(os_), f"optimizer state is still {short(os_)}", ci.module.name)
            with rep.unit(f"{ci.qual}.{tag}/{kind}/isolated"):
                if not takes_modules(prog, ci):
                    continue
                I = Interp(prog)
                st = State()
                c = container(I, st, kind, M)
                A, B = construct(I, st, ci, c), construct(I, st, ci, c)
                a0, b0 = I.get_attr(A, "modules", st, ci.node), I.get_attr(B, "modules", st, ci.node)
                before = [values(I, st, v) for v in (c, b0)]
                I.call_method(A, name, list(args), dict(kw), st, ci.node)
                if alive(st):
                    now = [values(I, st, v) for v in (c, I.get_attr(B, "modules", st, ci.node))]
                    rep.ob("isolated", what, now == before, f"the shared container becomes {short(I.snap(st, c))}, another model built from it has {short(I.snap(st, I.get_attr(B, 'modules', st, ci.node)))}", ci.module.name)
                rep.saw(I)
        for i, (c, path, want) in enumerate(NESTED if takes_modules(prog, ci) else ()):
            with rep.unit(f"{ci.qual}.nested/{i}"):
                nested(prog, rep, ci, c, path, want)
        for kind in ("list", "tuple", "dict"):
            with rep.unit(f"{ci.qual}.__add__/{kind}"):
                if not takes_modules(prog, ci):
                    continue
                I = Interp(prog)
                st = State()
                A = construct(I, st, ci, container(I, st, kind, M))
                for f in ("input_shape", "output_shape"):
                    I.set_attr(A, f, T("sym", "old_" + f), st, ci.node)
                I.set_attr(A, "callable", T("sym", "old_callable"), st, ci.node)
                old = dict(I.obj(st, A).fields)
                before = values(I, st, old["modules"])
                r = I.call_method(A, "__add__", [X], {}, st, ci.node)
                what = f"{ci.qual}.__add__/{kind}"
                if not alive(st):       # refused
                    continue
                k, vals, _ = values(I, st, I.get_attr(r, "modules", st, ci.node))
                rep.ob("sum", what, r is not A and k == kind and vals == [*M, X], f"the sum has {short(I.snap(st, I.get_attr(r, 'modules', st, ci.node)))}", ci.module.name)
                now = I.obj(st, A).fields
                ch = sorted(n for n in set(old) | set(now) if old.get(n) is not now.get(n))
                rep.ob("sum", what + ".left", not ch and values(I, st, now["modules"]) == before, f"the model added to has modules {short(I.snap(st, now['modules']))}, changed {ch}", ci.module.name)
                rd = I.snap(st, I.call_method(r, "is_ready", [], {}, st, ci.node))
                rep.ob("sum", what + ".ready", rd is FALSE, f"is_ready() of the sum is {short(rd)}", ci.module.name)
                rep.saw(I)
        # caches after an edit, one representative per distinct mutator
        for tag, name, kind, args, kw, want, keys, ret in edits():
            if kind != "list":
                continue
            for e in EVAL:
                with rep.unit(f"{ci.qual}/{e}"):
                    bad = after(prog, ci, lambda I, st, A: I.call_method(A, name, list(args), dict(kw), st, ci.node), kind, e, rep)
                    rep.ob("fresh", f"{ci.qual}.{tag}/{e}", not bad, f"{e} after {tag} still uses {sorted(bad)}", ci.module.name)
        for e in EVAL:
            with rep.unit(f"{ci.qual}/{e}"):
                def load(I, st, A):
                    B = I.sym_instance(st, ci, "B", {"modules": I.new_list(st, [I.sym_instance(st, prog.get_class("BaseModule"), "$b0")])})
                    D = I.call_method(B, "serialize", [], {}, st, ci.node)
                    I.call_method(A, "deserialize", [D], {}, st, ci.node)
                bad = after(prog, ci, load, "list", e, rep)
                rep.ob("load-fresh", f"{ci.qual}.deserialize/{e}", not bad, f"{e} after deserialize still uses {sorted(bad)}", ci.module.name)
            with rep.unit(f"{ci.qual}/{e}"):
                def take(I, st, A):
                    B = I.sym_instance(st, ci, "B", {"modules": I.new_list(st, [I.sym_instance(st, prog.get_class("BaseModule"), "$b0")])})
                    D = I.call_method(B, "get_hyperparameters", [], {}, st, ci.node)
                    I.call_method(A, "set_hyperparameters", [D], {}, st, ci.node)
                bad = after(prog, ci, take, "list", e, rep)
                rep.ob("load-fresh", f"{ci.qual}.set_hyperparameters/{e}", not bad, f"{e} after set_hyperparameters still uses {sorted(bad)}", ci.module.name)


def nested(prog, rep, ci, c, path, want):
    """replace a module given by its path in nested containers"""
    I = Interp(prog)
    I.unroll = True
    I.max_same = 20
    st = State()
    t = build(I, st, c)
    A, B = construct(I, st, ci, t), construct(I, st, ci, t)
    if any(I.snap(st, I.get_attr(m, "modules", st, ci.node)) is not I.snap(st, t) for m in (A, B)):
        A, B = I.sym_instance(st, ci, "A", {"modules": t}), I.sym_instance(st, ci, "B", {"modules": t})
    before = I.snap(st, t)
    key = T("tuple", *[const(k) for k in path])
    I.call_method(A, "__setitem__", [key, X], {}, st, ci.node)
    tag = f"{ci.qual}[{path}]"
    rep.saw(I)
    if not alive(st):
        if I.open_branches:
            raise AnalysisError("not every condition is decided")
        rep.ob("edit", tag, False, "raises", ci.module.name)
        return
    got = I.snap(st, I.get_attr(A, "modules", st, ci.node))
    w = I.snap(st, build(I, st, want))
    if any(x.op not in ("dict", "list", "tuple", "const") and x not in (X, *M) for x in walk(got)):
        raise AnalysisError(f"the modules become {short(got)}")
    rep.ob("edit", tag, got is w, f"the modules become {short(got)}, not {short(w)}", ci.module.name)
    now = [I.snap(st, t), I.snap(st, I.get_attr(B, "modules", st, ci.node))]
    rep.ob("isolated", tag, now[0] is before and now[1] is before, f"the shared container becomes {short(now[0])}, another model built from it has {short(now[1])}", ci.module.name)
    r = I.snap(st, I.call_method(A, "__getitem__", [key], {}, st, ci.node))
    rep.ob("edit", tag + ".read", r is X, f"the module at the path is {short(r)}", ci.module.name)


def build(I, st, c):
    if isinstance(c, dict):
        return I.new_dict(st, [(const(k), build(I, st, v)) for k, v in c.items()])
    if isinstance(c, list):
        return I.new_list(st, [build(I, st, v) for v in c])
    return T("tuple", *[build(I, st, v) for v in c]) if isinstance(c, tuple) else c


def takes_modules(prog, ci):
    """the constructor's first argument is the container of modules"""
    a = method(prog, ci, "__init__").node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    return bool(names) and names[0] == "modules"


def construct(I, st, ci, c):
    return I.instantiate(I.cls_term(ci), [c], {"rng": T("sym", "rng")}, st, ci.node)


def after(prog, ci, edit, kind, e, rep):
    I = Interp(prog)
    st = State()
    A = I.sym_instance(st, ci, "A", {"modules": container(I, st, kind, M)})
    edit(I, st, A)
    for f in ("input_shape", "output_shape", "execution_order"):
        I.set_attr(A, f, T("sym", "new_" + f), st, ci.node)
    for m in ("is_ready", "_verify_input", "_get_callable", "get_params", "get_state", "get_rng", "set_state"):
        I.opaque.add(method(prog, ci, m).qual)
    bad = set()
    kw = {"max_batch_size": T("sym", "max_batch_size"), "avoid_recompilation": T("sym", "avoid_recompilation")}
    for extra in ({}, kw, {**kw, "fwd": T("sym", "fwd")}):
        if "fwd" in extra and not e.startswith("grad"):
            continue
        s2 = st.fork()
        bad |= stale(I.snap(s2, I.call_method(A, e, [T("sym", "X")], extra, s2, ci.node)))
    rep.saw(I)
    return bad
