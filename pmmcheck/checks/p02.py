"""P02: parameters, state and RNG that are set are what is read back.

Module level: the composition get_params(set_params(P)) is evaluated on a
symbolic instance and symbolic P; it must be P itself (up to tuple rebuilding
and array conversions).  Model level: set_params/set_state on a model with a
known skeleton of opaque modules must hand sub-tree i to module i exactly once
on every path, and get_params/get_state must collect module i's value at
position i."""
from .ndutil import *
from . import p13, p19
from .p14 import HOOKS


def unready(x):
    """a model whose modules are all ready (get_state on unready modules is
    None by design)"""
    if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "is_ready":
        return True
    return None


def run(prog, rep):
    rep.rule("module-roundtrip", "set_params(P)/set_state(S) followed by get_params()/get_state() yields P/S; modules without any expose an empty tree", 200)
    rep.rule("model-distribute", "Model.set_params/set_state give sub-tree i to module i, exactly once, on every path", 10)
    rep.rule("model-collect", "Model.get_params/get_state return module i's value at position i", 10)
    rep.rule("rng", "set_rng keeps a key as given, turns an int seed into jax.random.key(seed)", 4)
    rep.rule("accepted", "parameters of the module's own structure, shape and kind are accepted, by a compiled module and by one with the same options that is not compiled yet, and read back entry by entry", 100)
    concrete(prog, rep)
    P = T("sym", "P")
    for ci in concrete_modules(prog):
        for k in ("params", "state"):
            with rep.unit(f"{ci.qual}.{k}"):
                # which attributes expose the value
                J, s2, ref, v0 = sym_method(prog, ci, "get_" + k, self_="A")
                v0 = J.snap(s2, v0)
                I = Interp(prog)
                st = State()
                A = I.sym_instance(st, ci, "A")
                I.call_method(A, "set_" + k, [P], {}, st, ci.node)
                if not alive(st):
                    # set_* always raises: nothing can be set
                    ok = is_empty(v0)
                    r = v0
                else:
                    r = strip_conv(I.snap(st, I.call_method(A, "get_" + k, [], {}, st, ci.node)))
                    # the leaves of what is set are arrays
                    r = eta(assume(r, lambda x: False if x.op == "is" and x.args[1] is NONE and x.args[0].op in ("item", "elem") and contains(x.args[0], lambda y: y is P) else None))
                    if is_empty(v0) and not reads(J, ref):
                        ok = is_empty(r)
                    else:
                        ok = r is P
                rep.saw(I)
                rep.ob("module-roundtrip", f"{ci.qual}.{k}", ok, f"after set_{k}(P), get_{k}() returns {short(r)}", ci.module.name)
    for ci in model_classes(prog):
        for k in ("params", "state"):
            with rep.unit(f"{ci.qual}.{k}"):
                for kind in ("list", "dict", "nested"):
                    I = Interp(prog)
                    st = State()
                    ms, ps = leafsyms("m", 3), leafsyms("p", 3)
                    A = I.sym_instance(st, ci, "A", {"modules": skeleton(I, st, kind, ms)})
                    I.call_method(A, "set_" + k, [skeleton(I, st, kind, ps)], {}, st, ci.node)
                    bad = []
                    if not alive(st):
                        bad.append("raises for a matching structure")
                    for m, p in zip(ms, ps):
                        ev = method_calls(I, m, "set_" + k)
                        if len(ev) != 1 or [strip_conv(a) for a in ev[0].data["sargs"]] != [p] or ev[0].pc:
                            bad.append(f"module {short(m)} receives {[[short(a) for a in e.data['sargs']] for e in ev]}")
                    rep.ob("model-distribute", f"{ci.qual}.set_{k}/{kind}", not bad, "; ".join(bad), ci.module.name)
                    rep.saw(I)
                    I = Interp(prog)
                    st = State()
                    A = I.sym_instance(st, ci, "A", {"modules": skeleton(I, st, kind, ms)})
                    r = I.call_method(A, "get_" + k, [], {}, st, ci.node)
                    want = skeleton(I, st, kind, [T("call", T("attr", m, "get_" + k), (), ()) for m in ms])
                    r, want = assume(I.snap(st, r), unready), I.snap(st, want)
                    rep.ob("model-collect", f"{ci.qual}.get_{k}/{kind}", r is want, f"get_{k}() returns {short(r)}", ci.module.name)
                    rep.saw(I)
        I = Interp(prog)
        st = State()
        A = I.sym_instance(st, ci, "A")
        I.call_method(A, "set_rng", [T("sym", "rng")], {}, st, ci.node)
        r = I.snap(st, I.call_method(A, "get_rng", [], {}, st, ci.node))
        isint = lambda d: lambda x: d if x.op == "isinst" and x.args[0] is T("sym", "rng") and x.args[1] is T("ext", "builtins.int") else (False if x is T("is", T("sym", "rng"), NONE) else None)
        r0 = assume(r, isint(False))
        r1 = assume(r, isint(True))
        rep.ob("rng", f"{ci.qual}.key", r0 is T("sym", "rng"), f"set_rng(key) stores {short(r0)}", ci.module.name)
        rep.ob("rng", f"{ci.qual}.seed", r1.op == "call" and extname(r1.args[0]) in ("jax.random.key", "jax.random.PRNGKey") and r1.args[1] == (T("sym", "rng"),), f"set_rng(int) stores {short(r1)}", ci.module.name)
        rep.saw(I)


def concrete(prog, rep):
    names = {c.name: c for c in concrete_modules(prog)}
    rows = [(c, k, s) for c, k, s, _ in p13.table(rep.tier)] + [(c, k, s) for c, k, s, w in p19.given(rep.tier) if w is not None]
    for cls, kw, shape in rows:
        if cls not in names or names[cls] in model_classes(prog):
            continue
        tag, where = p19.tagof(cls, (), kw, shape), prog.rel(names[cls].module.path)
        with rep.unit(tag):
            try:
                src = Mod(prog, cls, (), hooks=HOOKS, **kw)
                src.compile(shape, RNG2)
                src.open()
                q = src.params()
                p19.understood(q)
            except Raised:
                continue
            for ready in (True, False):
                m = Mod(prog, cls, (), hooks=HOOKS, **kw)
                if ready:
                    m.compile(shape)
                try:
                    m.method("set_params", thaw(m.I, m.st, q))
                    m.open()
                    got = m.params()
                    p19.understood(got)
                    ok, why_ = p19.same(got, q), f"read back as {p19.brief(got)}"
                except Raised as e:
                    ok, why_ = False, str(e)
                rep.ob("accepted", f"{tag} {'after' if ready else 'before'} compiling", ok, f"parameters {p19.brief(q)}: {why_}", where)
                rep.saw(m.I)
