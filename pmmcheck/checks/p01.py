"""P01: module configuration survives serialize/deserialize, copy and the
get/set_hyperparameters pair.

For every concrete module class A the composition
    B = cls(); B.deserialize(A.serialize())
is evaluated on a fully symbolic A.  Every instance attribute that any
behaviour of the class (compile, get_output_shape, is_ready, set_params, and
the evaluation callable) reads must end up in B with exactly A's value, both
when that value is None and when it is not."""
from .common import *
from . import p13, p14, restore
from .ndutil import Inst, Mod, Raised, Shape, fresh, struct, thaw

MIN_FIELDS = 60


def restored(t, a):
    """t is the value of B.f; a = A.f"""
    isn = T("is", a, NONE)
    t1 = assume(t, lambda x: False if x is isn else None)
    t0 = subst(t, {a: NONE})
    return t1 is a and (t0 is NONE), t1, t0


def required(prog, ci, rep):
    req = {}
    for m in ("compile", "get_output_shape", "is_ready", "set_params", "set_state"):
        J, s2, ref, v = sym_method(prog, ci, m, self_="A")
        rep.saw(J)
        for a in reads(J, ref):
            req.setdefault(a, set()).add(m)
    # the frozen/trainable switch is configuration, too
    J = Interp(prog)
    s2 = State()
    ref = J.sym_instance(s2, ci, "A")
    J.get_attr(ref, "trainable", s2, ci.node)
    for a in reads(J, ref):
        req.setdefault(a, set()).add("trainable")
    J, s2, ref, clo, v, _ = callable_of(prog, ci, self_="A")
    rep.saw(J)
    for a in reads(J, ref):
        req.setdefault(a, set()).add("evaluation")
    return {k: v for k, v in req.items() if not k.startswith("$")}


def finals(I, st, B):
    return {k: strip_conv(assume(I.snap(st, v), is_serial)) for k, v in st.heap[B.args[0]].fields.items()}


LATER = [   # class, options at construction, options set later, input shape
    ("LinearNN", {}, {"out_features": 2}, Shape(3)),
    ("LinearNN", {"bias": False}, {"out_features": 3}, Shape(2)),
    ("LinearNN", {"activation": Inst("ReLU")}, {"out_features": 1}, Shape(2)),
    ("Constant", {"trainable": False}, {"constant": fresh("c", (2,))}, Shape(3)),
    ("Einsum", {"trainable": True, "dim_map": {"i": 2}}, {"einsum_str": "ij,j->i"}, Shape(3)),
    ("Einsum", {"einsum_str": "ij,j->i"}, {"params": fresh("p", (2, 3))}, Shape(3)),
    ("Einsum", {}, {"einsum_str": "ij,j->i", "params": fresh("p", (2, 3))}, Shape(3)),
]


def later(prog, rep):
    names = {c.name: c for c in [*concrete_modules(prog), *model_classes(prog)]}
    for cls, kw, opts, shape in LATER:
        if cls not in names:
            continue
        tag = f"{cls}({', '.join(kw)}) then {', '.join(opts)}"
        where = prog.rel(names[cls].module.path)
        with rep.unit(tag):
            try:
                a = Mod(prog, cls, hooks=restore.RHOOKS, **kw, **opts)
                a.compile(shape)
            except Raised as e:
                raise AnalysisError(f"{tag}: {e}")
            try:
                b = Mod(prog, cls, hooks=restore.RHOOKS, **kw)
                b.method("set_hyperparameters", thaw(b.I, b.st, dict(opts)))
                b.compile(shape)
                p = a.params()
                d = restore.equal(p, b.params()) if struct(p) != struct(b.params()) else None
                x, y = restore.behaviour(a, p, shape), restore.behaviour(b, p, shape)
                d = d or restore.equal(x, y)
                b.open()
                rep.ob("later", tag, d is None, f"differs from giving the option to the constructor: {d}", where)
                r = b.method("is_ready")
                rep.ob("later", tag + ".ready", r is TRUE, f"is_ready() is {short(r)}", where)
            except Raised as e:
                if b.I.open_branches:
                    raise AnalysisError(str(e))
                rep.ob("later", tag, False, str(e), where)
            rep.saw(b.I)


def run(prog, rep):
    rep.rule("restore", "B=cls(); B.deserialize(A.serialize()) gives B every attribute A's behaviour reads", 60)
    rep.rule("hyper-roundtrip", "B.set_hyperparameters(A.get_hyperparameters()) gives B every configuration attribute", 50)
    rep.rule("copy", "copy() returns a new instance of the class carrying every attribute A's behaviour reads", 100)
    rep.rule("same", "built from documented options, a module restored by serialize/deserialize, copy or its hyperparameters - before or after compiling - reports the same readiness, parameters and trainable flag and computes the same function", 1000)
    rep.rule("later", "an option documented to be settable after construction and set with set_hyperparameters acts as if it had been given to the constructor", 8)
    later(prog, rep)
    rows = list(p14.table(rep.tier)) + [(c, (), kw, s) for c, kw, s, _ in p13.table(rep.tier)]
    routes = [("serialize", True), ("serialize", False), ("copy", True), ("hyperparameters", False)]
    if rep.tier == "thorough":
        routes += [("copy", False), ("hyperparameters", True)]
    restore.units(prog, rep, "same", rows, routes)
    mods = concrete_modules(prog)
    rep.count("module_classes", len(mods))
    if len(mods) < 110:
        raise AnalysisError(f"only {len(mods)} module classes found")
    for ci in mods:
        with rep.unit(ci.qual):
            req = required(prog, ci, rep)
            a = lambda f: T("attr", T("sym", "A"), f)
            # (1) serialize -> deserialize
            I = Interp(prog)
            st = State()
            A = I.sym_instance(st, ci, "A")
            data = I.call_method(A, "serialize", [], {}, st, ci.node)
            B = I.instantiate(I.cls_term(ci), [], {}, st, ci.node)
            I.call_method(B, "deserialize", [data], {}, st, ci.node)
            fin = finals(I, st, B)
            rep.saw(I)
            # params/state attributes: whatever get_params/get_state expose
            ps = set()
            for m in ("get_params", "get_state"):
                J, s2, ref, v = sym_method(prog, ci, m, self_="A")
                ps |= reads(J, ref)
            for f, why in sorted(req.items()):
                x = fin.get(f)
                ok = False
                if x is not None:
                    ok, t1, t0 = restored(x, a(f))
                    if f.endswith("__trainable"):
                        ok = t1 is a(f)   # a bool, never None
                rep.ob("restore", f"{ci.qual}.{f}", ok,
                       f"attribute '{f}' (read by {', '.join(sorted(why))}) of a saved {ci.name} becomes {short(x) if x is not None else 'unset'} after loading",
                       ci.module.name)
            # (2) hyperparameter pair
            I = Interp(prog)
            st = State()
            A = I.sym_instance(st, ci, "A")
            hp = I.call_method(A, "get_hyperparameters", [], {}, st, ci.node)
            B = I.instantiate(I.cls_term(ci), [], {}, st, ci.node)
            I.call_method(B, "set_hyperparameters", [hp], {}, st, ci.node)
            fin = finals(I, st, B)
            rep.saw(I)
            for f, why in sorted(req.items()):
                if f in ps or f.endswith("__trainable"):
                    continue
                x = fin.get(f)
                ok = x is not None and restored(x, a(f))[0]
                rep.ob("hyper-roundtrip", f"{ci.qual}.{f}", ok,
                       f"attribute '{f}' becomes {short(x) if x is not None else 'unset'} after set_hyperparameters(get_hyperparameters())", ci.module.name)
            # (3) copy
            I = Interp(prog)
            st = State()
            A = I.sym_instance(st, ci, "A")
            c = I.call_method(A, "copy", [], {}, st, ci.node)
            rep.saw(I)
            o = I.obj(st, c)
            ok = o is not None and o.kind == "inst" and o.cls is ci and c is not A
            rep.ob("copy", ci.qual, ok, f"copy() returns {short(c)}, not a new {ci.name}", ci.module.name)
            if ok:
                fin = finals(I, st, c)
                for f in sorted(req):
                    x = fin.get(f)
                    ok = x is not None and (restored(x, a(f))[0] or f.endswith("__trainable") and restored(x, a(f))[1] is a(f))
                    rep.ob("copy", f"{ci.qual}.{f}", ok, f"attribute '{f}' of the copy is {short(x) if x is not None else 'unset'}", ci.module.name)
