"""P26: changing the precision keeps the values.

Modules and models are compiled in the exact-array domain, where every array
carries its dtype, and set_precision / astype are evaluated for each documented
name of a precision: every parameter (and state) leaf must have the width asked
for, the kind (real or complex) it had, and the entries it had.  safecast is
evaluated for every pair of dtypes."""
from .common import *
from . import p13, p14
from .ndutil import *
from .p14 import HOOKS
from .p19 import tagof, understood

DT = lambda n: T("ext", "jax.numpy." + n)    # noqa: E731
NAMES = {32: [DT("float32"), DT("complex64"), const("float32"), const("complex64"), const("single"), const("f32"), const("c64"), const(32)],
         64: [DT("float64"), DT("complex128"), const("float64"), const("complex128"), const("double"), const("f64"), const("c128"), const(64)]}
UNKNOWN = [const("half"), const("float16"), const(16), const(128), const("f128"), const("complex"), DT("int32"), DT("float16")]
STATE = "parametricmatrixmodels.modules.basemodule:BaseModule."


def x64(on):
    def read(I, fn, args, kwargs, st, node):
        a = I.snap(st, args[0]) if args else None
        if a is None or a is not const("jax_enable_x64"):
            raise AnalysisError("another configuration value is read")
        return const(on)

    return {"jax.config.read": read, "jax.config.jax_enable_x64": const(on)}


def want(dt, w):
    if dt.startswith("complex"):
        return f"complex{2 * w}"
    return f"float{w}"


def change(m, meth, prec):
    """-> the value returned, or None when refused"""
    I, st = m.I, m.st
    mark = len(I.events)
    r = m.guard(meth, lambda: I.call(I.get_attr(m.A, meth, st, None), [prec], {}, st, None))
    m.open()
    bad = [e for e in I.events[mark:] if e.kind == "annot"]
    if bad:
        raise Raised(f"{meth}({short(prec)}): {bad[0].data['qual']} refuses {bad[0].data['param']}: {bad[0].data['why']}")
    return r


def compare(p, q, w):
    understood(q)
    if struct_(p) != struct_(q):
        return f"{struct_(p)} becomes {struct_(q)}"
    for i, (x, y) in enumerate(zip(leaves(p), leaves(q))):
        if not isinstance(x, NDA):
            continue
        if y.dtype != want(x.dtype, w):
            return f"leaf {i} of type {x.dtype} becomes {y.dtype}"
        if list(x.v) != list(y.v):
            return f"leaf {i} changes value"
    return None


def struct_(t):
    return tmap(lambda x: x.shape if isinstance(x, NDA) else x, t)


def rows(tier):
    for c, kw, s, _ in p13.table(tier):
        yield c, (), kw, s
    for mods, shape in p14.models(tier):
        yield "SequentialModel", (mods,), {}, shape
    L = lambda k: Inst("LinearNN", out_features=k)  # noqa: E731
    yield "SequentialModel", ({"x": L(2), "y": [Inst("Bias", real=False), {"z": Inst("Bias")}]},), {}, Shape(2)
    yield "SequentialModel", ([L(2), Inst("SequentialModel", [Inst("Bias"), L(1)])],), {}, Shape(2)
    for (mods, conn), shape in p14.graphs(tier):
        yield "NonSequentialModel", (mods, conn), {}, shape
    yield "NonSequentialModel", ({"a": L(2), "b": Inst("Bias")}, {"input": "a", "a": "output"}), {}, Shape(2)


def run(prog, rep):
    rep.rule("width", "every parameter gets the requested width and keeps its kind, position and value", 300)
    rep.rule("names", "all documented names of a precision act alike, through set_precision and astype", 60)
    rep.rule("same-object", "astype returns the object itself", 20)
    rep.rule("refuses", "an unknown precision, 64 bits without 64-bit support and an object that is not ready are refused", 30)
    rep.rule("state", "the state is converted like the parameters", 8)
    rep.rule("cast", "safecast converts every leaf to the dtype and refuses to drop imaginary parts", 24)
    names = {c.name: c for c in [*concrete_modules(prog), *model_classes(prog)]}
    seen = set()
    for cls, args, kw, shape in rows(rep.tier):
        tag = tagof(cls, args, kw, shape)
        if cls not in names or tag in seen:
            continue
        seen.add(tag)
        where = prog.rel(names[cls].module.path)
        with rep.unit(tag):
            try:
                m = Mod(prog, cls, args, hooks={**HOOKS, **x64(True)}, **kw)
                m.compile(shape)
                p = m.params()
            except Raised:
                continue
            try:
                for w in (64, 32):
                    change(m, "set_precision", const(w))
                    d = compare(p, m.params(), w)
                    rep.ob("width", f"{tag} to {w} bits", d is None, d or "", where)
            except Raised as e:
                if m.I.open_branches:
                    raise AnalysisError(str(e))
                rep.ob("width", tag, False, str(e), where)
            rep.saw(m.I)
    objs = [("Bias", (), {"real": False}, Shape(2)), ("SequentialModel", ([Inst("Bias"), Inst("Bias", real=False)],), {}, Shape(2)), ("LinearNN", (), {"out_features": 2}, Shape(2))]
    for cls, args, kw, shape in objs:
        if cls not in names:
            continue
        where = prog.rel(names[cls].module.path)
        for meth in ("set_precision", "astype"):
            for w, ns in NAMES.items():
                for prec in ns:
                    tag = f"{cls}.{meth}({short(prec)})"
                    with rep.unit(tag):
                        m = Mod(prog, cls, args, hooks={**HOOKS, **x64(True)}, **kw)
                        m.compile(shape)
                        p = m.params()
                        try:
                            r = change(m, meth, prec)
                            d = compare(p, m.params(), w)
                            if meth == "astype":
                                rep.ob("same-object", tag, r is m.A, f"returns {short(r)}", where)
                        except Raised as e:
                            d = str(e)
                        rep.ob("names", tag, d is None, d or "", where)
                        rep.saw(m.I)
            for what, prec, on, ready in [("unknown", u, True, True) for u in UNKNOWN] + [("64 bits unsupported", n, False, True) for n in NAMES[64][-3:]] + [("not ready", const(32), True, False)]:
                tag = f"{cls}.{meth}({short(prec)}), {what}"
                with rep.unit(tag):
                    m = Mod(prog, cls, args, hooks={**HOOKS, **x64(on)}, **kw)
                    if ready:
                        m.compile(shape)
                    try:
                        change(m, meth, prec)
                        ok = False
                    except Raised:
                        ok = True
                    rep.ob("refuses", tag, ok, "accepted", where)
                    rep.saw(m.I)
    state(prog, rep, names)
    cast(prog, rep)


def state(prog, rep, names):
    s0 = {"r": fresh("r", (2,)), "c": [fresh("c", (1,), "complex64"), fresh("d", (), "float32")]}
    for cls, args, shape in (("Bias", (), Shape(2)), ("SequentialModel", ([Inst("Bias"), Inst("Flatten")],), Shape(2))):
        where = prog.rel(names[cls].module.path)
        for w in (64, 32):
            tag = f"{cls} with state to {w} bits"
            with rep.unit(tag):
                got = []

                def get(I, fn, a, kw, st, node):
                    return thaw(I, st, s0)

                def put(I, fn, a, kw, st, node):
                    got.append(py(I.snap(st, a[-1])))
                    return NONE

                m = Mod(prog, cls, args, hooks={**HOOKS, **x64(True)})
                m.compile(shape)
                m.I.hooks = {**m.I.hooks, STATE + "get_state": get, STATE + "set_state": put}
                try:
                    change(m, "set_precision", const(w))
                except Raised as e:
                    rep.ob("state", tag, False, str(e), where)
                    continue
                n = 1 if cls == "Bias" else 2
                rep.ob("state", tag + ".set", len(got) == n, f"set_state is called {len(got)} times for {n} modules", where)
                d = next((x for x in (compare(s0, g, w) for g in got) if x), None)
                rep.ob("state", tag, d is None, d or "", where)
                rep.saw(m.I)


def cast(prog, rep):
    where = prog.rel(prog.modules["parametricmatrixmodels.tree_util"].path)
    for src in ("float32", "float64", "complex64", "complex128"):
        for dst in ("float32", "float64", "complex64", "complex128"):
            for kind in ("array", "tree"):
                tag = f"safecast/{kind}/{src} to {dst}"
                with rep.unit(tag):
                    m = Mod(prog, "Bias", (), hooks=HOOKS)
                    I, st = m.I, m.st
                    x = fresh("x", (2,), src) if kind == "array" else {"a": fresh("y", (1,)), "b": [fresh("x", (2,), src)]}
                    fn = I.get_attr(T("pkgmod", "parametricmatrixmodels.tree_util"), "safecast", st, None)
                    drop = src.startswith("complex") and dst.startswith("float")
                    try:
                        q = py(m.guard("safecast", lambda: I.snap(st, I.call(fn, [thaw(I, st, x), DT(dst)], {}, st, None))))
                        m.open()
                    except Raised as e:
                        rep.ob("cast", tag, drop, str(e), where)
                        continue
                    rep.saw(I)
                    if drop:
                        rep.ob("cast", tag, False, "imaginary parts are dropped", where)
                        continue
                    understood(q)
                    ok = struct_(q) == struct_(x) and all(b.dtype == dst and list(a.v) == list(b.v) for a, b in zip(leaves(x), leaves(q)))
                    rep.ob("cast", tag, ok, f"becomes {[b.dtype for b in leaves(q)]} or changes value", where)
