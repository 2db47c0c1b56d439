"""P08: readiness and the reported number of trainable parameters.

Modules and composite models are constructed and compiled in the exact-array
domain; is_ready and get_num_trainable_floats are compared with the parameters
found."""
from .ndutil import *
from . import p13, p14, p19
from .p14 import HOOKS
from .p19 import tagof

RULES = {
    "ready": "a module is ready once it is compiled, and one whose parameters are still to be drawn is not ready before and reports no number of parameters",
    "count": "the reported number of trainable parameters is the number of independent real numbers in the parameters (two per complex entry, n^2 per Hermitian n x n matrix)",
    "none": "a module without parameters reports zero",
    "sum": "a composite model reports the sum over its modules",
    "accepts": "a documented option and input shape is accepted",
}
S = Shape


def dof(x, herm):
    return len(x.v) * (2 if nd.KIND[x.dtype] >= 3 and not herm else 1)


def run(prog, rep):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    names = {c.name: c for c in concrete_modules(prog)}
    comp = {c.name: c for c in model_classes(prog)}
    names.update(comp)

    def unit(cls, args, kw, shape, f):
        if cls not in names:
            return
        tag, where = tagof(cls, args, kw, shape), prog.rel(names[cls].module.path)
        with rep.unit(tag):
            m = None
            try:
                m = Mod(prog, cls, args, hooks=HOOKS, **kw)
                f(m, tag, where)
                m.open()
                rep.ob("accepts", tag, True, "", where)
            except Raised as e:
                rep.ob("accepts", tag, False, str(e), where)
            finally:
                if m is not None:
                    rep.saw(m.I)

    def value(m, name):
        t = m.method(name)
        m.open()
        if t.op != "const":
            raise AnalysisError(f"{name} gives {short(t)}")
        return t.args[0]

    def ready(m, tag, where, shape, fresh_):
        if fresh_:
            r, n = value(m, "is_ready"), value(m, "get_num_trainable_floats")
            rep.ob("ready", tag, r is False and (n is None or m.cls in comp), f"before compilation is_ready() is {r} and the number of parameters is {n}", where)
        m.compile(shape)
        r = value(m, "is_ready")
        rep.ob("ready", tag, r is True, f"is_ready() is {r} after compilation", where)
        return value(m, "get_num_trainable_floats")

    for cls, kw, shape, kind in p13.table(rep.tier):
        def f(m, tag, where):
            n = ready(m, tag, where, shape, True)
            ps = leaves(m.params())
            if not all(isinstance(x, NDA) for x in ps):
                raise AnalysisError("parameters not understood")
            # the matrices of the affine and observable modules are Hermitian
            want = sum(dof(x, kind == "hermitian" or cls == "AffineObservablePMM" and len(x.shape) > 1) for x in ps)
            rep.ob("count", tag, n == want and type(n) is int, f"reports {n} for {want} independent real numbers", where)
        unit(cls, (), kw, shape, f)
    for cls, args, kw, shape in p14.table(rep.tier):
        if cls in comp or any(isinstance(v, NDA) for v in leaves(list(kw.values()) + list(args))):
            continue

        def g(m, tag, where):
            n = ready(m, tag, where, shape, False)
            if not leaves(m.params()):
                rep.ob("none", tag, n == 0, f"reports {n}", where)
        unit(cls, args, kw, shape, g)
    for cls, kw, shape, want in p19.given(rep.tier):
        def h(m, tag, where):
            ready(m, tag, where, shape, False)
        unit(cls, (), kw, shape, h)
    for cls, mods, shape in p13.models(rep.tier):
        def s(m, tag, where):
            n = ready(m, tag, where, shape, True)
            want = 0
            for x in flat(mods):
                want += count_of(prog, x)
            rep.ob("sum", tag, n == want, f"reports {n}, its modules {want}", where)
        # every module alone, at the shape it is compiled for, reports its own number
        sizes = {}

        def count_of(prog, x):
            m = sizes.get(id(x))
            if m is None:
                raise AnalysisError("module not compiled alone")
            return m
        if all(x.cls in names for x in flat(mods)):
            with rep.unit(f"modules of {tagof(cls, (mods,), {}, shape)}"):
                cur = shape
                for x in flat(mods):
                    a = Mod(prog, x.cls, x.args, hooks=HOOKS, **x.kw)
                    a.compile(cur)
                    sizes[id(x)] = value(a, "get_num_trainable_floats")
                    cur = a.out_shape()
                    rep.saw(a.I)
            unit(cls, (mods,), {}, shape, s)


def flat(mods):
    """the modules of nested sequential models in order"""
    out = []
    for x in mods.values() if isinstance(mods, dict) else mods:
        out += flat(x.args[0]) if x.cls == "SequentialModel" else [x]
    return out
