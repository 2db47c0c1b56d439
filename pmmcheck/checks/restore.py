"""Restoring a concrete module or model in the exact-array domain: the module
is built from actual options, given unknown parameter values, and its
serialized form, hyperparameters or copy are handed to a new object.  The new
object must report the same parameters and readiness and compute the same
function."""
import copy as _copy

from .ndutil import *
from .p14 import HOOKS
from .p19 import same, tagof, understood


def _version(I, fn, args, kwargs, st, node):
    return const("1.0")


RHOOKS = {**HOOKS, "importlib.metadata.version": _version, "importlib_metadata.version": _version}


def twin(m, how):
    """a new object of m's class filled by the route"""
    I, st = m.I, m.st
    t = _copy.copy(m)
    call = lambda o, name, *a: I.call(I.get_attr(o, name, st, None), list(a), {}, st, None)
    new = lambda: I.call(I.get_attr(T("pkgmod", m.ci.module.name), m.cls, st, None), [], {}, st, None)
    if how in ("copy", "__copy__"):
        t.A = m.guard(how, lambda: call(m.A, how))
    else:
        t.A = m.guard("default construction", new)
        if how == "serialize":
            d = m.guard("serialize", lambda: call(m.A, "serialize"))
            m.guard("deserialize", lambda: call(t.A, "deserialize", d))
        else:
            d = m.guard("get_hyperparameters", lambda: call(m.A, "get_hyperparameters"))
            m.guard("set_hyperparameters", lambda: call(t.A, "set_hyperparameters", d))
            # a switch of the module, not one of its hyperparameters
            m.guard("setting trainable", lambda: I.set_attr(t.A, "trainable", m.attr("trainable"), st, None))
    m.open()
    if t.A is m.A:
        raise AnalysisError(f"{how} returns the object itself")
    return t


def behaviour(m, params, shape, n=1):
    """what the module computes on a batch of unknown entries"""
    k = itertools.count()
    data = tmap(lambda s: fresh(f"x{next(k)}", (n,) + s.d), shape)
    got, _, _ = m.forward(params, data)
    return got


def equal(a, b):
    """None when the same tree of arrays, else where it differs"""
    if struct(a) != struct(b):
        return f"{struct(b)} instead of {struct(a)}"
    for x, y in zip(leaves(a), leaves(b)):
        if isinstance(x, NDA) and isinstance(y, NDA):
            for i, (v, w) in enumerate(zip(x.v, y.v)):
                if v != w:
                    if odd_atoms(w):
                        raise AnalysisError(f"entry {w.show()[:80]} uses a function without a model")
                    return f"entry {i} is {w.show()[:100]} instead of {v.show()[:100]}"
        elif x is not y and x != y:
            return f"{x} becomes {y}"
    return None


def check(rep, rule, tag, where, m, how, shape, compiled):
    """one object, one route"""
    if compiled:
        p = m.fresh_params()
        if any(isinstance(x, NDA) for x in leaves(p)) and not hermitian_only(m):
            m.method("set_params", thaw(m.I, m.st, p))
        else:
            p = m.params()
    t = twin(m, how)
    if not compiled or how == "hyperparameters" and m.cls not in MODELS(m):
        t.compile(shape)
        if not compiled:
            m.compile(shape)
        p = m.params()
        t.method("set_params", thaw(m.I, m.st, p)) if leaves(p) else None
    m.open()
    rep.ob(rule, tag + ".ready", t.method("is_ready") is m.method("is_ready"), f"is_ready() is {short(t.method('is_ready'))} after {how}", where)
    q = t.params()
    understood(q)
    rep.ob(rule, tag + ".params", same(q, p), f"the parameters {struct(p)} become {struct(q)} or change value after {how}", where)
    a, b = behaviour(m, p, shape), behaviour(t, p, shape)
    d = equal(a, b)
    rep.ob(rule, tag + ".function", d is None, f"after {how} the module computes something else: {d}", where)
    for nm in ("trainable",):
        x, y = m.attr(nm), t.attr(nm)
        rep.ob(rule, tag + "." + nm, x is y, f"{nm} {short(x)} becomes {short(y)} after {how}", where)
    rep.saw(m.I)


def MODELS(m):
    return {c.name for c in model_classes(m.prog)}


def hermitian_only(m):
    return m.cls in ("AffineHermitianMatrix", "ExpectationValueSum", "TransitionAmplitudeSum", "AffineEigenvaluePMM", "AffineObservablePMM", "SequentialModel", "NonSequentialModel")


def units(prog, rep, rule, rows, routes):
    """rows: (class, args, keywords, shape); routes: (route, compiled)"""
    names = {c.name: c for c in concrete_modules(prog)}
    names.update({c.name: c for c in model_classes(prog)})
    seen = set()
    for cls, args, kw, shape in rows:
        tag0 = tagof(cls, args, kw, shape)
        if cls not in names or tag0 in seen:
            continue
        seen.add(tag0)
        where = prog.rel(names[cls].module.path)
        for how, compiled in routes:
            if how == "hyperparameters" and (cls == "Constant" and args or any(isinstance(x, NDA) for v in (*args, *kw.values()) for x in leaves(v))):
                continue    # given parameters are not hyperparameters
            tag = f"{tag0}, {how} {'after' if compiled else 'before'} compiling"
            with rep.unit(tag):
                m = None
                if cls == "NonSequentialModel" and not compiled:
                    continue    # refuses to be saved before it is ready
                try:
                    m = Mod(prog, cls, args, hooks=RHOOKS, **kw)
                    m.compile(shape)
                    if not compiled:
                        m = Mod(prog, cls, args, hooks=RHOOKS, **kw)
                except Raised:
                    continue        # refused, nothing to restore
                try:
                    check(rep, rule, tag, where, m, how, shape, compiled)
                except Raised as e:
                    if m is not None and m.I.open_branches:
                        raise AnalysisError(str(e))
                    rep.ob(rule, tag, False, str(e), where)


def model_rows(tier, p13, p14):
    for mods, shape in p14.models(tier):
        yield "SequentialModel", (mods,), {}, shape
    for graph, shape in p14.graphs(tier):
        yield "NonSequentialModel", graph, {}, shape
    for b in (True, False):
        for act in (Inst("ReLU"), Inst("PReLU"), Inst("Comment", "c")):
            yield "SequentialModel", ([Inst("LinearNN", out_features=2, bias=b, activation=act)],), {}, Shape(2)
            yield "SequentialModel", ({"b": Inst("LinearNN", out_features=2, bias=b, activation=act), "a": Inst("LinearNN", out_features=1)},), {}, Shape(2)
    seen = {}
    for cls, kw, shape, _ in p13.table(tier):
        n = seen[cls] = seen.get(cls, 0) + 1
        if n <= (12 if tier == "thorough" else 4) and cls not in ("Constant",):
            yield "SequentialModel", ([Inst(cls, **kw)],), {}, shape
            yield "SequentialModel", ({"z": Inst("Comment", "c"), "a": [Inst(cls, **kw)]} if n % 2 else (Inst(cls, **kw),),), {}, shape
