"""Shared queries on top of the value-flow engine."""
from __future__ import annotations

import ast

from ..interp import Interp, State
from ..program import AnalysisError
from ..terms import (FALSE, NONE, T, TRUE, children, conj, const, contains,
                     disj, ite, item, neg, rebuild, show, subst, walk)


def rewrite(t, f, memo=None):
    """bottom-up rewriting; f(T) -> T"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            r = f(rebuild(x, go))
            memo[x] = r
        return r
    return go(t)


def assume(t, val):
    """simplify t with val: T -> True/False/None for boolean atoms."""
    def f(x):
        d = val(x)
        if d is None:
            return x
        return TRUE if d else FALSE
    return rewrite(t, f)


def is_serial(x):
    """valuation: every value is of a serialisable type (and no PRNG key)."""
    if x.op == "isinst":
        c = x.args[1]
        if contains(c, lambda y: y.op == "ext" and y.args[0].endswith("PRNGKeyArray")):
            return False
        if c.op == "generic" and contains(c, lambda y: y.op == "ext" and y.args[0].endswith("jaxtyping.PyTree")):
            return True
    return None


CONV = {"numpy.asarray", "numpy.array", "jax.numpy.asarray", "jax.numpy.array", "copy.deepcopy", "copy.copy",
        "builtins.int", "builtins.float", "builtins.bool", "builtins.str", "builtins.tuple", "builtins.list",
        "jax.device_put", "jax.device_get"}


def strip_conv(t):
    """drop value-preserving conversions (asarray, copies, list/tuple, .item())"""
    def f(x):
        if x.op == "call":
            fn, a, kw = x.args
            if fn.op == "ext" and fn.args[0] in CONV and len(a) >= 1:
                return a[0]
            if fn.op == "attr" and fn.args[1] in ("item", "tolist", "copy") and not a and not kw:
                return fn.args[0]
        if x.op in ("listof", "dictof"):
            return x.args[0]
        if x.op == "treemap" and x.args[0] is T("leaf", x.args[1]):
            return x.args[1]
        return x
    return rewrite(t, f)


def self_name(fi):
    a = fi.node.args
    return (a.posonlyargs + a.args)[0].arg


def pos_names(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def method(prog, ci, name):
    r = prog.find(ci, name)
    if not r:
        raise AnalysisError(f"method {ci.name}.{name} not found")
    return r[1]


def fq(fi_or_ci):
    return fi_or_ci.qual


def is_abstract_stub(fi):
    """body is only a docstring and `raise NotImplementedError` / pass"""
    for s in fi.node.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Raise):
            continue
        return False
    return True


def concrete_modules(prog, models=False):
    """concrete module classes of the package (models: include Model subclasses)"""
    base = prog.get_class("BaseModule")
    model = prog.get_class("Model")
    out = []
    for ci in prog.subclasses(base):
        if not models and model in prog.mro(ci):
            continue
        f = prog.find(ci, "_get_callable")
        g = prog.find(ci, "__init__")
        if f is None or is_abstract_stub(f[1]):
            # ActivationBase defines func(); a class without _get_callable is abstract
            continue
        absm = False
        for nm in ("func", "get_output_shape", "compile", "get_params"):
            m = prog.find(ci, nm)
            if m and is_abstract_stub(m[1]) and m[1].node.body and any(isinstance(s, ast.Raise) for s in m[1].node.body):
                absm = True
        if absm:
            continue
        out.append(ci)
    return sorted(out, key=lambda c: c.qual)


def run_method(prog, ci, name, args=(), kwargs=None, fields=None, self_="self", I=None, st=None, ref=None, opaque=()):
    """run a method on a symbolic instance; positional args by position."""
    I = I or Interp(prog, opaque=opaque)
    st = st or State()
    ref = ref if ref is not None else I.sym_instance(st, ci, self_, fields)
    v = I.call_method(ref, name, list(args), dict(kwargs or {}), st, ci.node)
    return I, st, ref, v


def sym_method(prog, ci, name, fields=None, self_="self", opaque=(), env=None, I=None, st=None, ref=None):
    """run a method with every parameter symbolic (named after the parameter)."""
    fi = method(prog, ci, name)
    I = I or Interp(prog, opaque=opaque)
    st = st or State()
    ref = ref if ref is not None else I.sym_instance(st, ci, self_, fields)
    e = {self_name(fi): ref}
    e.update(env or {})
    v, st = I.run_function(fi, e, st)
    return I, st, ref, v


def callable_of(prog, ci, fields=None, self_="self", opaque=(), call=True, training=None):
    """run _get_callable and call the result on symbolic arguments.
    -> I, st, ref, clo, result, (params, data, training, state, rng)"""
    I = Interp(prog, opaque=opaque)
    st = State()
    ref = I.sym_instance(st, ci, self_, fields)
    clo = I.call_method(ref, "_get_callable", [], {}, st, ci.node)
    args = (T("sym", "params"), T("sym", "data"), training or T("sym", "training"), T("sym", "state"), T("sym", "rng"))
    I.mark = len(I.events)
    r = I.call(clo, list(args), {}, st, ci.node) if call else None
    return I, st, ref, clo, r, args


def reads(I, ref):
    return {e.data["attr"] for e in I.events if e.kind == "getattr" and e.data["obj"] is ref}


def ites(t):
    """leaves of an ite tree"""
    if t.op == "ite":
        return ites(t.args[1]) + ites(t.args[2])
    return [t]


def calls_to(I, pred):
    return [e for e in I.events if e.kind == "call" and pred(e)]


def extname(t):
    return t.args[0] if isinstance(t, T) and t.op == "ext" else None


def short(t, n=160):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + "…"


def alive(st):
    return not any(c.op == "dead" for c, _ in st.pc)


def eta(t):
    """tuple/list of x[0], x[1], ... (the same x throughout) -> x"""
    def f(x):
        if x.op in ("tuple", "list") and len(x.args) >= 1:
            a0 = x.args[0]
            if a0.op == "item":
                b = a0.args[0]
                if all(y is T("item", b, const(i)) for i, y in enumerate(x.args)):
                    return b
        return x
    return rewrite(t, f)


def is_empty(t):
    return t.op in ("tuple", "list") and not t.args or t.op == "dict" and not t.args[0] or t is NONE


def model_classes(prog):
    model = prog.get_class("Model")
    return [c for c in prog.subclasses(model) if c is not model]


def skeleton(I, st, kind, xs):
    """a list / dict / nested container holding xs (two or three leaves)"""
    if kind == "list":
        return I.new_list(st, list(xs))
    if kind == "dict":
        return I.new_dict(st, [(const(n), x) for n, x in zip("abcd", xs)])
    if kind == "nested":
        return I.new_list(st, [xs[0], I.new_list(st, list(xs[1:]))])
    raise AssertionError(kind)


def leafsyms(prefix, n):
    return [T("sym", f"$leaf_{prefix}{i}") for i in range(n)]


def method_calls(I, obj, name, since=0):
    """call events obj.name(...)"""
    fn = T("attr", obj, name)
    return [e for e in I.events[since:] if e.kind == "call" and e.data["fn"] is fn]
