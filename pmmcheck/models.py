"""Models of builtins and of the library calls the package relies on.

`call_model` returns the abstract result of a call, or None when the callee
has no model (it then becomes an opaque `call` term).
"""
from __future__ import annotations

import ast
import math

from . import carr
from . import nd as nd_

from .terms import (FALSE, NONE, T, TRUE, cmp_, conj, const, contains, disj,
                    ite, item, neg, subst)

ALIAS = {
    "jax.tree_util.tree_map": "jax.tree.map",
    "jax.tree_map": "jax.tree.map",
    "jax.tree_util.tree_leaves": "jax.tree.leaves",
    "jax.tree_util.tree_structure": "jax.tree.structure",
    "jax.tree_util.tree_flatten": "jax.tree.flatten",
    "jax.tree_util.tree_unflatten": "jax.tree.unflatten",
    "jax.tree_util.tree_reduce": "jax.tree.reduce",
    "jax.tree_util.tree_all": "jax.tree.all",
    "jax.tree_util.tree_flatten_with_path": "jax.tree.flatten_with_path",
    "jax.tree_util.tree_map_with_path": "jax.tree.map_with_path",
    "jax.tree_util.tree_leaves_with_path": "jax.tree.leaves_with_path",
    "jax.remat": "jax.checkpoint",
    "jax.numpy.conjugate": "jax.numpy.conj",
    "numpy.conjugate": "numpy.conj",
    "typing.Dict": "builtins.dict", "typing.List": "builtins.list",
    "typing.Tuple": "builtins.tuple", "typing.Set": "builtins.set",
    "beartype.typing.Dict": "builtins.dict", "beartype.typing.List": "builtins.list",
    "beartype.typing.Tuple": "builtins.tuple", "beartype.typing.Set": "builtins.set",
}

IDENT = {
    "jax.jit", "jax.checkpoint", "jaxtyping.jaxtyped", "beartype.beartype",
    "functools.wraps", "staticmethod", "jax.named_call", "functools.cache",
    "functools.lru_cache", "jax.block_until_ready", "typing.cast",
}

GRADS = {"jax.grad": "grad", "jax.jacfwd": "jac", "jax.jacrev": "jac",
         "jax.jacobian": "jac", "jax.hessian": "hess",
         "jax.value_and_grad": "vg"}

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort",
            "reverse", "update", "setdefault", "popitem", "add", "discard",
            "__setitem__", "__delitem__", "fill", "resize", "setfield",
            "put", "partition", "itemset"}


def kwget(args, kwargs, pos, name, default=None):
    if name in kwargs:
        return kwargs[name]
    if pos is not None and pos < len(args):
        return args[pos]
    return default


def leaf(t):
    if t.op == "treemap":
        return t.args[0]
    if t.op == "ite":
        return ite(t.args[0], leaf(t.args[1]), leaf(t.args[2]))
    return T("leaf", t)


def call_model(I, fn, args, kwargs, st, node):
    if any(a.op == "star" for a in args) and fn.op == "ext" and fn.args[0] not in ("builtins.zip", "jax.tree.map", "builtins.print"):
        return None
    if fn.op == "ext":
        q = ALIAS.get(fn.args[0], fn.args[0])
        if q in I.hooks:
            r = I.hooks[q](I, fn, args, kwargs, st, node)
            if r is not None:
                return r
        if q == "builtins.slice" and 1 <= len(args) <= 3 and not kwargs:
            a = list(args)
            return T("slice", *([NONE, a[0], NONE] if len(a) == 1 else (a + [NONE])[:3]))
        if q.startswith("builtins."):
            f = BI.get(q[9:])
            if f is not None:
                return f(I, args, kwargs, st, node)
            return None
        if q in IDENT:
            if args:
                return args[0]
            return T("partialv", T("ext", "pmm.ident"), (), ())
        if q == "pmm.ident":
            return args[0] if args else NONE
        if q == "functools.partial" and args:
            return T("partialv", args[0], tuple(args[1:]), tuple(sorted(kwargs.items(), key=lambda x: x[0])))
        if q in GRADS:
            kw = dict(kwargs)
            if len(args) > 1:
                kw.setdefault("argnums", args[1])
            if len(args) > 2:
                kw.setdefault("has_aux", args[2])
            f = args[0] if args else kw.pop("fun", NONE)
            return T("gradf", GRADS[q], f, tuple(sorted(((k, I.snap(st, v)) for k, v in kw.items()), key=lambda x: x[0])))
        if q == "jax.vmap":
            ia = kwget(args, kwargs, 1, "in_axes", const(0))
            oa = kwget(args, kwargs, 2, "out_axes", const(0))
            return T("vmapf", args[0] if args else kwargs.get("fun", NONE), I.snap(st, ia), I.snap(st, oa))
        if q in ("jax.numpy.vectorize", "numpy.vectorize") and I.nd and args:
            return T("vecf", args[0], I.snap(st, kwargs.get("signature", NONE)) if set(kwargs) <= {"signature"} and len(args) == 1 else T("sym", "?"))
        if I.nd:
            r = I.ndop(st, node, lambda: nd_.call(I, q, [I.refine(st, a) for a in args], {k: I.refine(st, v) for k, v in kwargs.items()}, st, node))
            if r is not None:
                return r
        if I.carr and args:
            r = carr.call(I, q, [I.refine(st, a) for a in args], kwargs, st)
            if r is not None:
                return r
        f = EXT.get(q)
        if f is not None:
            return f(I, args, kwargs, st, node)
        return None
    if fn.op == "gradf":
        return call_grad(I, fn, args, kwargs, st, node)
    if fn.op == "vmapf":
        return call_vmap(I, fn, args, kwargs, st, node)
    if fn.op == "vecf":
        return I.ndop(st, node, lambda: nd_.vectorized(I, fn, list(args), kwargs, st, node))
    if fn.op == "call" and fn.args[0].op == "ext":
        q = fn.args[0].args[0]
        if q in ("functools.wraps", "jaxtyping.jaxtyped") and len(args) == 1:
            return args[0]
    if fn.op == "attr":
        return method_model(I, fn.args[0], fn.args[1], args, kwargs, st, node)
    return None


# ------------------------------------------------------------------ jax
def call_grad(I, fn, args, kwargs, st, node):
    kind, f, kw = fn.args
    kw = dict(kw)
    fv = I.call(f, args, kwargs, st, node)
    fv = I.snap(st, fv)
    argn = kw.get("argnums", const(0))
    aux = kw.get("has_aux") is TRUE
    val = item(fv, const(0)) if aux else fv
    sa = tuple(I.snap(st, a) for a in args)
    G = T("gradof", kind, argn, val, sa)
    if kind == "vg":
        return T("tuple", T("tuple", val, item(fv, const(1))) if aux else val, G)
    return T("tuple", G, item(fv, const(1))) if aux else G


def stack(I, st, xs):
    """leafwise stack of equal structures along a new leading axis, or None"""
    xs = [I.snap(st, x) for x in xs]
    x0 = xs[0]
    if x0.op in ("tuple", "list") and all(x.op == x0.op and len(x.args) == len(x0.args) for x in xs):
        ys = [stack(I, st, [x.args[i] for x in xs]) for i in range(len(x0.args))]
        return None if None in ys else T("tuple", *ys)
    if x0 is NONE:
        return NONE
    if all(x.op == "arr" for x in xs):
        return T("arr", T("stack", *[x.args[0] for x in xs]), T("tuple", const(len(xs)), *x0.args[1].args))
    return None


def unstack(I, st, t):
    """leading-axis slices of a tree of arrays with constant leading size, or None"""
    t = I.snap(st, t)
    if t.op in ("tuple", "list"):
        ys = [unstack(I, st, x) for x in t.args]
        if any(y is None for y in ys) or len({len(y) for y in ys}) != 1:
            return None
        return [T("tuple", *[y[i] for y in ys]) for i in range(len(ys[0]))]
    if t.op == "arr" and t.args[1].op == "tuple" and t.args[1].args and t.args[1].args[0].op == "const":
        return [I.get_item(t, const(i), st) for i in range(t.args[1].args[0].args[0])]
    if t.op == "call" and t.args[0] is T("ext", "jax.numpy.arange") and len(t.args[1]) == 1 and t.args[1][0].op == "const":
        return [const(i) for i in range(t.args[1][0].args[0])]
    return None


def rowof(t, ax, shaped=False):
    """one slice of a tree of arrays along an axis"""
    if t.op in ("tuple", "list") and ax.op == "const":
        return T("tuple", *[rowof(x, ax, shaped) for x in t.args])
    if shaped and t.op != "arr":
        from .shapes import ShapeError, infer
        try:
            sh = infer(t)
        except ShapeError:
            sh = None
        if sh:
            t = T("arr", t, T("tuple", *sh))
    if t.op == "arr" and t.args[1].op == "tuple" and ax.op == "const" and isinstance(ax.args[0], int) and -len(t.args[1].args) <= ax.args[0] < len(t.args[1].args):
        sh = list(t.args[1].args)
        sh.pop(ax.args[0])
        return T("arr", T("row", t, ax), T("tuple", *sh))
    return T("row", t, ax)


def call_vmap(I, fn, args, kwargs, st, node):
    f, ia, oa = fn.args
    if I.nd and any(nd_.hasnd(I, st, I.snap(st, a)) for a in list(args) + list(kwargs.values())):
        return I.ndop(st, node, lambda: nd_.vmap(I, f, ia, oa, list(args), kwargs, st, node))
    if I.unroll and len(args) == 1 and not kwargs and ia in (const(0), T("tuple", const(0)), T("list", const(0))) and oa is const(0):
        xs = unstack(I, st, args[0])
        if xs:
            r = stack(I, st, [I.call(f, [x], {}, st, node) for x in xs])
            if r is not None:
                return r
    ins = []
    for i, a in enumerate(args):
        ax = item(ia, const(i)) if ia.op in ("tuple", "list") else ia
        ins.append(a if ax is NONE else rowof(I.snap(st, a), ax, I.carr))
    kws = {k: rowof(I.snap(st, v), const(0), I.carr) for k, v in kwargs.items()}
    r = I.snap(st, I.call(f, ins, kws, st, node))

    def wrap(x, ax):
        if x.op == "tuple":
            return T("tuple", *[wrap(y, item(ax, const(i)) if ax.op == "tuple" else ax) for i, y in enumerate(x.args)])
        return x if ax is NONE else T("vm", x, ax)
    return wrap(r, oa)


def tree_map(I, args, kwargs, st, node):
    f = kwget(args, kwargs, 0, "f")
    trees = list(args[1:])
    if "tree" in kwargs:
        trees.insert(0, kwargs["tree"])
    isl = kwargs.get("is_leaf")
    if f is None or not trees:
        return None
    if any(t.op == "star" for t in trees):
        rest = [t for t in trees if t.op == "star"]
        trees = [t for t in trees if t.op != "star"]
        if not trees:
            trees = [T("item", rest[0].args[0], const(0))]
        extra = [T("star", T("leaf", r.args[0])) for r in rest]
    else:
        extra = []
    return _tmap(I, f, [I.refine(st, t) for t in trees], extra, isl, st, node)


def is_node_class(ci):
    return any("register_dataclass" in ast.dump(d) or "register_pytree_node_class" in ast.dump(d) for d in ci.node.decorator_list)


def node_kind(I, st, t):
    """what kind of pytree node t is (with its children's names), None when unknown"""
    t = I.refine(st, t)
    if t is NONE:
        return ("None",)
    if t.op == "tuple" and not any(x.op in ("star", "each", "maybe") for x in t.args):
        return ("tuple", len(t.args))
    if is_leafterm(t):
        return ("leaf",)
    o = I.obj(st, t)
    if o is not None and o.kind == "list" and not any(x.op in ("star", "each", "maybe") for x in o.items):
        return ("list", len(o.items))
    if o is not None and o.kind == "dict" and all(k.op == "const" and v.op not in ("maybe", "each") for k, v in o.items):
        return ("dict", frozenset(k for k, _ in o.items))
    return None


def _tmap(I, f, trees, extra, isl, st, node):
    t0 = trees[0]
    if t0.op == "ite":
        c = t0.args[0]
        A, B = [], []
        for t in trees:
            if t.op == "ite" and t.args[0] is c:
                A.append(t.args[1])
                B.append(t.args[2])
            else:
                A.append(t)
                B.append(t)
        return ite(c, _tmap(I, f, A, extra, isl, st, node), _tmap(I, f, B, extra, isl, st, node))
    if is_leafterm(t0):
        return I.call(f, trees + extra, {}, st, node)
    if isl is None or isl is NONE:
        if t0 is NONE:
            return NONE
        if t0.op == "tuple" and all(t.op == "tuple" and len(t.args) == len(t0.args) for t in trees) and not any(x.op in ("star", "each", "maybe") for x in t0.args):
            return T("tuple", *[_tmap(I, f, [t.args[i] for t in trees], extra, isl, st, node) for i in range(len(t0.args))])
    if t0 is NONE and I.truth(st, I.call(isl, [t0], {}, st, node)) is False:
        return NONE
    if isl is not None and isl is not NONE and t0.op == "tuple" and not any(x.op in ("star", "each", "maybe") for x in t0.args):
        d = I.truth(st, I.call(isl, [t0], {}, st, node))
        if d is True:
            return I.call(f, trees + extra, {}, st, node)
        if d is False and all(t.op == "tuple" and len(t.args) == len(t0.args) for t in trees):
            return T("tuple", *[_tmap(I, f, [t.args[i] for t in trees], extra, isl, st, node) for i in range(len(t0.args))])
    o = I.obj(st, t0)
    if isl is not None and isl is not NONE and o is not None and o.kind in ("list", "dict"):
        d = I.truth(st, I.call(isl, [t0], {}, st, node))
        if d is True:
            return I.call(f, trees, {}, st, node)
        structural = d is False
    else:
        structural = isl is None or isl is NONE
    if I.nd and (structural or o is None and t0.op == "tuple"):
        k0 = node_kind(I, st, t0)
        for t in trees[1:]:
            k = node_kind(I, st, t)
            if k0 is not None and k is not None and k0[0] != "leaf" and k != k0:
                return I.fails(st, node, f"tree mismatch: {k0} and {k}")
    if structural:
        if o is not None and o.kind == "list" and not any(x.op in ("star", "each", "maybe") for x in o.items):
            cols = [_seq(I, st, t, len(o.items)) for t in trees]
            return I.new_list(st, [_tmap(I, f, [c[i] for c in cols], extra, isl, st, node) for i in range(len(o.items))])
        if o is not None and o.kind == "dict":
            if all(k.op == "const" and v.op not in ("maybe", "each") for k, v in o.items):
                return I.new_dict(st, [(k, _tmap(I, f, [I.get_item(t, k, st) for t in trees], extra, isl, st, node)) for k, v in o.items])
    if t0.op == "const" or is_leafterm(t0):
        return I.call(f, trees + extra, {}, st, node)
    if o is not None and o.kind == "inst" and o.cls is not None and is_node_class(o.cls):
        # a registered dataclass is an inner node unless is_leaf says otherwise
        d = False if isl is None or isl is NONE else I.truth(st, I.call(isl, [t0], {}, st, node))
        if d is False and all(I.obj(st, t) is not None and I.obj(st, t).cls is o.cls for t in trees):
            flds = {k: _tmap(I, f, [I.refine(st, I.get_attr(t, k, st, node)) for t in trees], extra, isl, st, node) for k in o.fields}
            from .interp import HObj
            return I.alloc(st, HObj("inst", cls=o.cls, fields=flds, name=o.name))
    if o is not None and o.kind == "inst" and all(I.obj(st, t) is not None or True for t in trees):
        # a module instance is a leaf; keep object identity
        pc0 = st.pc
        r = I.call(f, trees + extra, {}, st, node)
        st.pc = pc0 if not any(x[0].op == "dead" for x in st.pc) else st.pc
        return r
    ss = [I.snap(st, t) for t in trees]
    lv = [leaf(t) for t in ss]
    pc0 = st.pc
    r = I.snap(st, I.call(f, lv + extra, {}, st, node))
    st.pc = pc0
    if r is lv[0]:
        return ss[0]
    return T("treemap", r, ss[0])


LEAFOPS = ("nd", "clo", "bm", "partialv", "vmapf", "arr", "+", "*", "/", "//", "%", "**", "neg", "-", "hole")


ARRFN = ("jax.numpy.", "jax.lax.dynamic_", "jax.random.split", "jax.random.fold_in", "jax.random.permutation", "jax.random.normal", "jax.random.uniform")


ARRMETH = ("reshape", "astype", "ravel", "flatten", "conj", "sum", "mean", "transpose", "squeeze", "copy")


def is_leafterm(t):
    """values that are never pytree containers"""
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].startswith(ARRFN):
        return True
    if t.op == "vm":
        return is_leafterm(t.args[0])
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ARRMETH and is_leafterm(t.args[0].args[0]):
        return True
    if t.op == "item" and t.args[0].op in ("call", "arr", "item") and is_leafterm(t.args[0]):
        return True
    if t.op == "ext" and t.args[0].startswith("user."):
        return True
    return t.op in LEAFOPS or t.op == "const" and t is not NONE or t.op == "sym" and t.args[0].startswith("$leaf")


def _seq(I, st, t, n):
    return [I.get_item(t, const(i), st) for i in range(n)]


def flat_leaves(I, st, t, isl, node, depth=0):
    """list of leaves of a tree with known structure, else None"""
    t = I.refine(st, t)
    if isl is not None and isl is not NONE and (t.op in ("ref", "tuple") or t is NONE):
        if I.truth(st, I.call(isl, [t], {}, st, node)) is True:
            return [t]
    if t is NONE:
        return []
    o = I.obj(st, t)
    xs = None
    if t.op == "tuple":
        xs = list(t.args)
    elif o is not None and o.kind == "list":
        xs = list(o.items)
    elif o is not None and o.kind == "dict":
        if not all(k.op == "const" for k, _ in o.items):
            return None
        try:
            xs = [v for _, v in sorted(o.items, key=lambda kv: kv[0].args[0])]
        except TypeError:
            return None
    elif o is not None and o.kind == "inst":
        return [t]
    elif t.op == "const" and (depth or I.nd):
        return [t]
    elif t.op != "const" and is_leafterm(t):
        return [t]
    if xs is None:
        return None
    out = []
    for x in xs:
        if x.op in ("star", "each", "maybe"):
            return None
        ys = flat_leaves(I, st, x, isl, node, depth + 1)
        if ys is None:
            return None
        out += ys
    return out


def tree_leaves(I, args, kwargs, st, node):
    xs = flat_leaves(I, st, args[0], kwget(args, kwargs, 1, "is_leaf"), node)
    return I.new_list(st, xs) if xs is not None else None


def tree_all(I, args, kwargs, st, node):
    if args and args[0].op == "const" and args[0] is not NONE:
        return const(bool(args[0].args[0]))
    xs = flat_leaves(I, st, args[0], kwget(args, kwargs, 1, "is_leaf"), node)
    if xs is None or any(x.op in ("maybe", "each", "star") for x in xs):
        return None
    return b_all(I, [T("tuple", *xs)], {}, st, node)


def _skel(I, st, t, isl, node, leaves):
    """snapshot of a known structure with leaves replaced by holes"""
    t = I.refine(st, t)
    if isl is not None and isl is not NONE and (t.op in ("ref", "tuple") or t is NONE):
        if I.truth(st, I.call(isl, [t], {}, st, node)) is True:
            leaves.append(t)
            return T("hole")
    if t is NONE:
        return NONE
    o = I.obj(st, t)
    if t.op == "tuple":
        return T("tuple", *[_skel(I, st, x, isl, node, leaves) for x in t.args])
    if o is not None and o.kind == "list":
        return T("list", *[_skel(I, st, x, isl, node, leaves) for x in o.items])
    if o is not None and o.kind == "dict":
        return T("dict", tuple((k, _skel(I, st, v, isl, node, leaves)) for k, v in sorted(o.items, key=lambda kv: kv[0].args[0])))
    leaves.append(t)
    return T("hole")


def up_to(I, st, sk, t):
    """subtrees of t at the holes of a structure, else None"""
    t = I.refine(st, t)
    if sk.op == "hole":
        return [t]
    if sk is NONE:
        return [] if t is NONE else None
    if sk.op == "dict":
        its = I.dict_items(t, st)
        if its is None or sorted(str(k) for k, _ in its) != sorted(str(k) for k, _ in sk.args[0]):
            return None
        xs = [(v, dict(its)[k]) for k, v in sk.args[0]]
    else:
        ys = list(t.args) if t.op == "tuple" else list(I.obj(st, t).items) if I.obj(st, t) is not None and I.obj(st, t).kind == "list" else None
        if ys is None or len(ys) != len(sk.args):
            return None
        xs = list(zip(sk.args, ys))
    out = []
    for a, x in xs:
        r = up_to(I, st, a, x)
        if r is None:
            return None
        out += r
    return out


def tree_flatten(I, args, kwargs, st, node):
    isl = kwget(args, kwargs, 1, "is_leaf")
    xs = flat_leaves(I, st, args[0], isl, node)
    if xs is None:
        return None
    ys = []
    sk = _skel(I, st, args[0], isl, node, ys)
    return T("tuple", I.new_list(st, ys), T("treedef", sk))


def fill(I, st, sk, it):
    if sk.op == "hole":
        return next(it)
    if sk.op == "tuple":
        return T("tuple", *[fill(I, st, x, it) for x in sk.args])
    if sk.op == "list":
        return I.new_list(st, [fill(I, st, x, it) for x in sk.args])
    if sk.op == "dict":
        return I.new_dict(st, [(k, fill(I, st, v, it)) for k, v in sk.args[0]])
    return sk


def tree_unflatten(I, args, kwargs, st, node):
    td, xs = I.refine(st, args[0]), args[1]
    if td.op == "ite":
        return ite(td.args[0], tree_unflatten(I, [td.args[1], xs], kwargs, st, node) or NONE, tree_unflatten(I, [td.args[2], xs], kwargs, st, node) or NONE)
    if td.op != "treedef":
        return None
    its = I.as_items(xs, st)
    n = sum(1 for x in _holes(td.args[0]))
    if its is None:
        return fill(I, st, td.args[0], iter([I.get_item(xs, const(i), st) for i in range(n)]))
    if len(its) != n or any(x.op == "maybe" for x in its):
        return None
    return fill(I, st, td.args[0], iter(its))


def tree_transpose(I, args, kwargs, st, node):
    o = I.refine(st, kwget(args, kwargs, 0, "outer_treedef"))
    i = I.refine(st, kwget(args, kwargs, 1, "inner_treedef"))
    t = kwget(args, kwargs, 2, "pytree_to_transpose")
    xs = flat_leaves(I, st, t, None, node)
    if o.op != "treedef" or xs is None:
        return None
    no = len(list(_holes(o.args[0])))
    if i is NONE:
        return None
    ni = len(list(_holes(i.args[0]))) if i.op == "treedef" else None
    if ni is None or no * ni != len(xs):
        return None
    cols = [fill(I, st, o.args[0], iter([xs[a * ni + b] for a in range(no)])) for b in range(ni)]
    return fill(I, st, i.args[0], iter(cols))


def _holes(t):
    if t.op == "hole":
        yield t
    elif t.op == "dict":
        for _, v in t.args[0]:
            yield from _holes(v)
    elif t.op in ("tuple", "list"):
        for x in t.args:
            yield from _holes(x)


def tree_structure(I, args, kwargs, st, node):
    x = I.refine(st, args[0])
    isl = kwget(args, kwargs, 1, "is_leaf")
    if flat_leaves(I, st, x, isl, node) is None:
        return None
    return T("treedef", _skel(I, st, x, isl, node, []))


def tree_broadcast(I, args, kwargs, st, node):
    pre, full = args[0], args[1]

    def known(t):
        return I.refine(st, t).op == "tuple" or (I.obj(st, t) is not None and I.obj(st, t).kind in ("list", "dict"))

    def go(p, f):
        p = I.refine(st, p)
        if known(p):
            o = I.obj(st, p)
            if o is not None and o.kind == "dict":
                return I.new_dict(st, [(k, go(v, I.get_item(f, k, st))) for k, v in o.items])
            xs = I.as_items(p, st)
            r = [go(x, I.get_item(f, const(i), st)) for i, x in enumerate(xs)]
            return T("tuple", *r) if p.op == "tuple" else I.new_list(st, r)
        if flat_leaves(I, st, f, None, node) is None:
            return T("call", T("ext", "jax.tree.broadcast"), (I.snap(st, p), I.snap(st, f)), ())
        sk = _skel(I, st, f, None, node, [])
        n = sum(1 for _ in _holes(sk))
        return fill(I, st, sk, iter([p] * n))
    if not known(pre):
        return None
    return go(pre, full)


def permutation(I, args, kwargs, st, node):
    key, x = kwget(args, kwargs, 0, "key"), kwget(args, kwargs, 1, "x")
    ax = kwget(args, kwargs, 2, "axis", const(0))
    ind = kwget(args, kwargs, 3, "independent", FALSE)
    if x is None or key is None:
        return None
    x = I.refine(st, x)
    r = T("call", T("ext", "jax.random.permutation"), (I.snap(st, key), I.snap(st, x)), (("axis", I.snap(st, ax)), ("independent", I.snap(st, ind))))
    I.emit("call", st, node, fn=T("ext", "jax.random.permutation"), args=(key, x), kwargs={"axis": ax, "independent": ind}, result=r, sargs=r.args[1], skw=dict(r.args[2]))
    if x.op == "arr":
        return T("arr", r, x.args[1])
    if x.op == "const" and isinstance(x.args[0], int) or x.op in ("+", "*", "//", "%", "min", "max") or I.is_dim(x):
        return T("arr", r, T("tuple", x))     # a permutation of range(x)
    return r


def concat(I, args, kwargs, st, node):
    xs, ax = kwget(args, kwargs, 0, "arrays"), kwget(args, kwargs, 1, "axis", const(0))
    if not I.unroll or xs is None or ax is not const(0):
        return None
    xs = I.as_items(xs, st)
    if not xs or not all(x.op == "arr" and x.args[1].op == "tuple" and x.args[1].args and x.args[1].args[0].op == "const" for x in xs):
        return None
    n = sum(x.args[1].args[0].args[0] for x in xs)
    return T("arr", T("concat", *[x.args[0] for x in xs]), T("tuple", const(n), *xs[0].args[1].args[1:]))


def reshape(I, args, kwargs, st, node):
    """split or merge of the leading axes of an array of constant size"""
    x, sh = kwget(args, kwargs, 0, "a"), kwget(args, kwargs, 1, "shape")
    if not I.unroll or x is None or sh is None:
        return None
    x, sh = I.refine(st, x), I.snap(st, sh)
    if x.op != "arr" or sh.op not in ("tuple", "list") or x.args[1].op != "tuple":
        return None
    base, dims, new = x.args[0], x.args[1].args, sh.args
    isn = lambda d: d.op == "const" and isinstance(d.args[0], int)
    if base.op == "stack" and len(dims) >= 2 and new[1:] == dims[2:] and isn(dims[1]):
        n = dims[0].args[0] * dims[1].args[0]
        if new and new[0] in (const(-1), const(n)):
            return T("arr", T("concat", *base.args), T("tuple", const(n), *dims[2:]))
    if dims and len(new) == len(dims) + 1 and new[2:] == dims[1:] and isn(dims[0]) and isn(new[0]) and isn(new[1]):
        n, p, q = dims[0].args[0], new[0].args[0], new[1].args[0]
        p, q = (n // q if p == -1 and q else p), (n // p if q == -1 and p else q)
        if p * q == n:
            return T("arr", T("stack", *[T("item", base, T("slice", const(i * q), const((i + 1) * q), NONE)) for i in range(p)]), T("tuple", const(p), const(q), *dims[1:]))
    if new == dims:
        return x
    return None


def dyn_slice(I, args, kwargs, st, node):
    x, s0, n = kwget(args, kwargs, 0, "operand"), kwget(args, kwargs, 1, "start_index"), kwget(args, kwargs, 2, "slice_size")
    ax = kwget(args, kwargs, 3, "axis", const(0))
    if x is None or s0 is None or n is None:
        return None
    x = I.refine(st, x)
    r = T("call", T("ext", "jax.lax.dynamic_slice_in_dim"), (I.snap(st, x), I.snap(st, s0), I.snap(st, n), I.snap(st, ax)), ())
    if x.op == "arr" and x.args[1].op == "tuple" and ax.op == "const" and isinstance(ax.args[0], int) and 0 <= ax.args[0] < len(x.args[1].args):
        sh = list(x.args[1].args)
        sh[ax.args[0]] = I.snap(st, n)
        return T("arr", r, T("tuple", *sh))
    return r


def pure_callback(I, args, kwargs, st, node):
    return I.call(args[0], list(args[2:]), {}, st, node)


def np_savez(I, args, kwargs, st, node):
    items = [(const(k), v) for k, v in kwargs.items() if k != "**"]
    d = I.new_dict(st, items)
    if "**" in kwargs:
        I.dict_update(d, kwargs["**"], st, node, quiet=True)
    I.emit("savez", st, node, file=args[0] if args else NONE, data=d)
    I.npz = getattr(I, "npz", {})
    I.npz[I.snap(st, args[0])] = d
    return NONE


def np_load(I, args, kwargs, st, node):
    npz = getattr(I, "npz", None)
    if not npz:
        return None
    key = I.snap(st, args[0])
    I.emit("npload", st, node, file=key, pickle=kwargs.get("allow_pickle", FALSE))
    d = npz.get(key)
    if d is None:
        return T("nofile", key)
    return T("npzfile", d)


def tree_map_path(I, args, kwargs, st, node):
    f, trees = args[0], args[1:]
    ss = [I.snap(st, t) for t in trees]
    pc0 = st.pc
    r = I.snap(st, I.call(f, [T("path", ss[0])] + [leaf(t) for t in ss], {}, st, node))
    st.pc = pc0
    return T("treemap", r, ss[0])


def tree_reduce(I, args, kwargs, st, node):
    xs = flat_leaves(I, st, args[1], kwargs.get("is_leaf"), node) if len(args) > 1 else None
    if xs is not None and len(xs) <= 16:
        acc = kwget(args, kwargs, 2, "initializer", None)
        for x in xs:
            acc = x if acc is None else I.call(args[0], [acc, x], {}, st, node)
        if acc is not None:
            return acc
    f, tree = args[0], I.snap(st, args[1])
    init = I.snap(st, kwget(args, kwargs, 2, "initializer", T("noinit")))
    lid = I.new_lid()
    lv = T("loopvar", lid, "acc")
    r = I.snap(st, I.call(f, [lv, leaf(tree)], {}, st, node))
    I.loops[lid] = {"slots": {"acc": (init, r)}, "iter": tree, "kind": "reduce", "cond": None, "elem": leaf(tree)}
    return T("treereduce", subst(r, {lv: T("acc")}), tree, init)


def lax_cond(I, args, kwargs, st, node):
    p, tf, ff = (list(args) + [None] * 3)[:3]
    tf = kwargs.get("true_fun", tf)
    ff = kwargs.get("false_fun", ff)
    if p is None or tf is None or ff is None:
        return None
    ops = list(args[3:])
    if "operand" in kwargs:
        ops.append(kwargs["operand"])
    c = I.snap(st, p)
    d = I.truth(st, c)
    if d is not None:
        return I.call(tf if d else ff, ops, {}, st, node)
    a, b = st.fork(), st.fork()
    pc0 = st.pc
    I.pc_add(a, c, True)
    I.pc_add(b, c, False)
    va = I.call(tf, ops, {}, a, node)
    vb = I.call(ff, ops, {}, b, node)
    j = I.join(c, a, b, pc0)
    st.frames, st.heap = j.frames, j.heap
    I.emit("laxcond", st, node, cond=c, a=va, b=vb)
    return _zip_ite(I, st, c, va, vb)


def _zip_ite(I, st, c, a, b):
    xa, xb = I.as_items(a, st), I.as_items(b, st)
    if xa is not None and xb is not None and len(xa) == len(xb):
        return T("tuple", *[_zip_ite(I, st, c, x, y) for x, y in zip(xa, xb)])
    return ite(c, a, b)


def carry(lid, init, I, st, pre=""):
    """-> (structure of loop variables, slots {name: init}); containers and
    registered dataclasses keep their structure (jax loops require it)"""
    slots = {}

    def go(v, nm):
        v = I.refine(st, v)
        o = I.obj(st, v)
        if v is NONE:
            return NONE
        sub = lambda k: f"{nm}.{k}" if nm else str(k)
        if v.op == "tuple" and not any(x.op in ("star", "each", "maybe") for x in v.args):
            return T("tuple", *[go(x, sub(i)) for i, x in enumerate(v.args)])
        if o is not None and o.kind == "list" and not any(x.op in ("star", "each", "maybe") for x in o.items):
            return I.new_list(st, [go(x, sub(i)) for i, x in enumerate(o.items)])
        if o is not None and o.kind == "dict" and all(k.op == "const" and x.op not in ("maybe", "each") for k, x in o.items):
            return I.new_dict(st, [(k, go(x, sub(k.args[0]))) for k, x in o.items])
        if o is not None and o.kind == "inst" and o.cls is not None and o.base is None and o.cls.is_dataclass:
            fs = {k: go(x, sub(k)) for k, x in o.fields.items()}
            return I.alloc(st, o.copy(fields=fs))
        nm = nm or "c"
        slots[nm] = I.snap(st, v)
        lv = T("loopvar", lid, nm)
        return T("arr", lv, v.args[1]) if v.op == "arr" else lv
    return go(init, pre), slots


def finish_carry(lid, lv, slots, res, I, st, info):
    def go(v, r):
        r = I.refine(st, r)
        o = I.obj(st, v)
        if v is NONE:
            return NONE
        if v.op == "tuple":
            return T("tuple", *[go(x, I.get_item(r, const(i), st)) for i, x in enumerate(v.args)])
        if o is not None and o.kind == "list":
            return I.new_list(st, [go(x, I.get_item(r, const(i), st)) for i, x in enumerate(o.items)])
        if o is not None and o.kind == "dict":
            return I.new_dict(st, [(k, go(x, I.get_item(r, k, st))) for k, x in o.items])
        if o is not None and o.kind == "inst":
            return I.alloc(st, o.copy(fields={k: go(x, I.get_attr(r, k, st, None)) for k, x in o.fields.items()}))
        var = v.args[0] if v.op == "arr" else v
        r = I.snap(st, r)
        nm = var.args[1]
        info["slots"][nm] = (slots[nm], r)
        if r is v:
            return slots[nm]
        lo = T("loopout", lid, nm)
        return T("arr", lo, v.args[1]) if v.op == "arr" else lo
    return go(lv, res)


def while_loop(I, args, kwargs, st, node):
    cf = kwget(args, kwargs, 0, "cond_fun")
    bf = kwget(args, kwargs, 1, "body_fun")
    init = kwget(args, kwargs, 2, "init_val")
    lid = I.new_lid()
    lv, slots = carry(lid, init, I, st)
    info = {"slots": {}, "iter": None, "kind": "lax.while", "cond": None, "elem": None, "node": node}
    I.loops[lid] = info
    pc0 = st.pc
    info["cond"] = I.snap(st, I.call(cf, [lv], {}, st, node))
    st.pc = pc0
    I.pc_add(st, T("inloop", lid), True)
    I.pc_add(st, info["cond"], True)
    r = I.call(bf, [lv], {}, st, node)
    out = finish_carry(lid, lv, slots, r, I, st, info)
    st.pc = pc0
    return out


def fori_loop(I, args, kwargs, st, node):
    lo = kwget(args, kwargs, 0, "lower")
    hi = kwget(args, kwargs, 1, "upper")
    bf = kwget(args, kwargs, 2, "body_fun")
    init = kwget(args, kwargs, 3, "init_val")
    lid = I.new_lid()
    lv, slots = carry(lid, init, I, st)
    rng = T("rangev", I.snap(st, lo), I.snap(st, hi))
    e = T("elem", lid, rng)
    info = {"slots": {}, "iter": rng, "kind": "lax.fori", "cond": None, "elem": e, "node": node}
    I.loops[lid] = info
    pc0 = st.pc
    I.pc_add(st, T("inloop", lid), True)
    r = I.call(bf, [e, lv], {}, st, node)
    out = finish_carry(lid, lv, slots, r, I, st, info)
    st.pc = pc0
    return out


def scan(I, args, kwargs, st, node):
    f = kwget(args, kwargs, 0, "f")
    init = kwget(args, kwargs, 1, "init")
    xs = kwget(args, kwargs, 2, "xs", NONE)
    if I.unroll and xs is not NONE and kwargs.get("reverse", FALSE) is FALSE:
        es = unstack(I, st, xs)
        if es:
            c, ys = init, []
            for e in es:
                r = I.call(f, [c, e], {}, st, node)
                c = I.get_item(r, const(0), st)
                ys.append(I.get_item(r, const(1), st))
            r = stack(I, st, ys)
            if r is not None:
                return T("tuple", c, r)
    lid = I.new_lid()
    lv, slots = carry(lid, init, I, st)
    xs = I.refine(st, xs)
    items = I.as_items(xs, st)

    def el(x):
        x = I.snap(st, x)
        if x.op == "tuple":
            return T("tuple", *[el(y) for y in x.args])
        return NONE if x is NONE else T("elem", lid, x)
    e = el(xs)
    info = {"slots": {}, "iter": I.snap(st, xs), "kind": "lax.scan", "cond": None, "elem": e, "node": node,
            "length": I.snap(st, kwargs.get("length", NONE)), "reverse": kwargs.get("reverse", FALSE)}
    I.loops[lid] = info
    pc0 = st.pc
    I.pc_add(st, T("inloop", lid), True)
    r = I.call(f, [lv, e], {}, st, node)
    c = finish_carry(lid, lv, slots, I.get_item(r, const(0), st), I, st, info)
    y = I.snap(st, I.get_item(r, const(1), st))
    info["ys"] = y
    st.pc = pc0

    def ys(v):
        if v.op == "tuple":
            return T("tuple", *[ys(q) for q in v.args])
        return NONE if v is NONE else T("scanout", lid, v)
    return T("tuple", c, ys(y))


def deep(I, st, v, memo):
    if v.op == "ref":
        if v in memo:
            return memo[v]
        o = I.obj(st, v)
        if o is None:
            return T("call", T("ext", "copy.deepcopy"), (v,), ())
        if o.kind in ("list", "set"):
            r = I.alloc(st, o.copy(items=tuple(deep(I, st, x, memo) for x in o.items)))
        elif o.kind == "dict":
            r = I.alloc(st, o.copy(items=tuple((k, deep(I, st, x, memo)) for k, x in o.items)))
        else:
            return T("call", T("ext", "copy.deepcopy"), (I.snap(st, v),), ())
        memo[v] = r
        return r
    if v.op == "tuple":
        return T("tuple", *[deep(I, st, x, memo) for x in v.args])
    if v.op in ("const", "ext", "cls", "clo"):
        return v
    if v.op == "ite":
        return ite(v.args[0], deep(I, st, v.args[1], memo), deep(I, st, v.args[2], memo))
    return T("call", T("ext", "copy.deepcopy"), (I.snap(st, v),), ())


def m_defaultdict(I, args, kwargs, st, node):
    d = b_dict(I, list(args[1:]), kwargs, st, node)
    o = I.obj(st, d)
    if o is None or o.kind != "dict":
        return None
    if args and args[0] is not NONE:
        st.setobj(d.args[0], o.copy(name="defaultdict", base=args[0]))
    return d


def m_counter(I, args, kwargs, st, node):
    xs = I.as_items(args[0], st) if args else []
    if xs is None or kwargs or any(x.op != "const" for x in xs):
        return None
    cnt = {}
    for x in xs:
        cnt[x] = cnt.get(x, 0) + 1
    d = I.new_dict(st, [(k, const(v)) for k, v in cnt.items()])
    st.setobj(d.args[0], I.obj(st, d).copy(name="counter"))
    return d


def m_deepcopy(I, args, kwargs, st, node):
    return deep(I, st, args[0], {})


def m_copy(I, args, kwargs, st, node):
    o = I.obj(st, args[0])
    if o is not None and o.kind in ("list", "dict", "set"):
        return I.alloc(st, o.copy())
    return T("call", T("ext", "copy.copy"), (I.snap(st, args[0]),), ())


def m_prod(I, args, kwargs, st, node):
    xs = I.as_items(args[0], st) if args else None
    if xs is None or any(x.op in ("star", "each", "maybe") for x in xs):
        return None
    r = kwargs.get("start", const(1))
    for x in xs:
        r = I.do_binop("*", r, x, st)
    return r


def m_math(name):
    def f(I, args, kwargs, st, node):
        if not kwargs and args and all(a.op == "const" and type(a.args[0]) in (int, float, bool) for a in args):
            try:
                return const(getattr(math, name)(*[a.args[0] for a in args]))
            except (ValueError, TypeError, OverflowError):
                return None
        return None
    return f


EXT = {
    "math.prod": m_prod,
    **{"math." + n: m_math(n) for n in ("floor", "ceil", "gcd", "lcm", "isqrt", "comb", "factorial", "trunc", "fabs", "isnan", "isinf", "isfinite", "copysign")},
    "jax.tree.map": tree_map,
    "jax.tree.map_with_path": tree_map_path,
    "jax.tree.reduce": tree_reduce,
    "jax.tree.leaves": tree_leaves, "jax.tree.all": tree_all,
    "jax.tree.flatten": tree_flatten, "jax.tree.unflatten": tree_unflatten, "jax.tree.structure": tree_structure,
    "jax.tree.broadcast": tree_broadcast, "jax.tree.transpose": tree_transpose,
    "jax.pure_callback": pure_callback,
    "jax.random.permutation": permutation, "jax.lax.dynamic_slice_in_dim": dyn_slice,
    "numpy.savez": np_savez, "numpy.savez_compressed": np_savez, "jax.numpy.savez": np_savez,
    "numpy.load": np_load, "jax.numpy.load": np_load,
    "jax.lax.cond": lax_cond,
    "jax.lax.while_loop": while_loop,
    "jax.lax.fori_loop": fori_loop,
    "jax.lax.scan": scan, "jax.numpy.concatenate": concat, "jax.numpy.reshape": reshape,
    "collections.deque": lambda I, a, k, st, n: I.new_list(st, I.as_items(a[0], st)) if a and I.as_items(a[0], st) is not None else None if a else I.new_list(st, []),
    "collections.Counter": m_counter, "collections.defaultdict": m_defaultdict, "collections.OrderedDict": lambda I, a, k, st, n: b_dict(I, a, k, st, n),
    "ordered_set.OrderedSet": lambda I, a, k, st, n: b_set(I, a, k, st, n),
    "copy.deepcopy": m_deepcopy,
    "copy.copy": m_copy,
}


# ------------------------------------------------------------------ builtins
def b_len(I, args, kwargs, st, node):
    xs = I.as_items(args[0], st)
    if xs is not None and not any(x.op == "maybe" for x in xs):
        return const(len(xs))
    o = I.obj(st, args[0])
    if o is not None and o.kind == "inst" and o.cls is not None and I.prog.find(o.cls, "__len__"):
        return I.call_method(args[0], "__len__", [], {}, st, node)
    v = I.snap(st, args[0])
    if v.op == "nd" and v.args[0].ndim:
        return const(v.args[0].shape[0])
    if v.op == "const" and isinstance(v.args[0], (str, tuple)):
        return const(len(v.args[0]))
    if I.nd and v.op == "const":
        return I.fails(st, node, f"object of type {type(v.args[0]).__name__} has no len()")
    if v.op == "map" and len(v.args[2].args) == 1 and not v.args[3].args:
        return b_lenterm(v.args[2].args[0])
    if v.op in ("listof",):
        return b_lenterm(v.args[0])
    return b_lenterm(v)


def b_lenterm(v):
    while v.op in ("listof", "enumv", "keysv", "valuesv", "itemsv", "revv"):
        v = v.args[0]
    if v.op == "rangev" and len(v.args) == 1:
        return v.args[0]
    if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] == "jax.random.split":
        kw = dict(v.args[2])
        n = v.args[1][1] if len(v.args[1]) > 1 else kw.get("num", const(2))
        if n.op == "const" and type(n.args[0]) is int:
            return n
    return T("call", T("ext", "builtins.len"), (v,), ())


def b_zip(I, args, kwargs, st, node):
    if len(args) == 1 and args[0].op == "star":
        return None
    if any(a.op == "star" for a in args):
        return None
    return T("zipv", *args)


def b_enumerate(I, args, kwargs, st, node):
    return T("enumv", args[0], kwget(args, kwargs, 1, "start", const(0)))


def b_range(I, args, kwargs, st, node):
    if len(args) == 2 and args[0] is const(0):
        args = args[1:]
    return T("rangev", *[I.snap(st, a) for a in args])


def b_reversed(I, args, kwargs, st, node):
    return T("revv", args[0])


def iter_value(I, v, st, node):
    """sequence value for list()/tuple(); iterates instances with __iter__"""
    o = I.obj(st, v)
    if o is not None and o.kind == "inst" and o.cls is not None and I.prog.find(o.cls, "__iter__"):
        return I.call_method(v, "__iter__", [], {}, st, node)
    return v


def b_list(I, args, kwargs, st, node):
    if not args:
        return I.new_list(st, [])
    v = iter_value(I, args[0], st, node)
    xs = I.as_items(v, st)
    if xs is not None:
        return I.new_list(st, xs)
    o = I.obj(st, v)
    if o is not None and o.kind == "list":
        return I.new_list(st, o.items)
    v = I.refine(st, v)
    if v.op == "ite":
        return ite(v.args[0], b_list(I, [v.args[1]], {}, st, node), b_list(I, [v.args[2]], {}, st, node))
    v = I.snap(st, v)
    if v.op in ("map", "listof"):
        return v
    return T("listof", v)


def b_tuple(I, args, kwargs, st, node):
    if not args:
        return T("tuple")
    v = iter_value(I, args[0], st, node)
    xs = I.as_items(v, st)
    if xs is not None:
        return T("tuple", *xs)
    o = I.obj(st, v)
    if o is not None and o.kind == "list":
        return T("tuple", *o.items)
    v = I.refine(st, v)
    if v.op == "ite":
        return ite(v.args[0], b_tuple(I, [v.args[1]], {}, st, node), b_tuple(I, [v.args[2]], {}, st, node))
    v = I.snap(st, v)
    if v.op in ("map", "listof"):
        return v
    return T("listof", v)


def b_set(I, args, kwargs, st, node):
    from .interp import HObj
    if not args:
        return I.alloc(st, HObj("set", items=()))
    xs = I.as_items(args[0], st)
    if xs is not None:
        u = []
        for x in xs:
            if x not in u:
                u.append(x)
        return I.alloc(st, HObj("set", items=tuple(u)))
    return T("setof", I.snap(st, args[0]))


def b_dict(I, args, kwargs, st, node):
    r = I.new_dict(st, [])
    if args:
        its = I.dict_items(args[0], st)
        if its is None:
            xs = I.as_items(args[0], st)
            if xs is None or not all(x.op == "tuple" and len(x.args) == 2 for x in xs):
                v = I.snap(st, args[0])
                if v.op == "dictmap" and not kwargs:
                    return v
                if not kwargs:
                    return T("dictof", v)
        I.dict_update(r, args[0], st, node, quiet=True)
    for k, v in kwargs.items():
        if k == "**":
            I.dict_update(r, v, st, node, quiet=True)
        else:
            o = st.heap[r.args[0]]
            out = list(o.items)
            I._dset(out, const(k), v)
            st.setobj(r.args[0], o.copy(items=tuple(out)))
    return r


def b_getattr(I, args, kwargs, st, node):
    if len(args) >= 2 and args[1].op == "const" and isinstance(args[1].args[0], str):
        nm = args[1].args[0]
        o = I.obj(st, args[0])
        if o is not None and o.kind == "inst":
            if nm in o.fields or (o.cls and I.prog.find(o.cls, nm, kinds=("methods", "props", "attrs"))) or o.base is not None:
                return I.get_attr(args[0], nm, st, node)
            if len(args) > 2:
                return args[2]
        if args[0].op in ("ext", "pkgmod", "cls"):
            return I.get_attr(args[0], nm, st, node)
        if len(args) > 2:
            return T("getattrd", I.snap(st, args[0]), nm, I.snap(st, args[2]))
        return I.get_attr(args[0], nm, st, node)
    return T("getattr", *[I.snap(st, a) for a in args])


def b_setattr(I, args, kwargs, st, node):
    if args[1].op == "const" and isinstance(args[1].args[0], str):
        I.set_attr(args[0], args[1].args[0], args[2], st, node)
        return NONE
    nm = I.snap(st, args[1])
    I.emit("setattr", st, node, obj=args[0], attr=nm, value=args[2])
    o = I.obj(st, args[0])
    if o is not None and o.kind == "inst":
        d = dict(o.fields)
        d[("dyn", nm)] = args[2]
        # keep as string-keyed to stay sortable
        d = {k if isinstance(k, str) else f"$dyn:{k[1]!r}": v for k, v in d.items()}
        st.setobj(args[0].args[0], o.copy(fields=d))
    return NONE


def b_hasattr(I, args, kwargs, st, node):
    if args[1].op == "const":
        nm = args[1].args[0]
        o = I.obj(st, args[0])
        if o is not None and o.kind == "inst":
            if nm in o.fields:
                return TRUE
            if o.cls and I.prog.find(o.cls, nm, kinds=("methods", "props", "attrs")):
                return TRUE
            if o.base is None:
                return FALSE
        if o is not None and o.kind in ("list", "dict", "set"):
            return const(hasattr({"list": list, "dict": dict, "set": set}[o.kind], nm))
        v = I.refine(st, args[0])
        if v.op == "tuple":
            return const(hasattr(tuple, nm))
        if v.op == "const":
            return const(hasattr(v.args[0], nm))
        if v.op == "nd" and nm in ("shape", "dtype", "ndim", "size", "T", "at"):
            return TRUE
    return T("hasattr", I.snap(st, args[0]), I.snap(st, args[1]))


_TYPES = {"int": int, "float": float, "str": str, "bool": bool, "tuple": tuple, "list": list, "dict": dict,
          "complex": complex, "set": set, "bytes": bytes}


def pytree_of(I, v, leaf, st):
    """isinstance(v, jaxtyping.PyTree[leaf]): every leaf is an instance; None
    when the structure is not known"""
    if leaf.op == "tuple" and leaf.args:
        leaf = leaf.args[0]
    v = I.refine(st, v)
    one = isinst1(I, v, leaf, st)
    if one is TRUE:
        return TRUE
    xs = flat_leaves(I, st, v, None, None)
    if xs is None:
        return None
    if len(xs) == 1 and xs[0] is v:
        return one
    return conj([isinst1(I, x, leaf, st) for x in xs])


def isinst1(I, v, c, st):
    if I.nd and c.op == "generic" and c.args[0].op == "ext" and c.args[0].args[0] == "jaxtyping.PyTree":
        r = pytree_of(I, v, c.args[1], st)
        if r is not None:
            return r
    if I.nd and c.op == "generic" and c.args[0].op == "ext" and c.args[0].args[0] == "jaxtyping.Shaped" and c.args[1].op == "tuple" and c.args[1].args[1] is const("..."):
        c = c.args[1].args[0]
    if c.op == "tuple":
        return disj([isinst1(I, v, x, st) for x in c.args])
    if c.op == "|":
        return disj([isinst1(I, v, x, st) for x in c.args])
    v = I.refine(st, v)
    if v.op == "ite":
        return ite(v.args[0], isinst1(I, v.args[1], c, st), isinst1(I, v.args[2], c, st))
    nm = c.args[0] if c.op in ("ext", "cls") else None
    if nm in ("jax._src.prng.PRNGKeyArray", "jaxtyping.PRNGKeyArray") and I.nd:
        if v.op in ("carr", "nd", "const", "tuple", "clo", "cls", "bm", "slice") or I.obj(st, v) is not None:
            return FALSE
        if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] in ("jax.random.key", "jax.random.split", "jax.random.fold_in", "jax.random.wrap_key_data") or v.op == "arr" and v.args[0] in (T("sym", "rng"), T("sym", "rng2")):
            return TRUE
    if v.op in ("carr", "nd"):
        if nm in ("jax.numpy.ndarray", "jax.Array", "jaxtyping.Array"):
            return TRUE
        if nm == "numpy.ndarray" or nm and (nm.startswith("builtins.") and nm != "builtins.object" or c.op == "cls"):
            return FALSE
    if v.op == "arr":
        if nm in ("numpy.ndarray", "jax.numpy.ndarray", "jax.Array", "jaxtyping.Array"):
            return TRUE
        if nm and (nm.startswith("builtins.") and nm != "builtins.object" or c.op == "cls"):
            return FALSE
    if v.op == "ext" and v.args[0].startswith("user.") and (nm and nm.startswith("builtins.") or c.op == "cls"):
        return FALSE
    if v.op == "ndwrap":
        return const(nm in ("numpy.ndarray", "jax.numpy.ndarray"))
    bi = nm[9:] if nm and nm.startswith("builtins.") else None
    if bi == "object":
        return TRUE
    if nm in ("numpy.ndarray", "jax.numpy.ndarray", "jax.Array", "jaxtyping.Array") and (v.op in ("const", "tuple", "ref", "cls", "clo", "bm", "fstr") or I.obj(st, v) is not None):
        return FALSE
    if v.op == "const":
        if bi in _TYPES:
            return const(isinstance(v.args[0], _TYPES[bi]))
        if c.op == "cls":
            return FALSE
    o = I.obj(st, v)
    if o is not None:
        if o.kind in ("list", "dict", "set"):
            if bi in _TYPES:
                return const(bi == o.kind)
            if c.op == "cls":
                return FALSE
        if o.kind == "inst":
            if c.op == "cls" and o.cls is not None:
                return const(I.classes[c.args[0]] in I.prog.mro(o.cls))
            if bi in _TYPES:
                return FALSE
    if v.op == "slice" and (bi in _TYPES or bi == "slice" or c.op == "cls"):
        return const(bi == "slice")
    if v.op == "tuple" and bi in _TYPES:
        return const(bi == "tuple")
    if v.op == "tuple" and c.op == "cls":
        return FALSE
    if v.op in ("clo", "bm", "cls", "partialv") and bi in _TYPES:
        return FALSE
    if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0].startswith(("jax.numpy.", "numpy.asarray", "numpy.array", "jax.random.key", "jax.random.wrap_key_data", "jax.random.fold_in", "jax.random.PRNGKey")) and (bi in _TYPES or c.op == "cls"):
        return FALSE
    if I.nd and bi in _TYPES and v.op in ("call", "item") and is_leafterm(v):
        return FALSE
    return T("isinst", I.snap(st, v), c)


def b_isinstance(I, args, kwargs, st, node):
    return isinst1(I, args[0], args[1], st)


def b_any(I, args, kwargs, st, node):
    xs = I.as_items(args[0], st)
    if xs is not None:
        out = []
        for x in xs:
            g = None
            if x.op == "maybe":
                g, x = x.args
            d = I.truth(st, x)
            t = const(d) if d is not None else I.snap(st, x)
            out.append(conj([g, t]) if g is not None else t)
        return disj(out)
    return T("any", I.snap(st, args[0]))


def b_all(I, args, kwargs, st, node):
    xs = I.as_items(args[0], st)
    if xs is not None:
        out = []
        for x in xs:
            g = None
            if x.op == "maybe":
                g, x = x.args
            d = I.truth(st, x)
            t = const(d) if d is not None else I.snap(st, x)
            out.append(disj([neg(g), t]) if g is not None else t)
        return conj(out)
    v = I.snap(st, args[0])
    if v.op == "map":
        return neg(T("any", T("map", v.args[0], neg(v.args[1]), *v.args[2:])))
    return T("all", v)


def b_divmod(I, args, kwargs, st, node):
    from .terms import binop
    a, b = (I.snap(st, x) for x in args)
    return T("tuple", binop("//", a, b), binop("%", a, b))


def b_type(I, args, kwargs, st, node):
    if len(args) != 1:
        return None
    o = I.obj(st, args[0])
    if o is not None and o.kind == "inst" and o.cls is not None:
        return I.cls_term(o.cls)
    if o is not None and o.kind in ("list", "dict", "set") and o.cls is None:
        return T("ext", "builtins." + o.kind)
    if args[0].op == "tuple":
        return T("ext", "builtins.tuple")
    return None


def b_vars(I, args, kwargs, st, node):
    if args:
        return T("objdict", args[0])
    return None


def b_callable(I, args, kwargs, st, node):
    if args[0].op in ("clo", "bm", "cls", "partialv", "gradf", "vmapf") or args[0].op == "ext" and args[0].args[0].startswith("user."):
        return TRUE
    o = I.obj(st, args[0])
    if args[0].op in ("const", "tuple", "arr", "carr") or o is not None and o.kind in ("list", "dict", "set"):
        return FALSE
    return None


def b_map(I, args, kwargs, st, node):
    f, its = args[0], args[1:]
    seq = T("zipv", *its) if len(its) > 1 else its[0]
    xs = I.as_items(seq, st)
    if xs is not None and not any(x.op == "maybe" for x in xs):
        return I.new_list(st, [I.call(f, list(x.args) if len(its) > 1 else [x], {}, st, node) for x in xs])
    e = I.elem_of(seq, st, 0)
    pc0 = st.pc
    I.pc_add(st, T("inloop", T("iter", I.snap(st, seq))), True)
    r = I.call(f, list(e.args) if len(its) > 1 else [e], {}, st, node)
    st.pc = pc0
    return I.mk_map([r], {"iters": [I.snap(st, seq)], "conds": []}, st)


def b_conv(name):
    conv = {"int": int, "float": float, "str": str, "bool": bool, "abs": abs}[name]

    def f(I, args, kwargs, st, node):
        if not args and not kwargs and name in ("int", "float", "str", "bool"):
            return const({"int": 0, "float": 0.0, "str": "", "bool": False}[name])
        if len(args) == 1 and args[0].op == "ndwrap" and name != "abs":
            args = [args[0].args[0]]
        if name == "bool" and len(args) == 1:
            d = I.truth(st, args[0])
            if d is not None:
                return const(d)
            return I.cond_term(args[0], st)
        if len(args) == 1 and args[0].op == "const":
            try:
                return const(conv(args[0].args[0]))
            except Exception:
                return None
        return None
    return f


def b_minmax(name):
    def f(I, args, kwargs, st, node):
        if len(args) == 1:
            xs = I.as_items(args[0], st)
        else:
            xs = list(args)
        if xs is None or kwargs:
            return None
        if all(x.op == "const" for x in xs) and xs:
            try:
                return const((min if name == "min" else max)(x.args[0] for x in xs))
            except Exception:
                return None
        return T(name, *sorted({I.snap(st, x) for x in xs}))
    return f


def b_iter(I, args, kwargs, st, node):
    from .interp import HObj
    v = iter_value(I, args[0], st, node)
    o = I.obj(st, v)
    if o is not None and o.kind == "iter":
        return v
    xs = I.as_items(v, st)
    if xs is not None and not any(x.op == "maybe" for x in xs):
        return I.alloc(st, HObj("iter", items=tuple(xs)))
    return v


def b_next(I, args, kwargs, st, node):
    o = I.obj(st, args[0])
    if o is not None and o.kind == "iter":
        if o.items:
            st.setobj(args[0].args[0], o.copy(items=o.items[1:]))
            return o.items[0]
        if len(args) > 1:
            return args[1]
    xs = I.as_items(args[0], st) if o is None or o.kind == "list" else None
    if xs and xs[0].op != "maybe":
        return xs[0]
    if xs == [] and len(args) > 1:
        return args[1]
    return None


def b_sorted(I, args, kwargs, st, node):
    xs = I.as_items(args[0], st)
    if xs is None or any(x.op == "maybe" for x in xs):
        return None
    keys = xs
    if "key" in kwargs and kwargs["key"] is not NONE:
        keys = [I.snap(st, I.call(kwargs["key"], [x], {}, st, node)) for x in xs]
    ks = [plain(k) for k in keys]
    if any(k is None for k in ks):
        return None
    try:
        order = sorted(range(len(xs)), key=lambda i: ks[i][0], reverse=kwargs.get("reverse") is TRUE)
    except TypeError:
        return None
    return I.new_list(st, [xs[i] for i in order])


def plain(t):
    """(python value,) of a constant term, else None"""
    if t.op == "const":
        return (t.args[0],)
    if t.op in ("tuple", "list"):
        xs = [plain(x) for x in t.args]
        if all(x is not None for x in xs):
            return (tuple(x[0] for x in xs),)
    return None


def b_sum(I, args, kwargs, st, node):
    xs = I.as_items(args[0], st)
    if xs is None or any(x.op == "maybe" for x in xs):
        return None
    r = kwget(args, kwargs, 1, "start", const(0))
    for x in xs:
        r = I.do_binop("+", r, x, st, node)
    return r


def b_filter(I, args, kwargs, st, node):
    xs = I.as_items(args[1], st)
    if xs is None or any(x.op == "maybe" for x in xs):
        return None
    out = []
    for x in xs:
        d = I.truth(st, x if args[0] is NONE else I.call(args[0], [x], {}, st, node))
        if d is None:
            return None
        if d:
            out.append(x)
    return I.new_list(st, out)


def f_reduce(I, args, kwargs, st, node):
    xs = I.as_items(args[1], st)
    if xs is None or any(x.op == "maybe" for x in xs):
        return None
    xs = list(xs)
    if len(args) > 2:
        xs.insert(0, args[2])
    if not xs:
        return None
    r = xs[0]
    for x in xs[1:]:
        r = I.call(args[0], [r, x], {}, st, node)
    return r


def f_chain(I, args, kwargs, st, node):
    out = []
    for a in args:
        xs = I.as_items(a, st)
        if xs is None:
            return None
        out += xs
    return I.new_list(st, out)


def f_chain_from(I, args, kwargs, st, node):
    xs = I.as_items(args[0], st)
    return None if xs is None else f_chain(I, xs, {}, st, node)


EXT.update({"functools.reduce": f_reduce, "itertools.chain": f_chain, "itertools.chain.from_iterable": f_chain_from})


BI = {
    "len": b_len, "zip": b_zip, "enumerate": b_enumerate, "range": b_range, "reversed": b_reversed,
    "list": b_list, "tuple": b_tuple, "set": b_set, "frozenset": b_set, "dict": b_dict, "getattr": b_getattr,
    "setattr": b_setattr, "hasattr": b_hasattr, "isinstance": b_isinstance, "any": b_any, "all": b_all,
    "divmod": b_divmod, "type": b_type, "vars": b_vars, "callable": b_callable, "map": b_map, "iter": b_iter,
    "int": b_conv("int"), "float": b_conv("float"), "str": b_conv("str"), "bool": b_conv("bool"), "abs": b_conv("abs"),
    "next": b_next, "sorted": b_sorted, "sum": b_sum, "filter": b_filter,
    "min": b_minmax("min"), "max": b_minmax("max"),
}


# ------------------------------------------------------------------ methods
def method_model(I, b, name, args, kwargs, st, node):
    from .interp import HObj, plain_const
    b = I.refine(st, b)
    if b.op == "ite":
        return None
    if b.op == "nd":
        return I.ndop(st, node, lambda: nd_.method(I, b, name, args, kwargs, st, node))
    if b.op == "atv" and b.args[0].op == "nd":
        return I.ndop(st, node, lambda: nd_.at_update(I, b.args[0], b.args[1], name, args, st))
    if b.op == "carr":
        return carr.method(I, b, name, args, kwargs, st)
    if I.carr and b.op == "const" and name == "item" and not args:
        return b
    if b.op == "arr" and name == "reshape" and I.unroll and not kwargs:
        return reshape(I, [b, args[0] if len(args) == 1 and args[0].op != "const" else T("tuple", *args)], {}, st, node)
    if b.op == "ndwrap" and name in ("item", "tolist"):
        return b.args[0]
    if b.op == "const" and isinstance(b.args[0], str):
        try:
            vals = []
            for a in args:
                if a.op == "const":
                    vals.append(a.args[0])
                elif a.op == "tuple" and all(x.op == "const" for x in a.args):
                    vals.append(tuple(x.args[0] for x in a.args))
                else:
                    xs = I.as_items(a, st)
                    if xs is not None and all(x.op == "const" for x in xs):
                        vals.append([x.args[0] for x in xs])
                    else:
                        return None
            if name in ("lower", "upper", "strip", "startswith", "endswith", "join", "replace", "split", "rsplit",
                        "lstrip", "rstrip", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isidentifier", "isnumeric", "isdecimal", "find", "rfind", "index", "zfill", "swapcase", "capitalize", "removeprefix", "removesuffix", "partition", "format", "count", "title"):
                r = getattr(b.args[0], name)(*vals)
                if isinstance(r, list):
                    return I.new_list(st, [const(x) for x in r])
                if isinstance(r, tuple):
                    return T("tuple", *[const(x) for x in r])
                return const(r)
        except Exception:
            return None
        return None
    if b.op == "tuple" and name in ("count", "index") and len(args) == 1 and not kwargs:
        k = I.snap(st, args[0])
        xs = [I.snap(st, x) for x in b.args]
        if plain_const(k) and all(plain_const(x) for x in xs):
            if name == "count":
                return const(xs.count(k))
            if k in xs:
                return const(xs.index(k))
    if b.op == "treedef" and name in ("flatten_up_to", "unflatten") and len(args) == 1 and not kwargs:
        if name == "unflatten":
            return tree_unflatten(I, [b, args[0]], {}, st, node)
        out = up_to(I, st, b.args[0], args[0])
        return I.new_list(st, out) if out is not None else None
    if b.op == "objdict":
        if name == "update":
            its = list(I.dict_items(args[0], st) or []) if args else []
            if args and I.dict_items(args[0], st) is None:
                I.emit("setattr", st, node, obj=b.args[0], attr=T("anyattr"), value=I.snap(st, args[0]))
            for k, v in its + [(const(k), v) for k, v in kwargs.items()]:
                if k.op == "const":
                    I.set_attr(b.args[0], k.args[0], v.args[1] if v.op == "maybe" else v, st, node)
            return NONE
        if name in ("items", "keys", "values"):
            its = I.dict_items(b, st)
            if its is not None:
                d = I.new_dict(st, its)
                return T({"items": "itemsv", "keys": "keysv", "values": "valuesv"}[name], d)
        if name == "copy":
            its = I.dict_items(b, st)
            if its is not None:
                return I.new_dict(st, its)
        if name in ("get", "pop") and args and args[0].op == "const":
            return I.get_attr(b.args[0], args[0].args[0], st, node)
        return None
    o = I.obj(st, b)
    if b.op == "dict":
        if name == "get" and args:
            its = dict(b.args[0])
            if args[0] in its:
                v = its[args[0]]
                return v.args[1] if v.op == "maybe" else v
            if args[0].op == "const" and all(k.op == "const" for k in its):
                return args[1] if len(args) > 1 else NONE
            return None
        if name in ("items", "keys", "values"):
            return T({"items": "itemsv", "keys": "keysv", "values": "valuesv"}[name], b)
        if name == "copy":
            return I.new_dict(st, b.args[0])
    if o is None or o.kind == "inst":
        if name in ("items", "keys", "values") and not args and b.op not in ("ext",):
            return T({"items": "itemsv", "keys": "keysv", "values": "valuesv"}[name], I.snap(st, b))
        if name in MUTATORS and b.op not in ("ext", "atv", "pkgmod", "cls", "superv"):
            I.emit("mutcall", st, node, obj=b, method=name, args=tuple(args))
        return None
    oid = b.args[0]
    if o.kind == "list":
        if name == "append":
            I.emit("mutcall", st, node, obj=b, method=name, args=tuple(args))
            st.setobj(oid, o.copy(items=o.items + (args[0],)))
            return NONE
        if name == "extend":
            I.list_extend(b, args[0], st, node)
            return NONE
        if name == "insert":
            I.emit("mutcall", st, node, obj=b, method=name, args=tuple(args))
            k = args[0]
            if k.op == "const" and isinstance(k.args[0], int) and not any(x.op in ("each", "star", "maybe") for x in o.items):
                xs = list(o.items)
                xs.insert(k.args[0], args[1])
                st.setobj(oid, o.copy(items=tuple(xs)))
            else:
                st.setobj(oid, o.copy(items=(T("each", I.new_lid(), *(o.items + (args[1],))),)))
            return NONE
        if name == "pop":
            I.emit("mutcall", st, node, obj=b, method=name, args=tuple(args))
            k = args[0] if args else const(-1)
            if k.op == "const" and not any(x.op in ("each", "star", "maybe") for x in o.items):
                xs = list(o.items)
                if not isinstance(k.args[0], int):
                    return I.fails(st, node, "a list index must be an integer")
                if -len(xs) <= k.args[0] < len(xs):
                    r = xs.pop(k.args[0])
                    st.setobj(oid, o.copy(items=tuple(xs)))
                    return r
            return T("popped", I.snap(st, b), I.snap(st, k))
        if name == "copy":
            return I.new_list(st, o.items)
        if name == "popleft":
            return method_model(I, b, "pop", [const(0)], {}, st, node)
        if name == "appendleft":
            return method_model(I, b, "insert", [const(0), args[0]], {}, st, node)
        if name in ("index", "count") and len(args) == 1:
            k = I.snap(st, args[0])
            xs = [I.snap(st, x) for x in o.items]
            if all(plain_const(x) for x in xs) and plain_const(k):
                if name == "count":
                    return const(xs.count(k))
                if k in xs:
                    return const(xs.index(k))
                if I.nd:
                    return I.fails(st, node, f"{k} is not in the list")
            elif I.nd and not any(x.op in ("each", "star", "maybe") for x in xs):
                eq = [cmp_("==", x, k) for x in xs]
                if all(x in (TRUE, FALSE) for x in eq):
                    if name == "count":
                        return const(eq.count(TRUE))
                    if TRUE in eq:
                        return const(eq.index(TRUE))
                    return I.fails(st, node, f"{k} is not in the list")
            return None
        if name == "clear":
            I.emit("mutcall", st, node, obj=b, method=name, args=())
            st.setobj(oid, o.copy(items=()))
            return NONE
        if name in ("sort", "reverse", "remove"):
            I.emit("mutcall", st, node, obj=b, method=name, args=tuple(args))
            if name == "reverse" and not any(x.op in ("each", "star", "maybe") for x in o.items):
                st.setobj(oid, o.copy(items=tuple(reversed(o.items))))
            else:
                st.setobj(oid, o.copy(items=(T("each", I.new_lid(), *o.items),)))
            return NONE
        return None
    if o.kind == "set":
        if name == "clear":
            I.emit("mutcall", st, node, obj=b, method=name, args=())
            st.setobj(oid, o.copy(items=()))
            return NONE
        if name == "copy":
            return I.alloc(st, HObj("set", items=o.items))
        if name in ("intersection", "difference", "union", "symmetric_difference") and len(args) == 1:
            r = b_set(I, [args[0]], {}, st, node)
            ro = I.obj(st, r)
            if ro is not None and all(plain_const(I.snap(st, x)) for x in o.items + ro.items):
                return I.do_binop({"intersection": "&", "difference": "-", "union": "|", "symmetric_difference": "^"}[name], b, r, st, node)
        if name in ("discard", "remove", "update") and I.graph:
            I.emit("mutcall", st, node, obj=b, method=name, args=tuple(args))
            r = b_set(I, [args[0]], {}, st, node) if name == "update" else None
            ys = [args[0]] if name != "update" else I.as_items(r, st)
            if ys is not None and all(plain_const(I.snap(st, x)) for x in list(o.items) + list(ys)):
                xs = [I.snap(st, x) for x in o.items]
                ys = [I.snap(st, y) for y in ys]
                xs = xs + [y for y in ys if y not in xs] if name == "update" else [x for x in xs if x not in ys]
                st.setobj(oid, o.copy(items=tuple(xs)))
                return NONE
        if name in ("add", "discard", "remove", "update"):
            I.emit("mutcall", st, node, obj=b, method=name, args=tuple(args))
            if name == "add" and args[0] not in o.items:
                st.setobj(oid, o.copy(items=o.items + (args[0],)))
            elif name == "update":
                xs = I.as_items(args[0], st)
                st.setobj(oid, o.copy(items=o.items + (tuple(xs) if xs is not None else (T("star", I.snap(st, args[0])),))))
            return NONE
        return None
    if o.kind == "dict":
        if name == "get":
            k = I.snap(st, args[0])
            d = args[1] if len(args) > 1 else NONE
            for kk, v in o.items:
                if kk is k:
                    if v.op == "maybe":
                        return ite(v.args[0], v.args[1], d)
                    return v
            if k.op == "const" and all(kk.op == "const" for kk, _ in o.items):
                return d
            return T("call", T("attr", I.snap(st, b), "get"), tuple(I.snap(st, a) for a in args), ())
        if name in ("pop", "setdefault"):
            k = I.snap(st, args[0])
            I.emit("mutcall", st, node, obj=b, method=name, args=tuple(args))
            d = args[1] if len(args) > 1 else None
            for kk, v in o.items:
                if kk is k:
                    if name == "pop":
                        st.setobj(oid, o.copy(items=tuple(x for x in o.items if x[0] is not k)))
                    if v.op == "maybe" and d is not None:
                        return ite(v.args[0], v.args[1], d)
                    return v.args[1] if v.op == "maybe" else v
            if name == "setdefault":
                dd = d if d is not None else NONE
                if k.op == "const" and all(kk.op == "const" for kk, _ in o.items):
                    st.setobj(oid, o.copy(items=o.items + ((k, dd),)))
                    return dd
            if name == "pop" and d is not None and k.op == "const" and all(kk.op == "const" for kk, _ in o.items):
                return d
            if name == "pop" and d is None and k.op == "const" and all(kk.op == "const" for kk, _ in o.items):
                I.emit("missingkey", st, node, obj=b, key=k)
            return T("popped", I.snap(st, b), k)
        if name in ("items", "keys", "values"):
            return T({"items": "itemsv", "keys": "keysv", "values": "valuesv"}[name], b)
        if name == "update":
            if args:
                I.dict_update(b, args[0], st, node)
            if kwargs:
                d = I.new_dict(st, [(const(k), v) for k, v in kwargs.items() if k != "**"])
                I.dict_update(b, d, st, node)
                if "**" in kwargs:
                    I.dict_update(b, kwargs["**"], st, node)
            return NONE
        if name == "copy":
            return I.new_dict(st, o.items)
        if name == "clear":
            I.emit("mutcall", st, node, obj=b, method=name, args=())
            st.setobj(oid, o.copy(items=()))
            return NONE
    return None
