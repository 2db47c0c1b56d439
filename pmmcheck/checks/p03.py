"""P03: a saved model comes back complete.

For every Model class the composition save -> load (and the other
persistence routes) is evaluated on a model whose modules and optimizer states
are fully symbolic instances.  Every attribute that compile / shape inference /
readiness / evaluation of the model reads, every such attribute of each of its
modules, the RNG key and every optimizer moment must be the original value.
The package-version guard must stop a strict load at every level (model,
module, base part) and must never stop a non-strict one."""
import ast

from .common import *
from .p01 import restored, required
from . import p13, p14, restore

A_ = T("sym", "A")
RNG = T("attr", A_, "rng")
INNER = ("Bias", "AffineHermitianMatrix", "MatMul")


def val(x):
    if x.op == "isinst":
        v, c = x.args
        if contains(c, lambda y: y.op == "ext" and y.args[0].endswith("PRNGKeyArray")):
            return v is RNG
        if c is T("ext", "builtins.int") and v is RNG:
            return False
        if c.op == "generic":
            return not contains(v, lambda y: y.op == "sym" and y.args[0].startswith("$"))
    if x is T("is", RNG, NONE):
        return False
    if x.op == "is" and x.args[1] is NONE and x.args[0].op == "call" and extname(x.args[0].args[0]) == "jax.tree.structure":
        return False
    if x.op == "==" and x.args[0] is x.args[1]:
        return True
    return None


def val_inner(x):
    """values inside the modules are serialisable, too"""
    d = is_serial(x)
    return val(x) if d is None else d


def key(x):
    if x.op == "call" and extname(x.args[0]) == "jax.random.wrap_key_data" and x.args[1]:
        y = x.args[1][0]
        if y.op == "call" and extname(y.args[0]) == "jax.random.key_data":
            return y.args[1][0]
    return x


def norm(t, v=val):
    for _ in range(3):
        t = assume(strip_conv(rewrite(assume(t, v), key)), v)
    return t


def norm_ref(t):
    return assume(assume(t, val), val)


def build(prog, ci, kind):
    I = Interp(prog)
    st = State()
    ms = [I.sym_instance(st, prog.get_class(c), f"$m{i}") for i, c in enumerate(INNER)]
    osc = prog.get_class("OptimizerState")
    os_ = [I.sym_instance(st, osc, f"$o{i}") for i in range(len(INNER))]
    A = I.sym_instance(st, ci, "A", {"modules": skeleton(I, st, kind, ms), "_optimizer_state": skeleton(I, st, kind, os_)})
    return I, st, A, ms, os_


def leaves_of(I, st, t):
    from ..models import flat_leaves
    return flat_leaves(I, st, t, None, None)


def route(name, I, st, A, ci):
    """-> the restored object"""
    f = const("model")
    new = lambda: I.instantiate(I.cls_term(ci), [], {}, st, ci.node)
    cm = lambda o, n, *a: I.call_method(o, n, list(a), {}, st, ci.node)
    if name == "serialize/deserialize":
        d = cm(A, "serialize")
        B = new()
        cm(B, "deserialize", d)
        return B
    if name == "save/load":
        cm(A, "save", f)
        B = new()
        cm(B, "load", f)
        return B
    if name == "save_compressed/from_file":
        cm(A, "save_compressed", f)
        return I.call(I.get_attr(I.cls_term(ci), "from_file", st, ci.node), [f], {}, st, ci.node)
    if name == "copy":
        return cm(A, "copy")
    if name == "hyperparameters":
        d = cm(A, "get_hyperparameters")
        B = new()
        cm(B, "set_hyperparameters", d)
        return B
    raise AssertionError(name)


def check_restored(prog, rep, ci, kind, rname, req, mreq):
    I, st, A, ms, os_ = build(prog, ci, kind)
    try:
        B = route(rname, I, st, A, ci)
    finally:
        rep.saw(I)
    tag = f"{ci.qual}/{rname}/{kind}"
    ok = alive(st) and I.obj(st, B) is not None and I.obj(st, B).cls is ci and B is not A
    rep.ob("object", tag, ok, f"{rname} yields {short(B)}" + ("" if alive(st) else " (always raises)"), ci.module.name)
    if not ok:
        return
    fields = st.heap[B.args[0]].fields
    for f in sorted(req):
        if f == "modules" or f in module_valued(prog, ci):
            continue            # a module given as an option: rule "same"
        if rname == "hyperparameters" and (f == "_name" or f.endswith("__trainable")):
            continue            # not hyperparameters
        x = fields.get(f)
        ok = False
        if x is not None:
            x = norm(I.snap(st, x))
            ok = restored(x, T("attr", A_, f))[0]
        rep.ob("attributes", f"{ci.qual}.{f}", ok, f"[{rname}, modules in a {kind}] attribute '{f}' becomes {short(x) if x is not None else 'unset'}", ci.module.name)
    # rng
    r = norm(I.snap(st, fields["rng"])) if "rng" in fields else None
    rep.ob("rng", tag, r is RNG, f"rng becomes {short(r) if r is not None else 'unset'}", ci.module.name)
    # modules
    mods = norm_ref(fields["modules"]) if "modules" in fields else NONE
    got = leaves_of(I, st, mods)
    want_shape = I.snap(st, skeleton(I, st, kind, leafsyms("x", 3)))
    okm = got is not None and len(got) == len(ms)
    if okm:
        m = {I.snap(st, g): s for g, s in zip(got, leafsyms("x", 3))}
        okm = subst(I.snap(st, mods), m) is want_shape
    rep.ob("structure", tag, okm, "the container of the modules changed shape or order", ci.module.name)
    if okm:
        for i, (g, mc) in enumerate(zip(got, INNER)):
            o = I.obj(st, g)
            cls_ok = o is not None and o.kind == "inst" and o.cls is prog.get_class(mc) and (g is not ms[i] or rname == "hyperparameters")
            rep.ob("modules", f"{tag}.m{i}", cls_ok, f"module {i} becomes {short(I.snap(st, g))}", ci.module.name)
            if not cls_ok or g is ms[i]:
                continue
            for f in sorted(mreq[mc]):
                x = o.fields.get(f)
                a = T("attr", T("sym", f"$m{i}"), f)
                okf = False
                if x is not None:
                    x = norm(I.snap(st, x), val_inner)
                    rr = restored(x, a)
                    okf = rr[0] or f.endswith("__trainable") and rr[1] is a
                rep.ob("modules", f"{tag}.m{i}.{f}", okf, f"module {i} ({mc}) attribute '{f}' becomes {short(x) if x is not None else 'unset'}", ci.module.name)
    # both routes of the optimizer state: through its own serialized form (its
    # leaves are not serialisable as they are) and as a hyperparameter
    for vtag, v in (("", val), ("/hyperparameter", val_inner)):
        raw = fields.get("_optimizer_state")
        x = norm(I.snap(st, raw), v) if raw is not None else None
        ok = x is not None and optimizer_ok(prog, I, st, x, raw, os_, v)
        rep.ob("optimizer", tag + vtag, ok, f"optimizer state becomes {short(x, 300) if x is not None else 'unset'}", ci.module.name)


def optimizer_ok(prog, I, st, x, raw, os_, v):
    osc = prog.get_class("OptimizerState")
    if x is I.snap(st, skeleton_like(I, st, os_, x)):
        return True
    if x.op == "call" and extname(x.args[0]) in ("jax.tree.unflatten", "jax.tree_util.tree_unflatten") and len(x.args[1]) == 2:
        struct, ls = x.args[1]
        ok = ls.op in ("list", "tuple") and len(ls.args) == len(os_) and \
            struct.op == "call" and extname(struct.args[0]) == "jax.tree.structure"
        for i, l in enumerate(ls.args if ok else ()):
            ok = ok and l.op == "inst" and all(y is T("attr", T("sym", f"$o{i}"), k) for k, y in l.args[1]) and {k for k, _ in l.args[1]} >= {"m", "v", "params"}
        return ok
    got = leaves_of(I, st, assume(assume(raw, v), v))
    ok = got is not None and len(got) == len(os_)
    for i, g in enumerate(got or ()):
        o = I.obj(st, g)
        ok = ok and o is not None and o.kind == "inst" and o.cls is osc and all(
            o.fields.get(k) is None or norm(I.snap(st, o.fields[k])) is T("attr", T("sym", f"$o{i}"), k) for k in ("m", "v", "params", "epoch"))
    return ok


def skeleton_like(I, st, os_, x):
    """the original optimizer tree in the container kind of x"""
    kind = "dict" if x.op == "dict" else "nested" if x.op in ("list", "tuple") and len(x.args) == 2 else "list"
    return skeleton(I, st, kind, os_)


def poison(I, st, d, seen):
    """dict refs reachable from d that carry a package_version"""
    out = []
    o = I.obj(st, d)
    if o is None or d in seen:
        return out
    seen.add(d)
    if o.kind == "dict":
        if any(k is const("package_version") for k, _ in o.items):
            out.append(d)
        for _, v in o.items:
            out += poison(I, st, v, seen)
    elif o.kind == "list":
        for v in o.items:
            out += poison(I, st, v, seen)
    return out


def strict_checks(prog, rep, ci):
    OLD = T("sym", "OLD_VERSION")

    def differs(x):
        if x.op in ("==", "<", "<=", "is") and contains(x, lambda y: y is OLD):
            return False if x.op in ("==", "is") else None
        return val_inner(x)
    I0, st0, A, ms, os_ = build(prog, ci, "list")
    d0 = I0.call_method(A, "serialize", [], {}, st0, ci.node)
    n = len(poison(I0, st0, d0, set()))
    rep.ob("version-recorded", ci.qual, n >= 2 + len(ms), f"only {n} of {2 + len(ms)} serialized parts record package_version", ci.module.name)
    for entry in ("deserialize", "load", "from_file"):
        for lvl in range(n):
            for strict in (True, False):
                I, st, A, ms, os_ = build(prog, ci, "list")
                d = I.call_method(A, "serialize", [], {}, st, ci.node)
                I.set_item(poison(I, st, d, set())[lvl], const("package_version"), OLD, st, ci.node)
                f = const("model.npz")
                kw = {"strict_package_version": TRUE if strict else FALSE}
                mark = len(I.events)
                if entry != "deserialize":
                    from ..models import np_savez
                    np_savez(I, [f], {k.args[0]: v for k, v in I.obj(st, d).items}, st, ci.node)
                if entry == "from_file":
                    I.call(I.get_attr(I.cls_term(ci), "from_file", st, ci.node), [f], kw, st, ci.node)
                else:
                    B = I.instantiate(I.cls_term(ci), [], {}, st, ci.node)
                    I.call_method(B, entry, [d if entry == "deserialize" else f], kw, st, ci.node)
                rep.saw(I)
                hit = False
                for e in I.events[mark:]:
                    if e.kind != "raise":
                        continue
                    if not any(contains(c, lambda y: y is OLD) for c, _ in e.pc):
                        continue
                    vs = [(assume(c, differs), pol) for c, pol in e.pc]
                    # ignore conditions that do not involve the version
                    dec = [(c, pol) for (c, pol), (c0, _) in zip(vs, e.pc) if contains(c0, lambda y: y is OLD)]
                    if all(c.op == "const" and bool(c.args[0]) == pol for c, pol in dec):
                        hit = True
                tag = f"{ci.qual}.{entry}/part{lvl}/strict={strict}"
                rep.ob("strict", tag, hit == strict,
                       "a strict load accepts data from another package version" if strict else "a non-strict load rejects data from another package version", ci.module.name)


def module_valued(prog, ci):
    """options of the class that are themselves modules"""
    a = method(prog, ci, "__init__").node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None and "BaseModule" in ast.dump(x.annotation)}


def run(prog, rep):
    rep.rule("object", "the route returns a live new object of the same class", 5)
    rep.rule("attributes", "every attribute the model's behaviour reads is restored", 20)
    rep.rule("rng", "the RNG key is restored", 5)
    rep.rule("structure", "the module container keeps its shape and order", 5)
    rep.rule("modules", "module i has its class and every attribute its behaviour reads", 50)
    rep.rule("optimizer", "every optimizer moment is restored at its position", 5)
    rep.rule("version-recorded", "every serialized part records the package version", 3)
    rep.rule("strict", "with strict_package_version a version mismatch in any part raises; without it never does", 20)
    rep.rule("same", "a concrete model restored by serialize/deserialize, copy or its hyperparameters - before or after compiling - reports the same readiness, parameters and trainable flag and computes the same function", 100)
    restore.units(prog, rep, "same", restore.model_rows(rep.tier, p13, p14), [("serialize", True), ("serialize", False), ("copy", True), ("hyperparameters", True)] + ([("copy", False)] if rep.tier == "thorough" else []))
    mreq = {c: required(prog, prog.get_class(c), rep) for c in INNER}
    for ci in model_classes(prog):
        req = set()
        for m in ("compile", "get_output_shape", "is_ready"):
            J, s2, ref, v = sym_method(prog, ci, m, self_="A")
            req |= reads(J, ref)
            rep.saw(J)
        J, s2, ref, clo, v, _ = callable_of(prog, ci, self_="A")
        req |= reads(J, ref)
        rep.saw(J)
        req = {f for f in req if not f.startswith("$")}
        for rname in ("serialize/deserialize", "save/load", "save_compressed/from_file", "copy", "hyperparameters"):
            for kind in ("list", "dict", "nested"):
                with rep.unit(f"{ci.qual}/{rname}/{kind}"):
                    check_restored(prog, rep, ci, kind, rname, req, mreq)
        strict_checks(prog, rep, ci)
