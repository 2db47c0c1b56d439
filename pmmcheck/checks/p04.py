"""P04: a conformalized model comes back complete from every persistence
route: wrapped model, calibration scores, quantile cache, sensitivities,
normalisations, encoder, and the rebuilt neighbour index."""
from .common import *
from .p01 import required
from . import p03

A_ = T("sym", "A")


def build(prog, mc, enc=True):
    cm = prog.get_class("ConformalizedModel")
    I = Interp(prog)
    st = State()
    ms = [I.sym_instance(st, prog.get_class(c), f"$m{i}") for i, c in enumerate(p03.INNER)]
    M = I.sym_instance(st, mc, "$M", {"modules": I.new_list(st, ms), "_optimizer_state": NONE})
    f = {"model": M}
    if enc:
        oh = [c for c in prog.subclasses(prog.get_class("Scaler")) if c.name == "OneHot"][0]
        ms_ = prog.get_class("MixedScaler")
        f["_onehot_training_enc"] = I.sym_instance(st, ms_, "$E", {"feature_scalers": I.new_list(st, [NONE, I.sym_instance(st, oh, "$s0")])})
    A = I.sym_instance(st, cm, "A", f)
    return I, st, A, M, ms


def route(name, I, st, A, ci, kw=None):
    cls = I.cls_term(ci)
    kw = kw or {}
    if name.startswith("serialize"):
        d = I.call_method(A, "serialize", [], {}, st, ci.node)
        return I.call(I.get_attr(cls, "deserialize", st, ci.node), [d], kw, st, ci.node)
    s, l = name.split("/")
    I.call_method(A, s, [const("model")], {}, st, ci.node)
    return I.call(I.get_attr(cls, l, st, ci.node), [const("model")], kw, st, ci.node)


def val(x):
    if x.op == "isinst":
        v, c = x.args
        rng = T("attr", T("sym", "$M"), "rng")
        if contains(c, lambda y: y.op == "ext" and y.args[0].endswith("PRNGKeyArray")):
            return v is rng
        if c is T("ext", "builtins.int") and v is rng:
            return False
        if c.op == "generic":
            return not contains(v, lambda y: y.op == "sym" and y.args[0].startswith("$m"))
    if x is T("is", T("attr", T("sym", "$M"), "rng"), NONE):
        return False
    if x.op == "is" and x.args[1] is NONE and x.args[0].op == "call" and extname(x.args[0].args[0]) == "jax.tree.structure":
        return False
    return None


def unnd(t):
    def f(x):
        return x.args[0] if x.op == "ndwrap" else x
    return strip_conv(rewrite(t, f))


def norm(t, v=val):
    for _ in range(3):
        t = assume(unnd(rewrite(assume(t, v), p03.key)), v)
    return t


def run(prog, rep):
    rep.rule("object", "the route returns a new ConformalizedModel", 3)
    rep.rule("attributes", "every attribute calibration results live in, and that prediction reads, is restored", 50)
    rep.rule("encoder", "the categorical encoder is restored with its fitted categories", 3)
    rep.rule("index", "the neighbour index is rebuilt from the restored training data exactly when there is training data and some feature takes part in the distance, by the construction calibrate uses", 3)
    rep.rule("model", "the wrapped model is restored: class, attributes, RNG and every module", 30)
    rep.rule("strict", "with strict_package_version a version mismatch in any part raises; without it never does", 20)
    cm = prog.get_class("ConformalizedModel")
    req = {}
    for m in ("__call__", "get_qhat", "uncertainty_heuristic", "name"):
        if m == "name":
            I = Interp(prog)
            st = State()
            ref = I.sym_instance(st, cm, "A")
            I.get_attr(ref, "name", st, cm.node)
            J = I
        else:
            J, s2, ref, v = sym_method(prog, cm, m, self_="A")
        rep.saw(J)
        for f in reads(J, ref):
            req.setdefault(f, set()).add(m)
    # attributes calibrate reads (configuration of a later recalibration):
    J, s2, ref, v = sym_method(prog, cm, "__init__", self_="A")
    config = {k for k, v in J.obj(s2, ref).fields.items() if v.op == "sym"}
    for f in config:
        req.setdefault(f, set()).add("calibrate")
    req.pop("name", None)
    # the index construction of calibrate, as a function of the fields
    cal_idx = calibrate_index(prog, cm, rep)
    mreq = {c: required(prog, prog.get_class(c), rep) for c in p03.INNER}
    for mc in model_classes(prog):
        if mc.name not in ("SequentialModel", "NonSequentialModel"):
            continue
        r2 = set()
        for m in ("compile", "get_output_shape", "is_ready"):
            J, s2, ref, v = sym_method(prog, mc, m, self_="A")
            r2 |= {f for f in reads(J, ref) if not f.startswith("$")}
        for rname in ("serialize/deserialize", "save/from_file", "save_compressed/from_file"):
            with rep.unit(f"{mc.name}/{rname}"):
                tag = f"{mc.name}/{rname}"
                I, st, A, M, ms = build(prog, mc)
                B = route(rname, I, st, A, cm)
                rep.saw(I)
                o = I.obj(st, B)
                ok = o is not None and o.cls is cm and alive(st) and B is not A
                rep.ob("object", tag, ok, f"{rname} yields {short(B)}", cm.module.name)
                if not ok:
                    continue
                for f, why in sorted(req.items()):
                    if f in ("model", "_kdtree", "_onehot_training_enc"):
                        continue
                    x = o.fields.get(f)
                    x = norm(I.snap(st, x)) if x is not None else None
                    rep.ob("attributes", f"{f}/{rname}", x is T("attr", A_, f), f"attribute '{f}' (read by {', '.join(sorted(why))}) becomes {short(x) if x is not None else 'unset'}", cm.module.name)
                # encoder
                e = o.fields.get("_onehot_training_enc")
                e = norm(I.snap(st, e)) if e is not None else NONE
                want = norm(I.snap(st, I.obj(st, A).fields["_onehot_training_enc"]))
                fs = dict(e.args[1]).get("feature_scalers") if e.op == "inst" else None
                ok = fs is not None and fs.op == "list" and len(fs.args) == 2 and fs.args[0] is NONE and fs.args[1].op == "inst" and \
                    all(v is T("attr", T("sym", "$s0"), k) for k, v in fs.args[1].args[1]) and len(fs.args[1].args[1]) >= 2
                rep.ob("encoder", tag, ok, f"encoder becomes {short(e, 300)}", cm.module.name)
                # index
                k = o.fields.get("_kdtree")
                k = norm(I.snap(st, k)) if k is not None else NONE
                isn = T("is", T("attr", A_, "_training_data"), NONE)
                k0 = assume(k, lambda x: True if x is isn else None)
                k1 = assume(k, lambda x: False if x is isn else None)
                k1 = assume(k1, lambda x: used(x))
                ok = k0 is NONE and k1.op == "call" and contains(k1, lambda y: y is T("attr", A_, "_training_data"))
                if ok and cal_idx is not None:
                    ok = chain(k1) == cal_idx and all(contains(k1, lambda y: y is T("attr", A_, f)) for f in ("_range_X_train", "_distance_sensitivity")) \
                        and contains(k1, lambda y: y.op == "attr" and y.args[0] is T("sym", "$s0"))
                rep.ob("index", tag, ok, f"neighbour index becomes {short(k1, 300)}", cm.module.name)
                # model
                mo = I.obj(st, o.fields["model"])
                ok = mo is not None and mo.cls is mc and o.fields["model"] is not M
                rep.ob("model", f"{tag}.class", ok, f"wrapped model becomes {short(o.fields['model'])}", cm.module.name)
                if not ok:
                    continue
                for f in sorted(r2 - {"modules"}):
                    x = mo.fields.get(f)
                    x = norm(I.snap(st, x)) if x is not None else None
                    a = T("attr", T("sym", "$M"), f)
                    ok = x is not None and p03.restored(x, a)[0]
                    rep.ob("model", f"{tag}.{f}", ok, f"wrapped model's '{f}' becomes {short(x) if x is not None else 'unset'}", cm.module.name)
                r = norm(I.snap(st, mo.fields["rng"])) if "rng" in mo.fields else NONE
                rep.ob("model", f"{tag}.rng", r is T("attr", T("sym", "$M"), "rng"), f"wrapped model's rng becomes {short(r)}", cm.module.name)
                got = p03.leaves_of(I, st, assume(assume(mo.fields["modules"], val), val))
                ok = got is not None and len(got) == len(ms)
                rep.ob("model", f"{tag}.modules", ok, "module list lost", cm.module.name)
                for i, (g, c) in enumerate(zip(got or (), p03.INNER)):
                    go = I.obj(st, g)
                    okc = go is not None and go.cls is prog.get_class(c)
                    rep.ob("model", f"{tag}.m{i}", okc, f"module {i} becomes {short(I.snap(st, g))}", cm.module.name)
                    for f in sorted(mreq[c]) if okc else ():
                        x = go.fields.get(f)
                        a = T("attr", T("sym", f"$m{i}"), f)
                        if x is not None:
                            x = norm(I.snap(st, x), lambda y: is_serial(y) if is_serial(y) is not None else val(y))
                        okf = x is not None and (p03.restored(x, a)[0] or f.endswith("__trainable") and p03.restored(x, a)[1] is a)
                        rep.ob("model", f"{tag}.m{i}.{f}", okf, f"module {i} '{f}' becomes {short(x) if x is not None else 'unset'}", cm.module.name)
    strict(prog, rep, cm)


def used(x):
    """the index is only needed when some feature takes part in the distance sensitivity"""
    if (x.op in ("any", "anyof") or x.op == "call" and (extname(x.args[0]) or "").rsplit(".", 1)[-1] == "any") and contains(x, lambda y: y is T("attr", A_, "_distance_sensitivity")):
        return True
    return None


def chain(t):
    """outermost library calls (with constant options) applied to the data on
    its way into the index"""
    out = []
    t = unnd(t)
    while t.op == "call" and t.args[0].op == "ext" and t.args[1]:
        out.append((t.args[0].args[0].rsplit(".", 1)[1], tuple((k, v) for k, v in t.args[2] if v.op == "const")))
        t = t.args[1][0]
    return out


def calibrate_index(prog, cm, rep):
    J, st, ref, v = sym_method(prog, cm, "calibrate", self_="A")
    rep.saw(J)
    ev = [e for e in J.events if e.kind == "call" and (extname(e.data["fn"]) or "").endswith(".KDTree")]
    if not ev:
        return None
    return chain(J.snap(st, ev[0].data["result"]))


def strict(prog, rep, cm):
    OLD = T("sym", "OLD_VERSION")
    mc = prog.get_class("SequentialModel")

    def differs(x):
        if x.op in ("==", "is") and contains(x, lambda y: y is OLD):
            return False
        return val(x)
    I0, st0, A, M, ms = build(prog, mc)
    d0 = I0.call_method(A, "serialize", [], {}, st0, cm.node)
    n = len(p03.poison(I0, st0, d0, set()))
    rep.ob("strict", "version-recorded", n >= 3 + len(ms), f"only {n} of {3 + len(ms)} serialized parts record package_version", cm.module.name)
    for entry in ("deserialize", "from_file"):
        for lvl in range(n):
            for strict in (True, False):
                I, st, A, M, ms = build(prog, mc)
                d = I.call_method(A, "serialize", [], {}, st, cm.node)
                I.set_item(p03.poison(I, st, d, set())[lvl], const("package_version"), OLD, st, cm.node)
                mark = len(I.events)
                cls = I.cls_term(cm)
                if entry == "from_file":
                    from ..models import np_savez
                    np_savez(I, [const("model.npz")], {k.args[0]: v for k, v in I.obj(st, d).items}, st, cm.node)
                    arg = const("model.npz")
                else:
                    arg = d
                I.call(I.get_attr(cls, entry, st, cm.node), [arg], {"strict_package_version": TRUE if strict else FALSE}, st, cm.node)
                rep.saw(I)
                hit = raises_on(I, mark, OLD, differs)
                rep.ob("strict", f"{entry}/part{lvl}/strict={strict}", hit == strict,
                       "a strict load accepts data from another package version" if strict else "a non-strict load rejects data from another package version", cm.module.name)


def raises_on(I, mark, sym, v):
    for e in I.events[mark:]:
        if e.kind != "raise":
            continue
        dec = [(assume(c, v), pol) for c, pol in e.pc if contains(c, lambda y: y is sym)]
        if dec and all(c.op == "const" and bool(c.args[0]) == pol for c, pol in dec):
            return True
    return False
