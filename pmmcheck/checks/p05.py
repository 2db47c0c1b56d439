"""P05: data scalers.

transform / inverse_transform / fit of every scaler are evaluated on symbolic
data; the composition must reduce, in the rational normal form and under every
gate assignment, to the input; the fitted statistics must be the documented
reductions over the sample axis; unfitted use must raise; refitting must not
depend on the previous fit; every persistence route restores the scaler."""
from .common import *
from .algebra import *

X, X0 = T("sym", "X"), T("sym", "X0")
LX, LX0 = T("leaf", X), T("leaf", X0)


def unnd(t):
    """drop the npz array wrapper and its shape/dtype dispatch"""
    def f(x):
        if x.op == "ndwrap":
            return x.args[0]
        if x.op == "ite" and x.args[1] is x.args[2]:
            return x.args[1]
        return x
    return rewrite(strip_conv(rewrite(strip_conv(t), f)), f)


def leaf_of(t, base):
    """per-leaf value of a tree-valued term whose structure is base's"""
    if t.op == "treemap":
        return t.args[0]
    if t.op == "ite":
        a, b = leaf_of(t.args[1], base), leaf_of(t.args[2], base)
        return ite(t.args[0], a, b)
    return T("leaf", t)


def scalar_gate(x):
    # numpy scalars vs trees of scalars: both shapes are covered by case split
    return None


def undo_inner(x):
    """s.inverse_transform(s.transform(v)) = v for the wrapped scalers
    (each wrapped scaler carries its own obligation)"""
    if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "inverse_transform" and len(x.args[1]) >= 1:
        y = x.args[1][0]
        if y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] == "transform" and y.args[0].args[0] is x.args[0].args[0]:
            return y.args[1][0]
    return x


def a(f):
    return T("attr", T("sym", "A"), f)


def expected(name, I, st, A):
    """documented transform of X after fit(X0)"""
    if name == "StandardScaler":
        return T("/", T("+", LX, T("neg", red("mean", LX0))), red("std", LX0))
    if name == "MinMaxScaler":
        mn, mx = red("min", LX0), red("max", LX0)
        pick = lambda v: ite(T("call", T("ext", "jax.numpy.isscalar"), (v,), ()), v, T("leaf", v))
        lo, hi = pick(a("min_val")), pick(a("max_val"))
        z = T("+", T("*", T("/", T("+", LX, T("neg", mn)), T("+", mx, T("neg", mn))), T("+", hi, T("neg", lo))), lo)
        isn = lambda v: ite(T("call", T("ext", "jax.numpy.isscalar"), (v,), ()), T("is", v, NONE), T("is", T("leaf", v), NONE))
        return ite(disj((isn(a("min_val")), isn(a("max_val")))), LX, z)
    return None


def scalers(prog):
    base = prog.get_class("Scaler")
    return [c for c in prog.subclasses(base) if c is not base]


def run(prog, rep):
    rep.rule("inverse", "inverse_transform(transform(X)) is X under every gate assignment", 4)
    rep.rule("statistics", "after fit(X0), transform(X) is the documented function of X and the sample-axis statistics of X0", 2)
    rep.rule("robust-statistics", "RobustScaler centres by the sample median and scales by the difference of its quantiles", 2)
    rep.rule("categories", "OneHot categories are whole rows of the data and both directions use the same table and layout", 3)
    rep.rule("fitted", "transform and inverse_transform raise while any statistic they read is missing", 6)
    rep.rule("refit", "the statistics after fit depend on the new data only", 4)
    rep.rule("fit_transform", "fit_transform is fit followed by transform", 4)
    rep.rule("persistence", "every persistence route restores every attribute the scaler reads", 15)
    for ci in scalers(prog):
        with rep.unit(ci.qual):
            nm = ci.name
            # --- attributes
            J, s2, ref, _ = sym_method(prog, ci, "fit", self_="A")
            written = {e.data["attr"] for e in J.events if e.kind == "setattr" and e.data["obj"] is ref}
            fi = method(prog, ci, "__init__")
            J0 = Interp(prog)
            s0 = State()
            r0 = J0.instantiate(J0.cls_term(ci), [], {}, s0, ci.node)
            J1, s1, ref1, _ = sym_method(prog, ci, "__init__", self_="A")
            config = {k for k, v in J1.obj(s1, ref1).fields.items() if contains(J1.snap(s1, v), lambda y: y.op == "sym" and y.args[0] != "A")}
            fitted = written - config
            need = set()
            for m in ("fit", "transform", "inverse_transform"):
                J, s2, ref, _ = sym_method(prog, ci, m, self_="A")
                need |= {f for f in reads(J, ref) if f in config | fitted | set(J0.obj(s0, r0).fields)}
                rep.saw(J)
            # --- inverse of transform
            I = Interp(prog)
            st = State()
            A = I.sym_instance(st, ci, "A")
            t1 = I.call_method(A, "transform", [X], {}, st, ci.node)
            t2 = I.snap(st, I.call_method(A, "inverse_transform", [t1], {}, st, ci.node))
            rep.saw(I)
            if nm != "OneHot":
                lt = rewrite(leaf_of(t2, X), undo_inner)
                ok, asg, got, _ = equal_by_cases(lt, LX)
                rep.ob("inverse", ci.qual, ok, f"inverse_transform(transform(x)) = {short(got, 300) if not ok else ''}", ci.module.name)
            # --- statistics
            I = Interp(prog)
            st = State()
            A = I.sym_instance(st, ci, "A")
            I.call_method(A, "fit", [X0], {}, st, ci.node)
            flds = {k: I.snap(st, v) for k, v in I.obj(st, A).fields.items()}
            t1 = red_norm(I.snap(st, I.call_method(A, "transform", [X], {}, st, ci.node)))
            rep.saw(I)
            exp = expected(nm, I, st, A)
            if exp is not None:
                ok, asg, got, want = equal_by_cases(leaf_of(t1, X), exp)
                rep.ob("statistics", ci.qual, ok, f"after fit, transform(x) = {short(got, 300) if not ok else ''}, documented {short(want, 300) if not ok else ''}", ci.module.name)
            if nm == "RobustScaler":
                lt = where2ite(leaf_of(t1, X))
                ql = red("quantile", LX0, 0, T("leaf", a("q_low")))
                qh = red("quantile", LX0, 0, T("leaf", a("q_high")))
                wc, ws = T("leaf", a("with_centering")), T("leaf", a("with_scaling"))
                nn = [T("is", T("leaf", a("q_low")), NONE), T("is", T("leaf", a("q_high")), NONE)]
                for c in (True, False):
                    for s in (True, False):
                        def g(x, c=c, s=s):
                            if x is wc:
                                return c
                            if x is ws:
                                return s
                            if x in nn:
                                return False
                            if x.op == "is" and x.args[1] is NONE and x.args[0].op in ("red", "+"):
                                return False
                            return None
                        sc = T("+", qh, T("neg", ql)) if s else const(1.0)
                        med = red("median", LX0) if c else const(0.0)
                        ok = True
                        bad = None
                        big = 0
                        for asg, x in cases(assume(lt, g), given=g):
                            # the remaining gate decides whether the scale is usable
                            w1 = T("/", T("+", LX, T("neg", med)), sc)
                            w0 = T("+", LX, T("neg", med))
                            if rat_eq(x, w1):
                                big += 1
                            elif not rat_eq(x, w0):
                                ok, bad = False, x
                        ok = ok and big >= 1
                        rep.ob("robust-statistics", f"{ci.qual}/centering={c},scaling={s}", ok, f"transform(x) = {short(bad, 300) if bad is not None else 'never scaled'}", ci.module.name)
            if nm == "OneHot":
                onehot(prog, rep, ci, flds, I)
            # --- refit
            for f in sorted(fitted):
                v = flds.get(f)
                bad = v is None or contains(v, lambda y: y.op == "attr" and y.args[0] is T("sym", "A") and y.args[1] in fitted)
                rep.ob("refit", f"{ci.qual}.{f}", not bad, f"after fit, {f} = {short(v) if v is not None else 'unset'}", ci.module.name)
            # --- fitted guard
            for m in ("transform", "inverse_transform"):
                J, s2, ref, _ = sym_method(prog, ci, m, self_="A")
                used = reads(J, ref) & fitted
                if nm != "MixedScaler":
                    rep.ob("fitted", f"{ci.qual}.{m}", bool(used), "uses no fitted statistic", ci.module.name)
                for f in sorted(used):
                    J, s2, ref, _ = sym_method(prog, ci, m, self_="A", fields={f: NONE})
                    rep.ob("fitted", f"{ci.qual}.{m}/{f}", not alive(s2), f"{m} does not raise when {f} has not been fitted", ci.module.name)
            # --- fit_transform
            I = Interp(prog)
            st = State()
            A = I.sym_instance(st, ci, "A")
            r = red_norm(I.snap(st, I.call_method(A, "fit_transform", [X], {}, st, ci.node)))
            I2 = Interp(prog)
            st2 = State()
            A2 = I2.sym_instance(st2, ci, "A")
            I2.call_method(A2, "fit", [X], {}, st2, ci.node)
            w = red_norm(I2.snap(st2, I2.call_method(A2, "transform", [X], {}, st2, ci.node)))
            rep.ob("fit_transform", ci.qual, r is w, f"fit_transform returns {short(r)}", ci.module.name)
            persistence(prog, rep, ci, need)


def onehot(prog, rep, ci, flds, I0):
    """row tables: only whole-row operations between X0 and the table"""
    ROW = {"unique", "reshape", "asarray", "array", "take", "flip"}
    tabs = {}
    for f, v in flds.items():
        l = leaf_of(v, X0)
        if contains(l, lambda y: y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0].endswith(".unique")):
            tabs[f] = l
    rep.ob("categories", f"{ci.qual}.table", bool(tabs), "fit stores no table of unique rows", ci.module.name)
    for f, l in tabs.items():
        x = l
        bad = ""
        seen_unique = False
        while True:
            x = strip_conv(x)
            if x.op == "call" and x.args[0].op == "ext" and x.args[1]:
                n = x.args[0].args[0].rsplit(".", 1)[1]
                kw = dict(x.args[2])
                if n not in ROW:
                    bad = f"{n} reorders or alters individual columns"
                    break
                if n == "unique":
                    seen_unique = True
                    ax = kw.get("axis", x.args[1][3] if len(x.args[1]) > 3 else None)
                    if ax is not const(0):
                        bad = f"unique over axis {short(ax) if ax is not None else None} instead of rows"
                        break
                x = x.args[1][0]
            elif x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("reshape",):
                sh = x.args[1]
                sh = sh[0].args if len(sh) == 1 and sh[0].op == "tuple" else sh
                n0 = T("item", T("attr", x.args[0].args[0], "shape"), const(0))
                if not (len(sh) == 2 and sh[1] is const(-1) and sh[0] in (n0,)):
                    bad = f"rows are regrouped by reshape{tuple(map(short, sh))}"
                    break
                x = x.args[0].args[0]
            elif x.op == "item":
                x = x.args[0]
            else:
                break
        if not bad and x is not LX0:
            bad = f"table is {short(l)}"
        rep.ob("categories", f"{ci.qual}.{f}", not bad and seen_unique, bad or "no unique", ci.module.name)
    # transform: all(reshape(x)[:,None,:] == table[None,:,:], axis=-1); inverse: (encoded @ table).reshape(n, *shape)
    I = Interp(prog)
    st = State()
    A = I.sym_instance(st, ci, "A")
    t = I.snap(st, I.call_method(A, "transform", [X], {}, st, ci.node))
    inv = I.snap(st, I.call_method(A, "inverse_transform", [X], {}, st, ci.node))
    tl, il = leaf_of(t, X), leaf_of(inv, X)
    for f in tabs:
        tab = T("leaf", a(f))
        has = lambda z: contains(z, lambda y: y is tab)
        eqs = [y for y in walk(red_norm(tl)) if y.op == "red" and y.args[0] == "all" and y.args[2] is const(-1) and has(y)]
        rep.ob("categories", f"{ci.qual}.transform/{f}", has(tl) and bool(eqs), f"encodes as {short(tl)}", ci.module.name)
        rep.ob("categories", f"{ci.qual}.inverse/{f}", any(y.op in ("@",) and y.args[1] is tab or
               y.op == "call" and extname(y.args[0]) in ("jax.numpy.matmul", "jax.numpy.dot", "jax.numpy.take") and tab in y.args[1] or
               y.op == "item" and y.args[0] is tab for y in walk(il)), f"decodes as {short(il)}", ci.module.name)


def persistence(prog, rep, ci, need):
    for route in ("serialize/deserialize", "save/load", "save_compressed/from_file"):
        I = Interp(prog)
        st = State()
        fields = {}
        if ci.name == "MixedScaler":
            inner = [[c for c in scalers(prog) if c.name == "StandardScaler"][0], [c for c in scalers(prog) if c.name == "OneHot"][0]]
            fields["feature_scalers"] = I.new_dict(st, [(const("a"), I.sym_instance(st, inner[0], "$s0")), (const("b"), NONE), (const("c"), I.sym_instance(st, inner[1], "$s1"))])
        A = I.sym_instance(st, ci, "A", fields)
        cls = I.cls_term(ci)
        if route.startswith("serialize"):
            d = I.call_method(A, "serialize", [], {}, st, ci.node)
            B = I.call(I.get_attr(cls, "deserialize", st, ci.node), [d], {}, st, ci.node)
        else:
            s, l = route.split("/")
            I.call_method(A, s, [const("f")], {}, st, ci.node)
            B = I.call(I.get_attr(cls, l, st, ci.node), [const("f")], {}, st, ci.node)
        rep.saw(I)
        o = I.obj(st, B)
        ok = o is not None and o.cls is ci and alive(st)
        rep.ob("persistence", f"{ci.qual}/{route}", ok, f"{route} yields {short(B)}", ci.module.name)
        if not ok:
            continue
        if ci.name == "MixedScaler":
            x = I.snap(st, o.fields.get("feature_scalers", NONE))
            x = unnd(x)
            want = unnd(I.snap(st, fields["feature_scalers"]))
            got = {}
            okk = x.op == "dict" and [k for k, _ in x.args[0]] == [const(c) for c in "abc"]
            if okk:
                for i, (k, v) in enumerate(x.args[0]):
                    if i == 1:
                        okk = okk and v is NONE
                        continue
                    sname = "$s0" if i == 0 else "$s1"
                    okk = okk and v.op == "inst" and v.args[0] == inner[0 if i == 0 else 1].qual and all(
                        (w is T("attr", T("sym", sname), fn)) for fn, w in v.args[1]) and len(v.args[1]) >= 2
            rep.ob("persistence", f"{ci.qual}/{route}.feature_scalers", okk, f"feature_scalers becomes {short(x, 300)}", ci.module.name)
            continue
        for f in sorted(need):
            x = o.fields.get(f)
            x = unnd(I.snap(st, x)) if x is not None else None
            rep.ob("persistence", f"{ci.qual}/{route}.{f}", x is a(f), f"{f} becomes {short(x) if x is not None else 'unset'}", ci.module.name)
