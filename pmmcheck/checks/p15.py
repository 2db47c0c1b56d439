"""P15: conformal calibration, quantiles and intervals fit together.

ConformalizedModel.calibrate, get_qhat and __call__ are evaluated one after
another on one object whose wrapped model is opaque; the stored scores, the
quantile of every requested level and the interval ends are compared with the
split-conformal formulas."""
import math
from fractions import Fraction

from .. import carr
from ..shapes import ShapeError, infer
from .common import *
from .elem import Elem, const_frac, name_of

LEV = [0.1, 0.3, 0.05, 0.5]
N = const(9)


def arr(name, *sh):
    return T("arr", T("sym", name) if isinstance(name, str) else name, T("tuple", *[x if isinstance(x, T) else const(x) for x in sh]))


def leaves(t):
    if t.op in ("tuple", "list"):
        return [y for x in t.args for y in leaves(x)]
    return [t]


class Setup:
    """a conformalized opaque model with input leaves `ins` and output leaves `outs` (shapes without the sample axis)"""

    def __init__(self, prog, ins, outs, hook_u=True):
        self.prog = prog
        self.cm = prog.get_class("ConformalizedModel")
        self.mc = prog.get_class("SequentialModel")
        I = self.I = Interp(prog, max_steps=2000000)
        I.carr = True
        st = self.st = State()
        self.ins, self.outs = ins, outs
        tree = lambda xs: xs[0] if len(xs) == 1 else T("tuple", *xs)
        self.tree = tree
        sh = lambda ss: tree([T("tuple", *[const(d) for d in s]) for s in ss])
        self.M = I.sym_instance(st, self.mc, "$M", {"input_shape": sh(ins), "output_shape": sh(outs)})
        self.calls = []
        self.us = []
        q = lambda c, m: method(prog, c, m).qual
        I.hooks[q(self.mc, "__call__")] = self.model
        I.hooks[q(self.mc, "get_params")] = lambda *a: tree([arr(f"p{i}", *s) for i, s in enumerate(PARAMS)])
        I.hooks[q(self.mc, "grad_params")] = self.grad("gradp")
        I.hooks[q(self.mc, "grad_input")] = self.grad("gradx")
        if hook_u:
            I.hooks[q(self.cm, "uncertainty_heuristic")] = self.heur
            for m in ("parameter_sensitivity", "input_sensitivity", "distance_sensitivity"):
                I.opaque.add(q(self.cm, m))
            I.opaque.add("parametricmatrixmodels.conformal.conformalizedmodel:pytree_robust_normalization")
            I.opaque.add(q(self.cm, "_prepare_data_for_kdtree"))
        init = [self.M]
        self.A = I.call(T("cls", self.cm.qual) if False else I.get_attr(T("pkgmod", self.cm.module.name), "ConformalizedModel", st, None), init, {}, st, None)

    def data(self, name, n, which):
        return self.tree([arr(f"{name}{i}", n, *s) for i, s in enumerate(which)])

    def bind(self, m, args, kwargs):
        fi = method(self.prog, self.mc if m in ("__call__", "grad_params", "grad_input") else self.cm, m)
        names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args]
        return {**dict(zip(names, args)), **kwargs}

    def model(self, I, fn, args, kwargs, st, node):
        a = self.bind("__call__", args, kwargs)
        x = I.snap(st, a["X"])
        n = leaves(x)[0].args[1].args[0]
        opts = tuple(sorted((k, I.snap(st, v)) for k, v in a.items() if k in ("dtype", "rng")))
        self.calls.append((x, opts))
        out = self.tree([arr(T("pred", x, const(j)), n, *s) for j, s in enumerate(self.outs)])
        rs = a.get("return_state", FALSE)
        if rs is TRUE:
            return T("tuple", out, T("newstate", x))
        return out

    def grad(self, kind):
        def f(I, fn, args, kwargs, st, node):
            m = "grad_params" if kind == "gradp" else "grad_input"
            a = self.bind(m, args, kwargs)
            x = I.snap(st, a["X"])
            n = leaves(x)[0].args[1].args[0]
            wrt = PARAMS if kind == "gradp" else self.ins
            return self.tree([self.tree([arr(T(kind, x, const(j), const(i)), n, *s, *w) for i, w in enumerate(wrt)]) for j, s in enumerate(self.outs)])
        return f

    def heur(self, I, fn, args, kwargs, st, node):
        a = self.bind("uncertainty_heuristic", args, kwargs)
        x = I.snap(st, a["X"])
        xu = I.snap(st, a.get("X_unc", NONE))
        n = leaves(x)[0].args[1].args[0]
        return self.tree([arr(T("unc", x, xu, const(j)), n, *s) for j, s in enumerate(self.outs)])

    def field(self, f):
        return self.I.snap(self.st, self.I.get_attr(self.A, f, self.st, None))

    def go(self, m, *args, **kw):
        return self.I.call_method(self.A, m, list(args), kw, self.st, None)


PARAMS = [(4, 4), (3,)]


PAY = {}
ATOMS = {}


def atom(t):
    """an opaque symbol for a term (normal forms do not look inside)"""
    if t not in ATOMS:
        ATOMS[t] = T("sym", f"@{t.op}{len(ATOMS)}")
        PAY[ATOMS[t]] = t
    return ATOMS[t]


def npcall(t):
    return name_of(t) or (None, (), {})


def level(t):
    return round(float(t.args[0]), 9) if t.op == "const" and isinstance(t.args[0], (int, float)) else None


class Norm:
    """rewrites results of the conformal code into expressions over named atoms"""

    def __init__(self, s, ref, preds, unc):
        self.s = s
        self.ref = ref          # Y_cal leaves (X_cal for unsupervised)
        self.preds = preds      # prediction leaves at X_cal
        self.unc = unc          # heuristic leaves at X_cal
        self.bias = None

    def res(self, j):
        return T("+", self.ref[j], T("neg", self.preds[j]))

    def elem(self, t):
        """shape wrappers off, so that only element-wise structure remains"""
        def f(x):
            if x.op == "arr":
                return atom(x)
            nm, a, kw = npcall(x)
            if nm in ("where",) and len(a) == 3:
                return x
            return x
        return rewrite(t, f)

    def eq(self, a, b, positive=()):
        E = Elem(positive=positive)
        return E.eq(self.elem(a), self.elem(b))

    def fold(self, t):
        """medians of residuals and quantiles of scores become atoms B_j, C_j(i), Q_j(level)"""
        me = self

        def f(x):
            nm, a, kw = npcall(x)
            if nm in ("mean", "max", "min", "sum", "amax", "amin", "average") and not contains(x, lambda y: y.op == "row"):
                return atom(T("reduced", x))
            if nm in ("median", "quantile", "nanmedian", "percentile"):
                ax = kw.get("axis", a[2 if nm == "quantile" else 1] if len(a) > (2 if nm == "quantile" else 1) else NONE)
                if nm == "percentile":
                    raise AnalysisError("percentile is not modelled")
                if ax is not const(0):
                    return atom(T("wrongaxis", x))
                if nm == "nanmedian":
                    raise AnalysisError("nanmedian is not modelled")
                q = None
                if nm == "quantile":
                    q = kw.get("q", a[1] if len(a) > 1 else None)
                    if set(kw) - {"q", "axis"} and kw.get("method") not in (None, const("linear")):
                        return atom(T("wrongmethod", x))
                body, mask = a[0], None
                for j in range(len(me.ref)):
                    if nm == "median" or level(q) == 0.5:
                        if body.op == "item" and me.eq(body.args[0], me.res(j)):
                            return atom(T("C", const(j), body.args[1]))
                        if body.op != "item" and me.eq(body, me.res(j)):
                            return atom(T("B", const(j)))
                if nm == "quantile":
                    for j in range(len(me.ref)):
                        if me.isscore(body, j):
                            if q.op == "carr":
                                ls = [level(y) for y in q.args]
                            else:
                                ls = level(q)
                            if ls is None or ls is not None and isinstance(ls, list) and None in ls:
                                raise AnalysisError(f"the quantile level is {short(q)}")
                            return T("qs", const(j), *[const(y) for y in ls]) if isinstance(ls, list) else atom(T("Q", const(j), const(ls)))
                return x
            if x.op == "item" and x.args[0].op == "qs" and x.args[1].op == "const":
                return atom(T("Q", x.args[0].args[0], x.args[0].args[1 + x.args[1].args[0]]))
            return x
        return rewrite(t, f)

    def score(self, j):
        p = self.preds[j]
        if self.bias is not None:
            p = T("+", p, self.bias[j])
        return T("/", T("call", T("ext", "jax.numpy.abs"), (T("+", self.ref[j], T("neg", p)),), ()), self.unc[j])

    def isscore(self, t, j):
        E = Elem(positive=[atom(self.unc[j])])
        try:
            return E.eq(self.elem(t), self.elem(self.score(j)))
        except AnalysisError:
            return False


def lvl(a, n=9):
    return round(math.ceil((n + 1) * (1 - a)) / n, 9)


CASES = []
for outs, ins in (([(2,)], [(3,)]), ([(2,), (2, 3)], [(3,), (2,)])):
    for bias in ("none", "off", "global", "strata"):
        for sup in ("supervised", "unsupervised"):
            for unc in (False, True):
                if bias == "strata" and len(ins) == 1 or bias == "off" and unc:
                    continue
                CASES.append((ins, ins if sup == "unsupervised" else outs, bias, sup, unc))


def run(prog, rep):
    rep.rule("scores", "calibration stores |Y - (prediction + bias)| / heuristic of every calibration sample, evaluated with the calibration data and its uncertainties", 15)
    rep.rule("quantile", "get_qhat returns, in the requested order, the ceil((n+1)(1-alpha))/n sample quantile of the stored scores", 60)
    rep.rule("interval", "a prediction is the bias-corrected model output and its interval is output -/+ qhat * heuristic of the same sample, per level in the requested order", 60)
    rep.rule("refused", "an uncalibrated model and levels outside (0, 1) are refused", 10)
    rep.rule("strata", "the stratum of a sample is found in the same way in calibration and prediction, and a sample of no stratum gets no correction", 4)
    rep.rule("heuristic", "the heuristic is the sum of the enabled normalised sensitivities, one value per output element", 30)
    rep.rule("norm", "the scale of a sensitivity is its median absolute deviation over the calibration set, and where that vanishes the first that does not of the inter-quartile, 5-95 and full ranges, else infinity; with uncertain targets the weighted median absolute deviation", 0)
    rep.assume("the wrapped model, its gradients and the sensitivities' internals are opaque; quantile levels above one (fewer calibration samples than the level needs) are not pinned")
    for c in CASES:
        with rep.unit("/".join(str(x) for x in c)):
            case(prog, rep, *c)
    for row in NORMS:
        with rep.unit(f"norm/{row[0]}"):
            norms(prog, rep, *row)
    for tag, cols, ws in WEIGHTED:
        with rep.unit(f"norm/{tag}"):
            norms(prog, rep, tag, cols, [wmad(c, w) for c, w in zip(cols, ws)], ws)
    for tr in (False, True):
        with rep.unit(f"refused/{tr}"):
            refused(prog, rep, tr)
    heuristic(prog, rep)


def refused(prog, rep, many):
    where = "ConformalizedModel"
    for a in (0, 1, 1.5, -0.2, 0.0, 1.0):
        for m in ("get_qhat", "__call__"):
            s = Setup(prog, [(3,)], [(2,)])
            s.go("calibrate", s.data("X", 9, s.ins), s.data("Y", 9, s.outs), skip_sanity_checks=TRUE)
            if not alive(s.st):
                raise AnalysisError("calibrate raises")
            al = const(a)
            if many:
                al = s.I.new_list(s.st, [const(0.3), al, const(0.2)])
            args = [] if m == "get_qhat" else [s.data("Z", 5, s.ins)]
            s.go(m, *args, alpha=al)
            rep.saw(s.I)
            rep.ob("refused", f"{m}/{a}/{many}", not alive(s.st), f"the level {a} is accepted", f"{where}.{m}")
    for m in ("get_qhat", "__call__"):
        s = Setup(prog, [(3,)], [(2,)])
        args = [] if m == "get_qhat" else [s.data("Z", 5, s.ins)]
        s.go(m, *args, alpha=s.I.new_list(s.st, [const(0.3), const(0.2)]) if many else const(0.3))
        rep.ob("refused", f"{m}/uncalibrated/{many}", not alive(s.st), "a model that was never calibrated is used", f"{where}.{m}")


def case(prog, rep, ins, outs, bias, sup, unc):
    s = Setup(prog, ins, outs)
    I, st = s.I, s.st
    NU = 2

    def unique(I_, fn, args, kwargs, st_, node):
        if I_.refine(st_, args[0]).op == "carr":
            return carr.call(I_, "jax.numpy.unique", [I_.refine(st_, args[0])], kwargs, st_)
        x = I_.snap(st_, args[0])
        if [k for k in kwargs if k != "axis"]:
            raise AnalysisError("unique with options")
        return arr(T("uniq", x), NU, ins[-1][0])
    I.hooks["jax.numpy.unique"] = unique
    I.hooks["numpy.unique"] = unique
    where = "ConformalizedModel"
    tag = f"{len(ins)} in, {len(outs)} out, bias {bias}, {sup}" + (", uncertainties" if unc else "")
    seq = [("X", "Y", "V")]
    if not unc and bias != "strata":
        seq.append(("R", "S", "W"))     # a second calibration replaces the first
    for rnd, (xn, yn, vn) in enumerate(seq):
        X = s.data(xn, 9, ins)
        Y = s.data(yn, 9, outs)
        kw = {"skip_sanity_checks": TRUE}
        if sup == "supervised":
            kw["Y_cal"] = Y
        if unc:
            kw["X_cal_unc"] = s.data(vn, 9, ins)
            if sup == "supervised":
                kw["Y_cal_unc"] = s.data("U" + yn, 9, outs)
        if bias == "off":
            kw["stratified_bias_corrections"] = FALSE
        if bias == "global":
            kw["stratified_bias_corrections"] = TRUE
        if bias == "strata":
            kw["continuous_features"] = T("tuple", TRUE, FALSE)
            kw["stratified_bias_corrections"] = T("tuple", FALSE, TRUE)
        s.go("calibrate", X, **kw)
        t = tag + (", recalibrated" if rnd else "")
        if not alive(st):
            rep.ob("scores", t, False, "calibrate raises", f"{where}.calibrate")
            return
        m = len(outs)
        ref = leaves(Y if sup == "supervised" else X)
        preds = [arr(T("pred", I.snap(st, X), const(j)), 9, *sh) for j, sh in enumerate(outs)]
        xu = kw.get("X_cal_unc", NONE)
        us = [arr(T("unc", I.snap(st, X), xu, const(j)), 9, *sh) for j, sh in enumerate(outs)]
        N = Norm(s, ref, preds, us)
        got = leaves(s.field("scores"))
        if len(got) != m:
            raise AnalysisError("the scores have another structure")
        idx_cal = None
        if bias == "global":
            N.bias = [atom(T("B", const(j))) for j in range(m)]
        if bias == "strata":
            idx_cal, table = strata(rep, I, st, s, N, got, t, NU)
            N.bias = table
        for j in range(m):
            g = N.fold(got[j])
            if bias == "strata":
                g = fold_table(g, N, NU)
            ok = Elem(positive=[atom(us[j])]).eq(N.elem(g), N.elem(N.score(j)))
            rep.ob("scores", f"{t}, output {j}", ok, f"the stored scores are {short(g, 400)}", f"{where}.calibrate")
        raw = got
        # quantiles, cached and new, in any order
        for al in ([0.33], [0.52, 0.13], [0.27, 0.33, 0.52], [0.13, 0.27], [0.33, 0.33], [0.52]):
            r = s.go("get_qhat", I.new_list(st, [const(x) for x in al]) if len(al) > 1 else const(al[0]))
            if not alive(st):
                rep.ob("quantile", f"{t}, levels {al}", False, "get_qhat raises", f"{where}.get_qhat")
                return
            r = I.snap(st, r)
            rs = [r] if len(al) == 1 else list(r.args)
            bad = None
            if len(rs) != len(al):
                bad = f"{len(rs)} quantiles for {len(al)} levels"
            else:
                for a, q in zip(al, rs):
                    for j, ql in enumerate(leaves(q)):
                        if not isq(ql, raw[j], lvl(a)):
                            bad = f"the quantile of level {a}, output {j} is {short(ql, 300)}"
            rep.ob("quantile", f"{t}, levels {al}", bad is None, bad or "", f"{where}.get_qhat")
        # intervals
        Z = s.data("Z", 5, ins)
        Zu = s.data("ZU", 5, ins)
        zs = I.snap(st, Z)
        for al, zu, rs_ in ((None, False, False), ([0.33], True, True), ([0.52, 0.13], True, False), ([0.2, 0.33, 0.45], False, True)):
            kw = {}
            if al is not None:
                kw["alpha"] = I.new_list(st, [const(x) for x in al]) if len(al) > 1 else const(al[0])
            if zu:
                kw["X_unc"] = Zu
            if rs_:
                kw["return_state"] = TRUE
            r = s.go("__call__", Z, **kw)
            tt = f"{t}, levels {al}"
            if not alive(st):
                rep.ob("interval", tt, False, "the prediction raises", f"{where}.__call__")
                return
            r = I.snap(st, r)
            rep.ob("interval", tt, *judge(s, N, r, al, I.snap(st, Zu) if zu else NONE, rs_, zs, raw, bias, idx_cal, X, Z, NU, outs), f"{where}.__call__")
    rep.saw(I)


def isq(t, scores, lv):
    """t is the lv quantile over samples of the given scores"""
    if t.op == "item" and t.args[1].op == "const":
        nm, a, kw = npcall(t.args[0])
        q = kw.get("q", a[1] if len(a) > 1 else NONE)
        q = q.args[t.args[1].args[0]] if q.op in ("carr", "list", "tuple") else NONE
    else:
        nm, a, kw = npcall(t)
        q = kw.get("q", a[1] if len(a) > 1 else NONE)
    if nm is None:
        raise AnalysisError(f"a quantile is computed by {short(t)}")
    if nm != "quantile":
        raise AnalysisError(f"a quantile is computed by {nm}")
    ax = kw.get("axis", a[2] if len(a) > 2 else NONE)
    if ax is not const(0):
        return False
    if kw.get("method", const("linear")) not in (const("linear"), const("higher")):
        return False
    if level(q) is None:
        raise AnalysisError(f"the quantile level is {short(q)}")
    return a[0] is scores and level(q) == lv


def judge(s, N, r, al, zu, rs_, zs, raw, bias, idx_cal, X, Z, NU, outs):
    al = al if al is not None else [1 - 0.682689492137]
    if r.op != "tuple" or len(r.args) != (3 if rs_ else 2):
        return False, f"the result has {len(r.args)} parts"
    if rs_ and r.args[2] is not T("newstate", zs):
        return False, f"the returned state is {short(r.args[2])}"
    ys = leaves(r.args[0])
    base = [arr(T("pred", zs, const(j)), 5, *sh) for j, sh in enumerate(outs)]
    uz = [arr(T("unc", zs, zu, const(j)), 5, *sh) for j, sh in enumerate(outs)]
    want = base
    fold = lambda t: N.fold(t)
    if bias == "global":
        want = [T("+", b, atom(T("B", const(j)))) for j, b in enumerate(base)]
    if bias == "strata":
        idx_new = canon_idx(subst_data(idx_cal, X, Z))
        want = [T("+", b, atom(T("BS", const(j), idx_new))) for j, b in enumerate(base)]
        fold = lambda t: fold_table(N.fold(t), N, NU)
    for j, (g, w) in enumerate(zip(ys, want)):
        g = fold(g)
        if not N.eq(g, w):
            return False, f"output {j} of the prediction is {short(g, 400)}"
    ivs = [r.args[1]] if len(al) == 1 else list(r.args[1].args)
    if len(ivs) != len(al):
        return False, f"{len(ivs)} intervals for {len(al)} levels"
    for a, iv in zip(al, ivs):
        if iv.op not in ("tuple", "list") or len(iv.args) != 2:
            return False, f"an interval is {short(iv)}"
        for sgn, side in zip((-1, 1), iv.args):
            for j, g in enumerate(leaves(side)):
                g = rewrite(g, lambda x, j=j: qfold(x, raw))
                g = fold(g)
                w = T("+", want[j], T("*", const(sgn), atom(T("Q", const(j), const(lvl(a)))), uz[j]))
                if not N.eq(g, w):
                    return False, f"the {'lower' if sgn < 0 else 'upper'} end for level {a}, output {j} is {short(g, 400)}"
    return True, ""


def qfold(x, raw):
    """quantiles of the stored scores become atoms Q_j(level)"""
    if x.op == "item" and x.args[1].op == "const" and npcall(x.args[0])[0] == "quantile":
        nm, a, kw = npcall(x.args[0])
        q = kw.get("q", a[1] if len(a) > 1 else NONE)
        if q.op in ("carr", "list", "tuple") and len(q.args) > x.args[1].args[0]:
            q = q.args[x.args[1].args[0]]
        else:
            return x
    elif npcall(x)[0] == "quantile":
        nm, a, kw = npcall(x)
        q = kw.get("q", a[1] if len(a) > 1 else NONE)
    else:
        return x
    if level(q) is None:
        return x
    for j, sc in enumerate(raw):
        if isq(x, sc, level(q)):
            return atom(T("Q", const(j), const(level(q))))
    return x


# ------------------------------------------------------------------ strata

def canon_idx(t):
    def f(x):
        if x.op == "==":
            return T("eq", *sorted(x.args, key=show))
        nm, a, kw = npcall(x)
        if nm == "expand_dims":
            raise AnalysisError("the strata are matched in another way")
        return x
    return rewrite(t, f)


def subst_data(t, X, Z):
    xs, zs = leaves(X), leaves(Z)
    keep = {}

    def f(x):
        if x.op == "arr" and x.args[0].op == "expand" and x.args[0].args[0].op == "uniq":
            return x
        return x
    # the strata themselves stay those of the calibration data
    atoms = {}

    def hide(x):
        if x.op == "uniq":
            atoms[T("sym", "UNIQ")] = x
            return T("sym", "UNIQ")
        return x
    t = rewrite(t, hide)
    m = {}
    for a, b in zip(xs, zs):
        m[a] = b

    def g(x):
        if x in m:
            return m[x]
        nm, a, kw = npcall(x)
        if nm == "empty" and a and a[0].op == "tuple" and a[0].args[0] is const(9):
            return rebuild(x, lambda y: T("tuple", const(5), *y.args[1:]) if y is a[0] else y)
        if nm == "reshape" and len(a) > 1:
            return rebuild(x, lambda y: const(5) if y is const(9) else y if y.op != "tuple" else T("tuple", *[const(5) if z is const(9) else z for z in y.args]))
        return x
    t = rewrite(t, g)
    for k, v in atoms.items():
        t = subst(t, {k: v})
    return t


def table_of(x, N, NU):
    """(output, index of the calibration samples) if x is the table of per-stratum medians with a zero row behind"""
    nm, a, kw = npcall(x)
    if nm in ("array", "asarray", "stack") and a and a[0].op in ("list", "tuple"):
        rows = list(a[0].args)
        if len(rows) != NU + 1:
            return ("bad", f"{len(rows)} rows for {NU} strata")
        j = idx = None
        for i, r in enumerate(rows[:-1]):
            if r in PAY and PAY[r].op == "C":
                c = PAY[r].args[1]
                if c.op != "==" or const(i) not in c.args:
                    return ("bad", f"row {i} is the median of {short(c)}")
                o = [y for y in c.args if y is not const(i)]
                o = o[0] if o else const(i)
                if idx is not None and o is not idx or j is not None and j is not PAY[r].args[0]:
                    return ("bad", f"row {i} belongs to other strata")
                j, idx = PAY[r].args[0], o
            else:
                return ("bad", f"row {i} is {short(r)}")
        z = npcall(rows[-1])
        if z[0] not in ("zeros", "zeros_like"):
            return ("bad", f"the last row is {short(rows[-1])}")
        return (j, idx)
    return None


def fold_table(t, N, NU):
    def f(x):
        if x.op == "item":
            r = table_of(x.args[0], N, NU)
            if r is not None and r[0] != "bad":
                return atom(T("BS", r[0], canon_idx(x.args[1])))
        nm, a, kw = npcall(x)
        if nm == "take" and len(a) >= 2:
            raise AnalysisError("take is not modelled")
        return x
    return rewrite(t, f)


def strata(rep, I, st, s, N, got, tag, NU):
    where = "ConformalizedModel.calibrate"
    tabs = leaves(s.field("_strata_biases"))
    idx = None
    for j, tb in enumerate(tabs):
        r = table_of(N.fold(tb), N, NU)
        if r is None:
            raise AnalysisError(f"the strata table is {short(tb)}")
        ok = r[0] is const(j)
        rep.ob("strata", f"{tag}, output {j}", ok, r[1] if r[0] == "bad" else f"the table of output {j} is that of another output", where)
        if r[0] == "bad":
            raise Stop()
        if idx is not None and r[1] is not idx:
            raise AnalysisError("the outputs use different strata")
        idx = r[1]
    u = [x for x in walk(idx) if x.op == "uniq"]
    nm, a, kw = npcall(idx)
    if nm != "where" or len(a) != 3 or not u:
        raise AnalysisError(f"the strata are found by {short(idx)}")
    why = None
    if a[2] is not const(NU):
        why = f"a sample of no stratum is given row {short(a[2])}"
    if not (npcall(a[0])[0] == "any" and npcall(a[1])[0] == "argmax"):
        raise AnalysisError(f"the strata are found by {short(idx)}")
    data = {x for x in walk(idx) if x.op == "arr" and x.args[0].op == "sym"}
    flat = u[0].args[0]
    used = {x for x in walk(flat) if x.op == "arr"}
    xcal = set()
    rep.ob("strata", f"{tag}, index", why is None, why or "", where)
    return idx, [atom(T("BS", const(j), canon_idx(idx))) for j in range(len(tabs))]


class Stop(Exception):
    pass


# --------------------------------------------------------------- heuristic

def wquant(xs, ws, q):
    """piecewise linear in the cumulative weight of the sorted values"""
    o = sorted(range(len(xs)), key=lambda i: xs[i])
    d, c = [xs[i] for i in o], [sum(ws[j] for j in o[:k + 1]) for k in range(len(o))]
    t = Fraction(q) * c[-1]
    if t <= c[0]:
        return d[0]
    k = max(i for i in range(len(c)) if c[i] <= t)
    return d[-1] if k == len(c) - 1 else d[k] + (t - c[k]) * (d[k + 1] - d[k]) / (c[k + 1] - c[k])


def wmad(xs, ws):
    xs = [Fraction(x) for x in xs]
    m = wquant(xs, ws, 0.5)
    return wquant([abs(x - m) for x in xs], ws, 0.5)


WEIGHTED = [
    ("weighted", [[1, 2, 4, 9, 20]], [[3, 1, 2, 4, 5]]),
    ("weighted, unsorted", [[9, 1, 20, 4, 2]], [[4, 3, 5, 2, 1]]),
    ("weighted, two elements", [[9, 1, 20, 4, 2], [-3, 10, 6, 0, 50]], [[4, 3, 5, 2, 1], [1, 6, 2, 7, 3]]),
]
NORMS = [
    # columns of the calibration set, scale of each
    ("several values", [[1, 2, 4, 8, 16]], [3]),
    ("even number of values", [[7, 1, 4, 2]], [1.5]),
    ("two elements", [[1, 2, 4, 8, 16], [0, -10, 10, 30, 5]], [3, 5]),
    ("most values equal", [[3, 3, 3, 3, 5, 5, 9]], [2]),
    ("low values spread", [[1, 2, 3, 3, 3, 3, 9]], [0.5]),
    ("quartiles equal", [[0] + [2] * 12 + [10]], None),
    ("one outlier in many", [[2] * 40 + [6]], [4]),
    ("all equal", [[2, 2, 2]], ["inf"]),
]


def norms(prog, rep, tag, cols, want, ws=None):
    """the scale function on constant calibration tables, in the exact-array domain"""
    from .ndutil import NDA, P, thaw
    where = "conformal/conformalizedmodel.py"
    m = prog.modules.get(MOD)
    if m is None or prog.resolve(m, "pytree_robust_normalization") is None:
        return
    for wrap in (lambda x: x, lambda x: {"a": x, "b": [x]}):
        n, k = len(cols[0]), len(cols)
        if want is None:
            r = sorted(Fraction(x) for x in cols[0])
            q = lambda p: (lambda h: r[int(h)] + (h - int(h)) * (r[min(int(h) + 1, n - 1)] - r[int(h)]))(Fraction(p) * (n - 1))
            exp = [q(Fraction(0.95)) - q(Fraction(0.05))]
        else:
            exp = [x if x == "inf" else Fraction(x) for x in want]
        I, st = Interp(prog), State()
        I.nd = I.graph = I.unroll = True
        I.max_same = 60
        data = NDA((n, k), "float32", [P(Fraction(cols[j][i])) for i in range(n) for j in range(k)])
        f = I.get_attr(T("pkgmod", MOD), "pytree_robust_normalization", st, None)
        args = [data] if ws is None else [data, NDA((n, k), "float32", [P(Fraction(ws[j][i])) for i in range(n) for j in range(k)])]
        got = I.snap(st, I.call(f, [thaw(I, st, wrap(x)) for x in args], {}, st, None))
        rep.saw(I)
        if not alive(st):
            if I.open_branches:
                raise AnalysisError("the scale: not every condition is decided")
            rep.ob("norm", tag, False, "raises", where)
            continue
        ls = [x.args[0] for x in walk_nd(got)]
        if not ls or any(x.shape not in ((k,), (1, k)) for x in ls):
            raise AnalysisError(f"the scale is {short(got)}")
        for x in ls:
            vals = ["inf" if p.show() in ("inf()", "inf", "f(inf)") else p.rat() for p in x.v]
            if None in vals:
                raise AnalysisError(f"the scale is {x.v[0].show()}")
            bad = any((a == "inf") != (b == "inf") or a != "inf" and abs(a - b) > 1e-5 for a, b in zip(vals, exp))
            rep.ob("norm", tag, not bad, f"the scale of {cols} is {[str(v) for v in vals]}, documented {[str(v) for v in exp]}", where)


def walk_nd(t):
    if t.op == "nd":
        return [t]
    if t.op in ("tuple", "list"):
        return [y for x in t.args for y in walk_nd(x)]
    if t.op == "dict":
        return [y for _, x in t.args[0] for y in walk_nd(x)]
    return []


MOD = "parametricmatrixmodels.conformal.conformalizedmodel"
HEUR = []
for _outs in ([(2,)], [(2,), (2, 3)], [(3, 2, 2)]):
    for _par in (True, (True, False)):
        for _inp in (True, False, (False, True)):
            for _dist in (True, False):
                for _train in (True, False):
                    for _cont in ((True, True), (True, False), (False, False)):
                        if (_cont != (True, True) or _inp == (False, True)) and (not _train or not _dist or _par is not True):
                            continue
                        HEUR.append((_outs, _par, _inp, _dist, _train, _cont))


def tb(x):
    return T("tuple", *[const(y) for y in x]) if isinstance(x, tuple) else const(x)


class Sens:
    """expected sensitivities in terms of the opaque gradients"""

    def __init__(self, s, ins, outs):
        self.s, self.ins, self.outs = s, ins, outs

    def clean(self, t):
        """NaN / inf guards, zero fills and per-sample mapping off; sums over trailing axes become S(operand, axes)"""
        memo = {}

        def f(x):
            if x.op == "vm":
                return x.args[0]
            if x.op == "arr" and x.args[0].op == "row":
                return f(x.args[0])
            if x.op == "row":
                y = x.args[0]
                return f(y)
            if x.op == "arr" and x.args[0].op not in ("sym", "gradp", "gradx", "dist", "norm", "row", "expand"):
                return x.args[0]
            nm, a, kw = npcall(x)
            if nm in ("zeros", "zeros_like"):
                return const(0)
            if nm == "where" and len(a) == 3:
                v = [y for y in walk(a[0]) if y.op == "call"]
                guard = bool(v) and all(npcall(y)[0] in ("isfinite", "isnan", "isinf", "logical_or", "logical_and", "logical_not") for y in v)
                if guard and zero(a[1]):
                    return a[2]
                if guard and zero(a[2]):
                    return a[1]
                if zero(a[1]) and zero(a[2]):
                    return const(0)
            if nm == "nan_to_num" and a:
                return a[0]
            if nm == "reshape" and a and a[0].op == "arr" and a[0].args[0].op == "dist":
                return a[0]
            if x.op == "item" and x.args[0].op == "arr" and x.args[0].args[0].op == "dist":
                return x.args[0]
            if nm in ("sum", "mean") and a:
                if nm == "mean":
                    raise AnalysisError("mean is not modelled")
                ax = kw.get("axis", a[1] if len(a) > 1 else NONE)
                return T("S", a[0], ax)
            return x

        return rewrite(t, f)

    def axes(self, t):
        """axes of sums made negative from the rank of the operand as written"""
        def g(x):
            if x.op == "call" and npcall(x)[0] == "sum":
                nm, a, kw = npcall(x)
                sh = infer(a[0])
                ax = kw.get("axis", a[1] if len(a) > 1 else NONE)
                if sh is None:
                    raise AnalysisError(f"the shape of {short(a[0])} is not known")
                xs = [ax] if ax.op == "const" and ax is not NONE else list(ax.args) if ax.op in ("tuple", "list") else [const(i) for i in range(len(sh))]
                if not all(y.op == "const" for y in xs):
                    raise AnalysisError(f"the axes {short(ax)} are not known")
                k = T("tuple", *[const(i) for i in sorted(y.args[0] if y.args[0] < 0 else y.args[0] - len(sh) for y in xs)])
                return T("call", T("ext", "jax.numpy.sum"), (a[0],), (("axis", k),))
            return x
        return top_down(t, g)

    def fold(self, t, kind, X, scales, j):
        """S(|g * scale|**2) terms of output j become atoms"""
        wrt = PARAMS if kind == "gradp" else self.ins

        def f(x):
            if x.op != "S":
                return x
            if x.args[0] is const(0):
                return const(0)
            E = Elem()
            n = E.norm(elem(x.args[0]))
            if not E.rf(n)[0]:
                return const(0)
            for i, w in enumerate(wrt):
                if x.args[1] is not T("tuple", *[const(k) for k in range(-len(w), 0)]):
                    continue
                for nm, sc in scales[i]:
                    if sc is const(0):
                        continue
                    want = T("**", T("call", T("ext", "jax.numpy.abs"), (T("*", self.g(kind, X, j, i), sc),), ()), const(2))
                    try:
                        if Elem().eq(elem(x.args[0]), elem(want)):
                            return atom(T("SS", const(kind), X, const(j), const(i), const(nm)))
                    except AnalysisError:
                        pass
            return x
        return rewrite(t, f)

    def g(self, kind, X, j, i):
        n = leaves(X)[0].args[1].args[0]
        w = (PARAMS if kind == "gradp" else self.ins)[i]
        return arr(T(kind, X, const(j), const(i)), n, *self.outs[j], *w)


def zero(t):
    return t.op == "const" and type(t.args[0]) in (int, float) and t.args[0] == 0


def elem(t):
    def f(x):
        if x.op == "const" and isinstance(x.args[0], float) and x.args[0] == x.args[0] and abs(x.args[0]) < 1e9:
            q = Fraction(x.args[0]).limit_denominator(10000)
            return const_frac(q) if abs(float(q) - x.args[0]) < 1e-12 else x
        return atom(x) if x.op == "arr" or x.op == "item" and npcall(x.args[0])[0] == "quantile" or npcall(x)[0] == "quantile" else x
    return top_down(t, f)


def top_down(t, f, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        if x not in memo:
            y = f(x)
            memo[x] = y if y is not x and y.op == "sym" else rebuild(y, go)
        return memo[x]
    return go(t)


def heuristic(prog, rep):
    for c in HEUR:
        for unc in (False, True):
            if unc and not (c[4] and c[2]):
                continue
            with rep.unit("heuristic/" + "/".join(str(x) for x in c + (unc,))):
                one_heuristic(prog, rep, *c, unc)


def one_heuristic(prog, rep, outs, par, inp, dist, train, cont, unc):
    ins = [(3,), (2,)]
    s = Setup(prog, ins, outs, hook_u=False)
    I, st = s.I, s.st
    S = Sens(s, ins, outs)
    tag = f"outputs {outs}, parameters {par}, input {inp}, distance {dist}, " + ("training data" if train else "no training data") + f", continuous {cont}" + (", uncertainties" if unc else "")
    where = "ConformalizedModel.uncertainty_heuristic"

    def norm(I_, fn, args, kwargs, st_, node):
        v = I_.snap(st_, args[0])
        if v is NONE or not alive(st_):
            return NONE
        xs = leaves(v)
        sh = [infer(x) for x in xs]
        if any(x is None for x in sh):
            raise AnalysisError(f"the shape of {short(v)} is not known")
        ys = [arr(T("norm", x), *h[1:]) for x, h in zip(xs, sh)]
        return ys[0] if v.op not in ("tuple", "list") else T("tuple", *ys)

    def dst(I_, fn, args, kwargs, st_, node):
        b = s.bind("distance_sensitivity", args, kwargs)
        fl = [I_.snap(st_, x) for x in flat(I_, st_, I_.get_attr(s.A, "_distance_sensitivity", st_, node))]
        if all(x is FALSE for x in fl):
            return NONE
        x = I_.snap(st_, b["X"])
        return arr(T("dist", x, b.get("normalize", TRUE)), leaves(x)[0].args[1].args[0], 1)
    I.hooks[MOD + ":pytree_robust_normalization"] = norm
    I.hooks[method(prog, s.cm, "distance_sensitivity").qual] = dst
    I.opaque.add(method(prog, s.cm, "_prepare_data_for_kdtree").qual)
    X, Z = s.data("X", 9, ins), s.data("Z", 5, ins)
    Y = s.data("Y", 9, outs)
    kw = dict(Y_cal=Y, skip_sanity_checks=TRUE, parameter_sensitivity=tb(par), input_sensitivity=tb(inp), distance_sensitivity=tb(dist), continuous_features=tb(cont))
    if train:
        kw["X_train"] = s.data("W", 7, ins)
    if unc:
        kw["X_cal_unc"] = s.data("V", 9, ins)
    try:
        s.go("calibrate", X, **kw)
        if not alive(st):
            rep.ob("heuristic", tag, False, "calibrate raises", "ConformalizedModel.calibrate")
            return
        r = s.go("uncertainty_heuristic", Z, **({"X_unc": s.data("ZU", 5, ins)} if unc else {}))
        if not alive(st):
            rep.ob("heuristic", tag, False, "the heuristic raises", where)
            return
        r = I.snap(st, r)
        got = leaves(r)
        if len(got) != len(outs):
            rep.ob("heuristic", tag, False, f"the heuristic has {len(got)} leaves for {len(outs)} outputs", where)
            return
        for j, g in enumerate(got):
            sh = infer(g)
            if sh is None:
                raise AnalysisError(f"the shape of {short(g, 300)} is not known")
            if list(sh) != [const(d) for d in (5, *outs[j])]:
                rep.ob("heuristic", tag, False, f"the heuristic of output {j} has shape {[short(d) for d in sh]}", where)
                return
    except ShapeError as e:
        rep.ob("heuristic", tag, False, f"arrays do not fit together: {e}", where)
        return
    rep.saw(I)
    pf = par if isinstance(par, tuple) else (par,) * len(PARAMS)
    nf = inp if isinstance(inp, tuple) else (inp,) * 2
    on = [i for i in range(2) if nf[i] and cont[i]]
    W = s.data("W", 7, ins)
    Q = lambda w, l: T("atom_q", w, l)

    def total(x, xu, j, what):
        """numerator and normaliser of a sensitivity at x"""
        if what == "par":
            num = sum(math.prod(w) for w, f in zip(PARAMS, pf) if f)
            return [T("*", atom(T("SS", const("gradp"), x, const(j), const(i), const("p"))), const_frac(Fraction(1, num))) for i, f in enumerate(pf) if f]
        num = sum(math.prod(ins[i]) for i in on)
        out = []
        for i in on:
            for nm in ("iqr", "unc") if xu else ("iqr",):
                out.append(T("*", atom(T("SS", const("gradx"), x, const(j), const(i), const(nm))), const_frac(Fraction(1, num))))
        return out
    zs, xs = I.snap(st, Z), I.snap(st, X)

    def canon(g, j):
        """result in terms of sensitivity atoms, with normalisers resolved first"""
        def nrm(x):
            if x.op == "arr" and x.args[0].op == "norm":
                b = x.args[0].args[0]
                if b.op == "arr" and b.args[0].op == "dist":
                    return x
                return atom(T("N", pieces(b, xs, "V")))
            return x
        g = top_down(g, nrm)
        return pieces_raw(g, zs, "ZU", j)

    def scales(un, n):
        iq = []
        for i in range(2):
            w = leaves(W)[i]
            iq.append([("iqr", atom_iqr(w)), ("unc", arr(un + str(i), n, *ins[i]))])
        return iq

    def pieces_raw(g, x, un, j):
        n = 9 if x is xs else 5
        g = S.clean(rewrite(S.axes(g), iqr_fold))
        g = S.fold(g, "gradp", x, [[("p", arr(f"p{i}", *PARAMS[i]))] for i in range(len(PARAMS))], j)
        return S.fold(g, "gradx", x, scales(un, n), j)

    def pieces(b, x, un):
        """a calibration sensitivity as a sorted description (which output, which terms)"""
        for j in range(len(outs)):
            g = pieces_raw(b, x, un, j)
            for what in ("par", "inp"):
                w = total(x, unc and what == "inp", j, what)
                if not w:
                    continue
                try:
                    if Elem().eq(elem(g), T("+", *w, const(0))):
                        return T("desc", const(what), const(j))
                except AnalysisError:
                    pass
        return T("desc", const("other"), b)
    for j, g in enumerate(got):
        g = canon(g, j)
        want = []
        for what in ("par", "inp"):
            if what == "par" and not any(pf) or what == "inp" and not (train and on):
                continue
            nn = atom(T("N", T("desc", const(what), const(j))))
            want += [T("/", t, nn) for t in total(zs, unc and what == "inp", j, what)]
        if train and dist:
            want.append(atom(arr(T("dist", zs, TRUE), 5, 1)))
        ok = Elem().eq(elem(g), T("+", *want, const(0)))
        rep.ob("heuristic", f"{tag}, output {j}", ok, f"the heuristic is {short(g, 500)}; expected {short(T('+', *want), 300)}", where)
    if train and dist:
        nd = s.field("_norm_S_dist")
        ok = nd.op == "arr" and nd.args[0].op == "norm" and contains(nd, lambda y: y is T("dist", xs, FALSE))
        rep.ob("heuristic", tag + ", distance norm", ok, f"the distances are normalised by {short(nd)}", "ConformalizedModel.calibrate")


def flat(I, st, t):
    t = I.refine(st, t)
    if t.op == "tuple":
        return [y for x in t.args for y in flat(I, st, x)]
    o = I.obj(st, t)
    if o is not None and o.kind == "list":
        return [y for x in o.items for y in flat(I, st, x)]
    return [t]


def quant(x):
    """(data, level) of a quantile term over axis 0"""
    if x.op == "item" and x.args[1].op == "const" and npcall(x.args[0])[0] == "quantile":
        nm, a, kw = npcall(x.args[0])
        q = kw.get("q", a[1] if len(a) > 1 else NONE)
        q = q.args[x.args[1].args[0]] if q.op in ("carr", "list", "tuple") else NONE
    elif npcall(x)[0] == "quantile":
        nm, a, kw = npcall(x)
        q = kw.get("q", a[1] if len(a) > 1 else NONE)
    else:
        return None
    ax = kw.get("axis", a[2] if len(a) > 2 else NONE)
    if ax is not const(0) or level(q) is None:
        return None
    return a[0], level(q)


def iqr_fold(x):
    q = quant(x)
    return atom(T("qt", q[0], const(q[1]))) if q else x


def atom_iqr(w):
    return T("+", atom(T("qt", w, const(0.75))), T("neg", atom(T("qt", w, const(0.25)))))
