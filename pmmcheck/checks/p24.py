"""P24: one training step is one Adam step.

Model.train is evaluated abstractly with one batch and one epoch, resumed from
a symbolic optimizer state (x, m, v, i) with symbolic hyperparameters; the
stored parameters and moments are compared, in rational normal form, with the
Adam formulas applied to the (clipped, for complex parameters conjugated)
gradient of the leaf."""
from .algebra import equal_by_cases, ratfun, rat_eq
from .p10 import data
from .trainutil import *

HYP = {"lr": T("sym", "lr"), "b1": T("sym", "b1"), "b2": T("sym", "b2"), "eps": T("sym", "eps"), "clip": T("sym", "clip")}
KNOWN = {"clip", "sqrt", "gradof"}


def expand(t):
    inv = {v: k for k, v in Sim.TOK.items()}
    for _ in range(6):
        u = rewrite(t, lambda x: inv.get(x, x))
        if u is t:
            return t
        t = u
    return t


CASTS = {"jax.numpy.float32", "jax.numpy.float64", "jax.numpy.asarray", "jax.numpy.array", "builtins.float", "numpy.float32", "numpy.float64"}


def norm(t):
    """canonical clip / sqrt / conj / real / imag, casts dropped"""
    def f(x):
        if x.op == "attr" and x.args[1] in ("real", "imag"):
            return part(x.args[1], x.args[0])
        if x.op != "call":
            if x.op == "**" and x.args[1] is const(0.5):
                return T("sqrt", x.args[0])
            return x
        q, a, kw = extname(x.args[0]) or "", x.args[1], dict(x.args[2])
        if x.args[0].op == "attr" and x.args[0].args[1] in ("astype", "conj", "conjugate", "clip"):
            b = x.args[0].args[0]
            m = x.args[0].args[1]
            if m == "astype":
                return b
            if m == "clip":
                a = (b, *a)
                q = "jax.numpy.clip"
            else:
                return conj_(b)
        if q in CASTS and len(a) == 1:
            return a[0]
        if q in ("jax.numpy.clip", "jax.lax.clamp"):
            if q.endswith("clamp"):
                a = (a[1], a[0], a[2])
            lo = a[1] if len(a) > 1 else kw.get("min", kw.get("a_min", NONE))
            hi = a[2] if len(a) > 2 else kw.get("max", kw.get("a_max", NONE))
            return T("clip", a[0], lo, hi)
        if q == "jax.numpy.minimum" and len(a) == 2:
            for y, z in (a, a[::-1]):
                if z is HYP["clip"]:
                    return T("half", "min", y)
        if q == "jax.numpy.maximum" and len(a) == 2:
            for y, z in (a, a[::-1]):
                if y.op == "half" and rat_eq(z, T("neg", HYP["clip"])):
                    return T("clip", y.args[1], T("neg", HYP["clip"]), HYP["clip"])
        if q in ("jax.numpy.sqrt", "jax.lax.sqrt"):
            return T("sqrt", a[0])
        if q in ("jax.numpy.conj", "jax.numpy.conjugate", "jax.lax.conj"):
            return conj_(a[0])
        if q in ("jax.numpy.real", "jax.numpy.imag", "jax.lax.real", "jax.lax.imag"):
            return part(q.rsplit(".", 1)[1], a[0])
        if q == "jax.lax.complex" and len(a) == 2:
            return T("+", a[0], T("*", const(1j), a[1]))
        if q in ("jax.numpy.abs", "jax.numpy.absolute", "builtins.abs"):
            return T("abs", a[0])
        if q == "jax.numpy.square":
            return sq(a[0])
        return x

    def g(x):
        if x.op == "**" and x.args[1] is const(2):
            return sq(x.args[0])
        return x

    def sq(y):
        return T("*", y.args[0], conj_(y.args[0])) if y.op == "abs" else T("*", y, y)
    return rewrite(t, lambda x: g(f(x)))


def isreal(x):
    return x.op == "part" or x.op == "clip" and isreal(x.args[0]) or x.op == "const" and not isinstance(x.args[0], complex)


def conj_(x):
    if isreal(x):
        return x
    if x.op == "const":
        return const(x.args[0].conjugate())
    if x.op in ("+", "*", "neg"):
        return T(x.op, *[conj_(y) for y in x.args])
    return T("conj", x)


def part(w, x):
    if x.op == "conj":
        return part(w, x.args[0]) if w == "real" else T("neg", part(w, x.args[0]))
    return T("part", w, x)


def bad_atoms(t):
    out = []
    for y in walk(t):
        if y.op == "call" and extname(y.args[0]) != "user.LR":
            out.append(y)
        if y.op in ("abs", "half", "conj"):
            out.append(y)
    return out


def cut_grad(t, j):
    """the gradient of leaf j as one atom"""
    G = [y for y in walk(t) if y.op == "gradof"]
    if not G:
        raise AnalysisError("no gradient in the update")
    g0 = G[0]

    def f(x):
        if x.op == "item" and x.args[0].op == "gradof":
            return T("sym", "G%s" % short(x.args[1]))
        return x
    return rewrite(t, f)


def run(prog, rep):
    rep.rule("moments", "first and second moment are the exponential averages of the clipped gradient and of its squared modulus", 6)
    rep.rule("step", "the parameter moves by -lr(i) * m_hat / (sqrt(v_hat) + eps) with bias-corrected moments", 3)
    rep.rule("initial", "training that is not resumed starts from zero moments and the model's parameters", 4)
    rep.rule("schedule", "a learning-rate schedule is evaluated at the stored step counter, a constant rate is used as given", 2)
    ci = prog.get_class("SequentialModel")
    for kind in ("real", "complex", "mixed"):
        for sched in (False, True):
            with rep.unit(f"{kind}/{sched}"):
                one(prog, rep, ci, kind, sched)
    for kind in ("real", "complex"):
        with rep.unit(f"initial/{kind}"):
            first(prog, rep, ci, kind)


def go(prog, ci, kind, resume, sched, epochs=1):
    kw = {"batch_size": const(4), "val_batch_size": const(0), "epochs": const(epochs), "target_loss": const(-1e9),
          "early_stopping_patience": const(9), "early_stopping_min_delta": const(0.0), **HYP}
    if sched:
        kw["lr"] = T("ext", "user.LR")
    r = Run(prog, ci, [(True, 1), (True, 1)], data("array", const(4)), kw, kind=kind, resume=resume,
            hooks={"builtins.callable": lambda I, fn, args, kwargs, s, node: const(args[0] is T("ext", "user.LR")) if args and args[0] in (T("ext", "user.LR"), HYP["lr"]) else None})
    s = Sim(r, lambda k, j: 9.0 - k)
    s.out(r.leaves_of(r.outcome("params")[0])[0])
    return r, s


def stored(r, s):
    out = []

    def go(x):
        if x.op in ("list", "tuple"):
            for y in x.args:
                go(y)
        elif x.op == "inst":
            d = {(k if isinstance(k, str) else k.args[0]): v for k, v in x.args[-1]}
            out.append({f: expand(s.out(v)) for f, v in d.items()})
        else:
            raise AnalysisError(f"the stored optimizer state is {short(x)}")
    go(r.optimizer())
    return out


def one(prog, rep, ci, kind, sched):
    where = ci.module.name
    r, s = go(prog, ci, kind, True, sched)
    rep.saw(r.I)
    b1, b2, eps, clip = (HYP[k] for k in ("b1", "b2", "eps", "clip"))
    for j, d in enumerate(stored(r, s)):
        cplx = kind == "complex" or kind == "mixed" and j == 0
        tag = f"{ci.qual}.train/{kind}{'/schedule' if sched else ''}/leaf{j}"
        x, m, v, i = (T("sym", f"{n}{j}") for n in ("op", "om", "ov", "oe"))
        G = T("sym", f"G{j}")
        nclip = T("neg", clip)
        if cplx:
            g = T("+", T("clip", T("part", "real", G), nclip, clip), T("neg", T("*", const(1j), T("clip", T("part", "imag", G), nclip, clip))))
            g2 = T("*", g, conj_(g))
        else:
            g = T("clip", G, nclip, clip)
            g2 = T("*", g, g)
        one_ = const(1)
        m1 = T("+", T("*", b1, m), T("*", T("+", one_, T("neg", b1)), g))
        v1 = T("+", T("*", b2, v), T("*", T("+", one_, T("neg", b2)), g2))
        step = T("+", i, one_)
        mh = T("/", m1, T("+", one_, T("neg", T("pow", b1))))
        vh = T("/", v1, T("+", one_, T("neg", T("pow", b2))))
        lr = T("call", T("ext", "user.LR"), (i,), ()) if sched else HYP["lr"]

        def canon(t):
            t = norm(cut_grad(t, j))

            def f(y):
                if y.op == "**" and y.args[0] in (b1, b2):
                    if rat_eq(y.args[1], step):
                        return T("pow", y.args[0])
                if y.op == "clip":
                    ok = rat_eq(y.args[1], nclip) and y.args[2] is clip
                    if ok and y.args[0].op == "neg":       # symmetric bounds
                        return T("neg", T("clip", y.args[0].args[0], nclip, clip))
                    return T("clip", y.args[0], nclip, clip) if ok else T("badclip", *y.args)
                return y
            t = rewrite(t, f)

            def h(y):
                if y.op == "sqrt" and rat_eq(y.args[0], vh):
                    return T("sym", "SQRT_VHAT")
                return y
            return rewrite(t, h)
        want_x = T("+", x, T("neg", T("/", T("*", lr, mh), T("+", T("sym", "SQRT_VHAT"), eps))))
        for nm, got, want, rule in (("m", d.get("m"), m1, "moments"), ("v", d.get("v"), v1, "moments"), ("params", d.get("params"), want_x, "step")):
            got = canon(got)
            ok, asg, a, b = equal_by_cases(got, want)
            if not ok and bad_atoms(got):
                raise AnalysisError(f"the {nm} update uses {short(bad_atoms(got)[0])}")
            rep.ob(rule, f"{tag}/{nm}", ok, f"the {'complex' if cplx else 'real'} Adam step stores {nm} = {short(a, 300) if not ok else ''} instead of {short(b, 200) if not ok else ''}", where)
        p = [y for y in walk(norm(cut_grad(d["params"], j))) if y.op == "call" and extname(y.args[0]) == "user.LR"]
        rep.ob("schedule", tag, (len(p) == 1 and p[0] is lr) if sched else HYP["lr"] in set(walk(d["params"])),
               f"the learning rate used is {[short(y) for y in p]}", where)


def first(prog, rep, ci, kind):
    """epochs=0: the stored optimizer state is the initial one"""
    r, s = go(prog, ci, kind, False, False, epochs=0)
    rep.saw(r.I)
    for j, d in enumerate(stored(r, s)):
        p = T("sym", f"p{j}")
        for nm in ("m", "v"):
            z = norm(d[nm])
            q = extname(z.args[0]) if z.op == "call" else None
            ok = q in ("jax.numpy.zeros_like",) and z.args[1][0] is p or z is const(0) or q == "jax.numpy.zeros"
            if not ok:
                n, _ = ratfun(z)
                ok = not n
            rep.ob("initial", f"{ci.qual}.train/{kind}/leaf{j}/{nm}", ok, f"the initial {nm} is {short(z)}", ci.module.name)
        rep.ob("initial", f"{ci.qual}.train/{kind}/leaf{j}/params", norm(d["params"]) is p, f"training starts from {short(d['params'])}", ci.module.name)
        rep.ob("initial", f"{ci.qual}.train/{kind}/leaf{j}/counter", d["epoch"] is const(0), f"the step counter starts at {short(d['epoch'])}", ci.module.name)
