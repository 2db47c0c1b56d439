"""P10: every epoch trains on every sample exactly once, with inputs, targets
and uncertainties of the same sample together; validation likewise covers the
validation data and averages the batch losses.

Model.train is evaluated abstractly (trainutil.Run); its loop transfer
functions are tabulated for small sample counts and batch sizes (Sim) and the
rows held by every batch handed to the loss are read off the batch terms.
Alignment of X, Y and Y_unc is also decided for symbolic sample counts."""
from .trainutil import *
from .p07 import model_calls

SIZES = [(7, 3), (6, 3), (5, 1), (4, 4), (4, 9), (7, 5)]
VSIZES = [(5, 2), (4, 2), (3, 0), (3, 8), (4, 1)]


def tree(I, st, kind, name, n, *rest):
    if kind == "array":
        return arr(name, n, *rest)
    return T("tuple", arr(name + "a", n, *rest), arr(name + "b", n, *[const(d.args[0] + 1) if isinstance(d, T) else d + 1 for d in rest], 2))


def leaves(t):
    if t.op in ("list", "tuple"):
        return [y for x in t.args for y in leaves(x)]
    if t.op == "dict":
        return [y for _, x in t.args[0] for y in leaves(x)]
    return [t]


def data(kind, n, pre="", y=True, unc=True):
    d = {"X": tree(None, None, kind, pre + "X", n, 3)}
    if y:
        d["Y"] = tree(None, None, kind, pre + "Y", n, 2)
    if unc:
        d["Y_unc"] = tree(None, None, kind, pre + "U", n, 2)
    return d


def sizes_of(n, m=None):
    return {**{k + s: n for k in "XYU" for s in ("", "a", "b")}, **{"V" + k + s: m for k in "XYU" for s in ("", "a", "b") if m is not None}}


def loss_call(t):
    if t.op == "call":
        return t
    # the differentiated value: the loss itself (losses of earlier batches may occur below it)
    seen, stack, cs = set(), [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "call" and extname(x.args[0]) in ("user.LOSS", "user.VLOSS"):
            cs.add(x)
            continue
        stack.extend(children(x))
    return next(iter(cs)) if len(cs) == 1 else None


def batch(c, sz, names):
    """rows of each data argument of a loss call: [(leaf name, indices)], error"""
    a = c.args[1]
    args = a[1:-1]
    if len(args) != len(names):
        return None, f"the loss is called with {len(a)} arguments instead of {len(names) + 2}"
    out = []
    for nm, x in zip(names, args):
        for l in leaves(x):
            r = rows(l, sz)
            if any(not isinstance(n, str) or n not in sz for n, _ in r):
                return None, f"{nm} is {r[0][0]}"
            if any(n.rstrip("ab") != nm for n, _ in r):
                return None, f"the {nm} argument of the loss holds rows of {sorted({n for n, _ in r})}"
            out.append((r[0][0] if r else nm, [i for _, i in r]))
    return out, None


def check_batches(evs, sz, names, n, training):
    """error text or None for the batches of one epoch"""
    if not evs:
        return "no batch at all"
    idx = []
    for t in evs:
        c = loss_call(t.args[2] if t.op == "gradof" else t)
        if c is None:
            return "the loss is not evaluated once per batch"
        out, err = batch(c, sz, names)
        if err:
            return err
        ref = out[0][1]
        for nm, ix in out[1:]:
            if ix != ref:
                return f"the rows of {nm} are not those of {out[0][0]}"
        idx += ref
        m = check_pred(c, training)
        if m:
            return m
    flat = []
    perms = set()
    for i in idx:
        if isinstance(i, int):
            flat.append(i)
        else:
            perms.add((i[1], i[2]))
            if i[4] != tuple(range(n)) or i[2] != n:
                return "samples are drawn from a part of the data"
            flat.append(i[3])
    if len(perms) > 1:
        return "the batches of one epoch use different permutations"
    if sorted(flat) != list(range(n)):
        miss = sorted(set(range(n)) - set(flat))
        dup = sorted({i for i in flat if flat.count(i) > 1})
        return f"of {n} samples, positions {miss} are never used and {dup} are used more than once"
    return None


def check_pred(c, training):
    p = c.args[1][-1]
    ms = model_calls(p)
    if not (p.op == "item" and p.args[1] is const(0) and ms and p.args[0] is ms[0] or ms):
        return f"the prediction given to the loss is {short(p)}"
    m = p.args[0] if p.op == "item" else ms[0]
    if m.op != "call" or len(m.args[1]) != 5:
        return f"the prediction given to the loss is {short(p)}"
    if m.args[1][1] is not c.args[1][1]:
        return "the prediction is made for other data than the loss is given"
    if m.args[1][2] is not const(training):
        return f"the model is evaluated with training={short(m.args[1][2])}"
    return None


def run(prog, rep):
    rep.rule("coverage", "the batches of each epoch hold every training sample exactly once, X, Y and Y_unc rows of the same samples, and predictions of the batch in training mode", 20)
    rep.rule("validation", "each validation covers every validation sample (the training data when none is given) exactly once, aligned, in inference mode", 20)
    rep.rule("mean", "the validation loss of an epoch is the mean of its batch losses", 8)
    rep.rule("alignment", "for every sample count and batch size, the X, Y and Y_unc batches differ only in the array they are cut from", 4)
    rep.rule("shuffle", "the permutation of every epoch and validation uses its own random key", 4)
    rep.rule("accepts", "no runtime-checked annotation on the way rejects the data (trees whose leaves differ in shape included)", 20)
    rep.rule("refused", "data that cannot be put side by side (other sample counts of inputs and targets, uncertainties of another shape, validation data of other feature shapes, targets or uncertainties on one side only) is refused", 15)
    ci = prog.get_class("SequentialModel")
    plan = [(True, 1), (True, 1)]
    sigs = (("sup+unc", True, True), ("sup", True, False), ("unsup", False, False))
    for kind in ("array", "tree"):
        for sig, y, u in sigs:
            names = ["X"] + ["Y"] * y + ["U"] * u
            vn = ["V" + x for x in names]
            for i, (n, b) in enumerate(SIZES):
                m, vb = VSIZES[i % len(VSIZES)]
                for val in ("none", "given", "own-loss", "none-own-loss"):
                    with rep.unit(f"{kind}/{sig}/{n}/{b}/{val}"):
                        if rep.tier == "quick" and val.endswith("own-loss") and i > 1:
                            continue
                        d = data(kind, const(n), "", y, u)
                        if not val.startswith("none"):
                            v = data(kind, const(m), "V", y, u)
                            d.update({"X_val": v["X"], **({"Y_val": v["Y"]} if y else {}), **({"Y_val_unc": v["Y_unc"]} if u else {})})
                        kw = {"batch_size": const(b), "val_batch_size": const(vb), "epochs": const(2), "target_loss": const(-1e9), "early_stopping_patience": const(9)}
                        if val.endswith("own-loss"):
                            kw["val_loss_fn"] = VLOSS
                        r = Run(prog, ci, plan, d, kw)
                        rep.saw(r.I)
                        tag = f"{ci.qual}.train/{kind}/{sig}/N={n},B={b}/val={val}" + (f",M={m},VB={vb}" if not val.startswith("none") else f",VB={vb}")
                        bad = sorted({f"{x.data['qual']}: {x.data['param']}: {x.data['why']}" for x in r.I.events if x.kind == "annot"})
                        rep.ob("accepts", tag, not bad, "; ".join(bad), ci.module.name)
                        fin, _ = r.outcome("params")
                        if fin is None or not r.alive:
                            rep.ob("coverage", tag, False, "training with these arguments raises", ci.module.name)
                            continue
                        lv = lambda k, j: 100.0 - 10 * k + (1, 2, 4, 8, 16, 32, 64)[j % 7]
                        s = Sim(r, lv)
                        for l in r.leaves_of(fin):
                            s.out(l)
                        if s.epochs != 2:
                            rep.ob("coverage", tag, False, f"epochs=2 runs {s.epochs} epochs", ci.module.name)
                            continue
                        sz = sizes_of(n, m)
                        for k in (1, 2):
                            evs = [e[2] for e in s.events if e[0] == "grad" and e[1] == k]
                            err = check_batches(evs, sz, names, n, True)
                            rep.ob("coverage", f"{tag}/epoch{k}", err is None, err or "", ci.module.name)
                        for k in (0, 1, 2):
                            evs = [e[2] for e in s.events if e[0] == "val" and e[1] == k]
                            err = check_batches(evs, sz, names if val.startswith("none") else vn, n if val.startswith("none") else m, False)
                            want = "user.VLOSS" if val.endswith("own-loss") else "user.LOSS"
                            if err is None and any(extname(e.args[0]) != want for e in evs):
                                err = "validation does not use the validation loss"
                            rep.ob("validation", f"{tag}/epoch{k}", err is None, err or "", ci.module.name)
                        keys(rep, tag, s, sz, ci)
                        mean(rep, tag, r, s, lv, ci)
    align(prog, rep, ci, plan)
    refused(prog, rep, ci, plan)


def refused(prog, rep, ci, plan):
    for kind in ("array", "tree"):
        t = lambda name, n, *d: tree(None, None, kind, name, const(n), *map(const, d))
        ok = {"X": t("X", 6, 3), "Y": t("Y", 6, 2), "Y_unc": t("U", 6, 2), "X_val": t("VX", 4, 3), "Y_val": t("VY", 4, 2), "Y_val_unc": t("VU", 4, 2)}
        train = {k: ok[k] for k in ("X", "Y", "Y_unc")}
        sup = {k: ok[k] for k in ("X", "Y", "X_val", "Y_val")}
        cases = [("other sample count of the targets", train, {"Y": t("Y", 5, 2), "Y_unc": t("U", 5, 2)}),
                 ("other sample count of the uncertainties", train, {"Y_unc": t("U", 5, 2)}),
                 ("other shape of the uncertainties", train, {"Y_unc": t("U", 6, 1)}),
                 ("other sample count of the targets, no uncertainties", {k: ok[k] for k in ("X", "Y")}, {"Y": t("Y", 5, 2)}),
                 ("other sample count of the validation targets", ok, {"Y_val": t("VY", 5, 2), "Y_val_unc": t("VU", 5, 2)}),
                 ("other sample count of the validation targets, no uncertainties", sup, {"Y_val": t("VY", 5, 2)}),
                 ("other sample count of the validation uncertainties", ok, {"Y_val_unc": t("VU", 3, 2)}),
                 ("other shape of the validation uncertainties", ok, {"Y_val_unc": t("VU", 4, 1)}),
                 ("other feature shape of the validation inputs", ok, {"X_val": t("VX", 4, 2)}),
                 ("other feature shape of the validation inputs, unsupervised", {"X": ok["X"], "X_val": ok["X_val"]}, {"X_val": t("VX", 4, 2)}),
                 ("other feature shape of the validation targets", ok, {"Y_val": t("VY", 4, 1), "Y_val_unc": t("VU", 4, 1)}),
                 ("uncertainties without targets", {"X": ok["X"]}, {"Y_unc": ok["Y_unc"]}),
                 ("validation targets without targets", {"X": ok["X"], "X_val": ok["X_val"]}, {"Y_val": ok["Y_val"]}),
                 ("validation uncertainties without validation targets", train, {"Y_val_unc": ok["Y_val_unc"], "X_val": ok["X_val"]}),
                 ("uncertainties for the training targets only", {k: v for k, v in ok.items() if k != "Y_val_unc"}, {})]
        for tag, base, change in cases:
            with rep.unit(f"refused/{kind}/{tag}"):
                kw = {"batch_size": const(3), "val_batch_size": const(2), "epochs": const(2)}
                r = Run(prog, ci, plan, {**base, **change}, dict(kw))
                rep.saw(r.I)
                bad = [x for x in r.I.events if x.kind == "annot"]
                rep.ob("refused", f"{ci.qual}.train/{kind}: {tag}", not r.alive or bool(bad), "training accepts the data", ci.module.name)


def keys(rep, tag, s, sz, ci):
    """distinct permutations per epoch/validation"""
    ks = {}
    for kind, k, t in s.events:
        for y in walk(t):
            if y.op == "call" and extname(y.args[0]) == "jax.random.permutation":
                ks.setdefault((kind, k), set()).add(y.args[1][0])
    ks2 = {g: v for g, v in ks.items()}
    bad = [f"{a} and {b}" for a in ks2 for b in ks2 if a < b and a[0] == b[0] == "grad" and ks2[a] & ks2[b]]
    rep.ob("shuffle", tag, not bad, f"the same permutation is used for {bad}", ci.module.name)


def mean(rep, tag, r, s, lv, ci):
    """best validation loss after a monotone run equals the mean of the batch losses of the last epoch"""
    want = {}
    for kind, k, t in s.events:
        if kind == "val":
            want.setdefault(k, []).append(t)
    vals = {k: sum(lv(k, j) for j in range(len(ts))) / len(ts) for k, ts in want.items()}
    # scalar slots of the outer loop that hold the loss of the last epoch
    outer = s.outer[0]
    res = s.top[1].get(("loop", outer), {})
    fl = [v.args[0] for v in res.values() if v.op == "const" and isinstance(v.args[0], float)]
    last = max(vals)
    ok = any(abs(x - vals[last]) < 1e-9 for x in fl)
    rep.ob("mean", tag, ok, f"after {last} epochs the loop carries losses {fl}, the mean of the batch losses is {vals[last]}", ci.module.name)


def align(prog, rep, ci, plan):
    for kind in ("array", "tree"):
        for val in (False, True):
            with rep.unit(f"align/{kind}/{val}"):
                N, M = T("sym", "N"), T("sym", "M")
                d = data(kind, N)
                if val:
                    v = data(kind, M, "V")
                    d.update({"X_val": v["X"], "Y_val": v["Y"], "Y_val_unc": v["Y_unc"]})
                r = Run(prog, ci, plan, d, {"batch_size": T("sym", "B"), "val_batch_size": T("sym", "VB")})
                rep.saw(r.I)
                r.invariants()
                cs = {y for l, s in r.varying() for t in (r.step(l, s), r.init(l, s)) for y in walk(t) if y.op == "call" and extname(y.args[0]) == "user.LOSS"}
                for i, c in enumerate(sorted(cs, key=lambda y: y.sid)):
                    a = c.args[1]
                    norm = set()
                    for x in a[1:-1]:
                        for l in leaves(x):
                            syms = {y for y in walk(l) if y.op == "sym" and y.args[0].lstrip("V").rstrip("ab") in ("X", "Y", "U")}
                            norm.add(subst(l, {y: T("sym", "$D") for y in syms}))
                    ok = len(a) == 5 and len(norm) == 1
                    rep.ob("alignment", f"{ci.qual}.train/{kind}/val={val}/loss{i}", ok, f"the batches are cut differently: {[short(x) for x in norm]}", ci.module.name)
