"""P11: training stops when it should and returns the best epoch's model.

The loop transfer functions of Model.train depend on the validation losses
only through comparisons; they are tabulated (trainutil.Sim) for loss histories
realising the orderings that matter (improvement by more / less than
min_delta, relapse, target reached, patience exhausted, several batches) and
compared with the documented stopping and selection rule."""
from .trainutil import *
from .p07 import model_calls
from .p10 import data, loss_call

NINF = -float("inf")

# (name, losses from epoch 0, epochs, target, patience, min_delta)
HIST = [
    ("decreasing", [9, 8, 7, 6, 5, 4], 4, NINF, 9, 0.0),
    ("increasing", [1, 2, 3, 4, 5, 6], 4, NINF, 9, 0.0),
    ("dip", [5, 3, 2, 4, 6, 8], 5, NINF, 9, 0.0),
    ("two-dips", [5, 3, 4, 2, 6, 7, 8], 6, NINF, 9, 0.0),
    ("late-best", [5, 6, 7, 4, 8, 9], 4, NINF, 9, 0.0),
    ("last-best", [5, 6, 7, 8, 4, 9], 4, NINF, 9, 0.0),
    ("no-epochs", [5, 4, 3], 0, NINF, 9, 0.0),
    ("one-epoch", [5, 4, 3], 1, NINF, 9, 0.0),
    ("target-at-start", [1, 5, 5], 4, 2.0, 9, 0.0),
    ("target-reached", [9, 8, 3, 7, 6], 4, 4.0, 9, 0.0),
    ("target-missed", [9, 8, 5, 7, 6], 4, 4.0, 9, 0.0),
    ("target-last", [9, 8, 7, 6, 3], 4, 4.0, 9, 0.0),
    ("patience-2", [5, 6, 7, 8, 9, 9.5], 5, NINF, 2, 0.0),
    ("patience-1", [5, 6, 7, 8, 9, 9.5], 5, NINF, 1, 0.0),
    ("patience-reset", [5, 6, 4, 7, 8, 3, 2], 6, NINF, 2, 0.0),
    ("patience-reset-late", [9, 9.5, 8, 8.5, 7, 7.5, 7.25], 6, NINF, 2, 0.0),
    ("small-improvements", [9, 8.75, 8.5, 8.25, 8, 7.75], 5, NINF, 2, 1.0),
    ("mixed-improvements", [9, 7, 6.75, 4, 3.75, 3.5, 3.25], 6, NINF, 2, 1.0),
    ("below-best-not-last", [5, 2, 8, 4, 3, 3.5, 2.5], 6, NINF, 3, 0.0),
    ("exactly-min-delta", [9, 8, 7, 6, 5, 4], 4, NINF, 1, 1.0),
    ("disabled", [5, 6, 7, 8, 9, 9.5], 5, NINF, 1, NINF),
    ("negative-losses", [-1, -3, -2, -5, -4, -6], 5, NINF, 2, 0.0),
]


def reference(ls, epochs, target, patience, delta):
    e, best, k, pat = 0, ls[0], 0, patience
    while e < epochs and best > target and pat > 0:
        e += 1
        v = ls[e]
        pat = patience if v <= best - delta else pat - 1
        if v < best:
            best, k = v, e
    return e, k


def model_call(t):
    c = loss_call(t.args[2] if t.op == "gradof" else t)
    if c is None:
        return None, None
    ms = [m for m in model_calls(c.args[1][-1]) if len(m.args[1]) == 5]
    p = c.args[1][-1]
    m = p.args[0] if p.op == "item" and p.args[0] in ms else (ms[0] if ms else None)
    return c, m


def run(prog, rep):
    rep.rule("stop", "training runs exactly the documented number of epochs (epoch limit, target loss, patience, minimum improvement)", 15)
    rep.rule("best", "the stored parameters, state and RNG are those evaluated by the best validation", 45)
    rep.rule("optimizer", "the stored optimizer state is the one of the best validation", 15)
    rep.rule("thread", "every training step starts from the model state returned by the previous step and uses its own random key; validation leaves both alone", 3)
    rep.rule("epoch", "training and validation losses receive the number of the current epoch", 3)
    both = [prog.get_class("SequentialModel"), prog.get_class("NonSequentialModel")]
    variants = [("plain", {}, 4, 2, "real"), ("remainder", {}, 5, 2, "real"), ("complex", {}, 4, 4, "complex")]
    for ci in both[:1] if rep.tier == "quick" else model_classes(prog):
        for vn, kw, n, b, kind in variants:
            for h in HIST:
                if vn != "plain" and rep.tier == "quick" and h[0] not in ("two-dips", "patience-reset", "late-best"):
                    continue
                with rep.unit(f"{ci.qual}/{vn}/{h[0]}"):
                    history(prog, rep, ci, vn, n, b, kind, *h)
    with rep.unit("callback"):
        callback(prog, rep, both[0])


def outer_epochs(s):
    return s.epochs or 0


def history(prog, rep, ci, vn, n, b, kind, name, ls, epochs, target, patience, delta):
    where = ci.module.name
    tag = f"{ci.qual}.train/{vn}/{name}"
    r, s, fin = simulate(prog, ci, n, b, kind, ls, epochs, target, patience, delta)
    if fin is None:
        rep.ob("stop", tag, False, "training raises or does not store its results", where)
        return
    rep.saw(r.I)
    e, k = reference(ls, epochs, target, patience, delta)
    if not rep.ob("stop", tag, outer_epochs(s) == e, f"validation losses {ls[:e + 2]} (epochs={epochs}, target_loss={target}, early_stopping_patience={patience}, early_stopping_min_delta={delta}): "
                  f"{outer_epochs(s)} epochs are run instead of {e}", where):
        return
    used = [model_call(t)[1] for kd, kk, t in s.events if kd == "val" and kk == k]
    if not used or any(m is None for m in used):
        raise AnalysisError("the validation evaluations are not understood")
    desc = f"validation losses {ls[:e + 1]}: the best is epoch {k}"
    want = {"params": used[0].args[1][0], "state": used[0].args[1][3], "rng": used[0].args[1][4]}
    for nm in ("params", "state", "rng"):
        got = [s.out(x) for x in r.leaves_of(fin[nm])]
        exp = [s.tok(x) for x in r.leaves_of(want[nm])]
        rep.ob("best", f"{tag}/{nm}", got == exp, f"{desc}, but the stored {nm} is not the one that epoch evaluated", where)
    # the optimizer: same as after a strictly decreasing run of k epochs
    r2, s2, fin2 = simulate(prog, ci, n, b, kind, [100.0 - i for i in range(13)], k, NINF, 99, 0.0)
    if fin2 is not None and s2.epochs in (k, None) or fin2 is not None and k == 0:
        a, c = opt_state(r, s), opt_state(r2, s2)
        if a is None or c is None:
            raise AnalysisError("the stored optimizer state is not understood")
        rep.ob("optimizer", tag, a == c, f"{desc}, but the stored optimizer state (parameters and moments) is not that of epoch {k}", where)
    if name in ("two-dips", "late-best", "decreasing"):
        thread(rep, tag, r, s, where)


def simulate(prog, ci, n, b, kind, ls, epochs, target, patience, delta, cb=None):
    kw = {"batch_size": const(b), "val_batch_size": const(0), "epochs": const(epochs), "target_loss": const(target),
          "early_stopping_patience": const(patience), "early_stopping_min_delta": const(delta)}
    r = Run(prog, ci, [(True, 1), (False, 1), (True, 1)], data("array", const(n)), kw, kind=kind, callback=cb, hooks={"user.CB": cb_hook})
    fin = {nm: r.outcome(nm)[0] for nm in ("params", "state", "rng")}
    if not r.alive or any(v is None for v in fin.values()):
        return r, None, None
    s = Sim(r, lambda k, j: float(ls[min(k, len(ls) - 1)]))
    for v in fin.values():
        for x in r.leaves_of(v):
            s.out(x)
    return r, s, fin


def opt_state(r, s):
    """(params, m, v) of every stored leaf"""
    out = []

    def go(x):
        if x.op in ("list", "tuple"):
            for y in x.args:
                go(y)
        elif x.op == "dict":
            for _, y in sorted(x.args[0], key=lambda kv: str(kv[0])):
                go(y)
        elif x.op == "inst" and isinstance(x.args[-1], tuple):
            d = {(k if isinstance(k, str) else k.args[0]): v for k, v in x.args[-1]}
            out.append(tuple(s.out(d[f]) if f in d else None for f in ("params", "m", "v")))
        else:
            out.append(None)
    go(r.optimizer())
    return None if not out or any(x is None or None in x for x in out) else out


def thread(rep, tag, r, s, where):
    steps, epochs = [], {}
    for kd, k, t in s.events:
        c, m = model_call(t)
        if m is None:
            raise AnalysisError("a loss evaluation is not understood")
        epochs.setdefault(k, {}).setdefault(kd, set()).add(c.args[1][0])
        if kd == "grad":
            steps.append((k, m))
    bad = []
    for (k0, a), (k1, c) in zip(steps, steps[1:]):
        if c.args[1][3] not in (s.tok(T("item", a, const(1))), T("item", a, const(1))):
            bad.append(f"a step of epoch {k1} starts from state {short(c.args[1][3])}")
    rngs = [m.args[1][4] for _, m in steps]
    if len(set(rngs)) != len(rngs):
        bad.append("two training steps use the same random key")
    rep.ob("thread", tag, not bad, "; ".join(bad[:3]), where)
    bad = []
    base = None
    for k, d in sorted(epochs.items()):
        v = set().union(*d.values())
        if len(v) != 1:
            bad.append(f"epoch {k} passes epoch numbers {sorted(map(short, v))}")
            continue
        x = next(iter(v))
        if not num(x):
            bad.append(f"epoch {k} passes {short(x)}")
        elif k >= 1:
            if base is None:
                base = x.args[0] - k
            if x.args[0] - k != base:
                bad.append(f"epoch {k} passes number {x.args[0]}")
    rep.ob("epoch", tag, not bad, "; ".join(bad[:3]), where)


def callback(prog, rep, ci):
    rep.rule("callback", "a user callback is called once per epoch, after its validation, with the current parameters; what it returns is what the next epoch starts from", 1)
    CB = T("ext", "user.CB")
    ls = [5, 4, 3, 2, 1]
    r, s, fin = simulate(prog, ci, 4, 2, "real", ls, 3, NINF, 9, 0.0, CB)
    tag = f"{ci.qual}.train/callback"
    if fin is None:
        rep.ob("callback", tag, False, "training with a callback raises", ci.module.name)
        return
    rep.saw(r.I)
    inv = {v: k for k, v in Sim.TOK.items()}
    bad = []
    for k in (2, 3):
        first = next((t for kd, kk, t in s.events if kd == "grad" and kk == k), None)
        prev = next((t for kd, kk, t in s.events if kd == "val" and kk == k - 1), None)
        if first is None or prev is None or model_call(first)[1] is None or model_call(prev)[1] is None:
            raise AnalysisError("the training step is not understood")
        got = r.leaves_of(model_call(first)[1].args[1][0])
        val = r.leaves_of(model_call(prev)[1].args[1][0])
        for j, (x, y) in enumerate(zip(got, val)):
            x = inv.get(x, x)
            if not (x.op == "call" and extname(x.args[0]) == "user.CBP"):
                bad.append(f"epoch {k} does not start from the parameters the callback returned (leaf {j}: {short(x)})")
            elif s.tok(x.args[1][0]) is not s.tok(y) or x.args[1][1] is not const(j):
                bad.append(f"the callback after epoch {k - 1} does not receive the parameters that epoch validated (leaf {j})")
    rep.ob("callback", tag, not bad, "; ".join(bad[:3]), ci.module.name)



def cb_hook(I, fn, args, kwargs, st, node):
    """a user callback that replaces every leaf"""
    cnt = [0]

    def go(x):
        if x.op in ("tuple", "list"):
            return T(x.op, *[go(y) for y in x.args])
        j = cnt[0]
        cnt[0] += 1
        base = x.args[0] if x.op == "arr" else x
        t = T("call", T("ext", "user.CBP"), (base, const(j)), ())
        return T("arr", t, x.args[1]) if x.op == "arr" else t
    p = I.snap(st, args[2])
    if p.op not in ("tuple", "list"):
        return None
    new = go(p)
    return T("tuple", T("call", T("ext", "user.CBR"), (I.snap(st, args[0]),), ()), I.new_list(st, list(new.args)) if new.op == "list" else new)
