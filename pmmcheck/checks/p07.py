"""P07: training changes exactly the trainable parameters, each with its own
gradient.

Model.train is evaluated end to end on symbolic models whose modules have a
known number of parameter leaves and a fixed trainable flag (trainutil).  For
every frozen leaf the parameters handed back to the model, and the parameters
in the stored optimizer state, must resolve to the leaf's initial value.  For
every trainable leaf, every loss gradient that training takes must reach the
leaf's parameters, and only the component of that gradient that belongs to
this leaf's position in the parameter tree may."""
from .trainutil import *

PLANS = {
    "all": [(True, 1), (True, 2)],
    "first-frozen": [(False, 1), (True, 2)],
    "middle-frozen": [(True, 1), (False, 2), (True, 1)],
    "last-frozen": [(True, 2), (False, 1)],
    "bare-leaves": [(False, -1), (True, -1)],
    "no-params": [(True, 0), (False, 1), (True, 1), (False, 0)],
    "one": [(True, 1)],
    "none": [(False, 1), (False, 1)],
    "nested-frozen": [(True, 1), [(False, 1), (True, 2)], (True, -1)],
    "named": {"b": (True, 1), "c": (False, 1), "a": (False, 2)},
    "named-nested": {"z": {"b": (False, 1), "a": (True, 1)}, "y": (True, -1)},
    "nested-deep": [[[(True, 1), (False, 1)], (False, 2)], (True, 1)],
}


def base_args(t):
    return [y for y in walk(t) if y.op == "gradof"]


def model_calls(t):
    """calls of the model's evaluation function inside t"""
    return [y for y in walk(t) if y.op == "call" and y.args[0].op == "call" and (extname(y.args[0].args[0]) or "").endswith("._get_callable")]


def owner_map(r, G):
    """component of the gradient G -> leaf position in the model's parameter tree; error text"""
    nums = G.args[1]
    nums = [x.args[0] for x in nums.args] if isinstance(nums, T) and nums.op in ("list", "tuple") else [nums.args[0] if isinstance(nums, T) else nums]
    cs = set(model_calls(G.args[2]))
    if len(cs) != 1:
        return None, f"the differentiated loss evaluates the model {len(cs)} times"
    c = next(iter(cs))
    tree = c.args[1][0] if c.args[1] else None
    if tree is None:
        return None, "the model is evaluated without parameters"
    ls = r.leaves_of(tree)
    if len(ls) != len(r.leaves):
        return None, f"the model is evaluated with {len(ls)} parameter leaves instead of {len(r.leaves)}"
    for j, l in enumerate(ls):
        o = r.origin(l)
        if o is not start(r, j):
            return None, f"parameter leaf {j} of the evaluated model starts from {short(o)}"
    own = {}
    for k, n in enumerate(nums):
        a = G.args[3][n] if isinstance(n, int) and n < len(G.args[3]) else None
        js = [j for j, l in enumerate(ls) if l is a]
        if len(js) != 1:
            return None, f"component {k} differentiates an argument that is not a parameter leaf"
        own[k] = js[0]
    return own, None


def start(r, j):
    return T("sym", f"op{j}" if r.opt is not None else f"p{j}")


def grads(r):
    return sorted({y for l, s in r.varying() for y in walk(r.step(l, s)) if y.op == "gradof"}, key=lambda y: y.sid)


def param_slots(r, j):
    return [(l, s) for l, s in r.varying() if r.origin(T("loopvar", l, s)) is start(r, j)]


def run(prog, rep):
    rep.rule("frozen", "after training, the parameters of a frozen module (and those in the stored optimizer state) are its initial parameters, for every number of epochs, batches and gradient value", 20)
    rep.rule("own-gradient", "the parameters of a leaf are changed only by the gradient component of its own position in the parameter tree", 20)
    rep.rule("trained", "every gradient of the training loss reaches the parameters of every trainable leaf, and trainable leaves come back trained", 20)
    rep.rule("structure", "trained parameters come back in the model's own tree structure, every leaf at its position", 8)
    rep.rule("flag", "trainable flags are read from the module they belong to, at every nesting level, and freezing one module leaves the others alone", 6)
    from . import frozen
    rep.rule("marked", frozen.RULE, 100)
    frozen.run(prog, rep)
    both = [prog.get_class("SequentialModel"), prog.get_class("NonSequentialModel")]
    for ci in both if rep.tier == "quick" else model_classes(prog):
        for name, plan in PLANS.items():
            for kind in ("real", "mixed"):
                for resume in (False, True):
                    one(prog, rep, ci, name, plan, kind, resume)
        for o, kw in (("fwd", {"fwd": TRUE}), ("verbose", {"verbose": TRUE}), ("no-batch", {"batch_size": NONE})):
            one(prog, rep, ci, "middle-frozen", PLANS["middle-frozen"], "real", False, o, kw)
        one(prog, rep, ci, "middle-frozen", PLANS["middle-frozen"], "real", False, "unsupervised", {}, std_data(unc=False, y=False))
        one(prog, rep, ci, "middle-frozen", PLANS["middle-frozen"], "real", False, "no-unc", {}, std_data(unc=False))
    flags(prog, rep)


def one(prog, rep, ci, name, plan, kind, resume, opt="", kw=None, data=None):
    with rep.unit(f"{ci.qual}.train/{name}/{kind}/{resume}/{opt}"):
        one_(prog, rep, ci, name, plan, kind, resume, opt, kw, data)


def one_(prog, rep, ci, name, plan, kind, resume, opt, kw, data):
    r = Run(prog, ci, plan, data or std_data(), {"batch_size": T("sym", "B"), **(kw or {})}, kind=kind, resume=resume)
    rep.saw(r.I)
    tag = f"{ci.qual}.train/{name}/{kind}{'/resume' if resume else ''}{'/' + opt if opt else ''}"
    where = ci.module.name
    v, _ = r.outcome("params")
    if v is None or not r.alive:
        rep.ob("structure", tag, False, "training does not store parameters in the model", where)
        return
    ls = r.leaves_of(v)
    want = shape_of(plan)
    got = skel(v)
    rep.ob("structure", tag, got == want, f"the stored parameters have structure {got} instead of {want}", where)
    if len(ls) != len(r.leaves):
        return
    os_ = opt_params(r)
    gs = grads(r)
    maps = {}
    for i, G in enumerate(gs):
        own, err = owner_map(r, G)
        rep.ob("own-gradient", f"{tag}/loss{i}", err is None, err or "", where)
        if err is None:
            maps[G] = own
    for j, tr in enumerate(r.flags):
        fin = r.resolve(ls[j])
        if not tr:
            rep.ob("frozen", f"{tag}/leaf{j}", fin is start(r, j), f"a frozen leaf becomes {short(fin)}", where)
            if os_ is not None and j < len(os_):
                rep.ob("frozen", f"{tag}/opt{j}", r.resolve(os_[j]) is start(r, j), f"the optimizer state of a frozen leaf holds {short(r.resolve(os_[j]))}", where)
            continue
        slots = param_slots(r, j)
        used = {}
        bad = []
        for l, s in slots:
            for y in vwalk(r.step(l, s)):
                if y.op == "item" and y.args[0].op == "gradof" and y.args[1].op == "const":
                    own = maps.get(y.args[0])
                    if own is None:
                        continue
                    if own.get(y.args[1].args[0]) != j:
                        bad.append(f"slot {l}:{s} is updated with the gradient of leaf {own.get(y.args[1].args[0])}")
                    else:
                        used[y.args[0]] = True
        rep.ob("own-gradient", f"{tag}/leaf{j}", not bad, "; ".join(sorted(set(bad))), where)
        miss = [i for i, G in enumerate(gs) if G in maps and G not in used]
        ok = bool(slots) and bool(gs) and not miss and fin.op in ("loopout", "ite") or contains(fin, lambda y: y.op == "loopout" and (y.args[0], y.args[1]) in slots)
        ok = ok and not miss
        rep.ob("trained", f"{tag}/leaf{j}", ok, f"gradients {miss} do not reach leaf {j}" if miss else f"the parameters handed back are {short(fin)}", where)


def vwalk(t):
    """sub-terms whose value flows into t (not branch conditions, not the arguments of gradients)"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "gradof":
            continue
        stack.extend(x.args[1:] if x.op == "ite" else children(x))


def opt_params(r):
    o = r.optimizer()
    out = []

    def go(x):
        if x.op in ("list", "tuple"):
            for y in x.args:
                go(y)
        elif x.op == "dict":
            for _, y in sorted(x.args[0], key=lambda kv: str(kv[0])):
                go(y)
        else:
            out.append(item_attr(x))
    go(o)
    return out if all(x is not None for x in out) else None


def item_attr(x):
    if x.op == "inst":
        for k, v in x.args[-1] if isinstance(x.args[-1], tuple) else ():
            if k == "params" or k is const("params"):
                return v
    return None


def shape_of(plan):
    if isinstance(plan, dict):
        return {k: shape_of(plan[k]) for k in plan}
    if isinstance(plan, list):
        return [shape_of(p) for p in plan]
    return "*" if plan[1] == -1 else ["*"] * plan[1]


def skel(t):
    if t.op in ("list", "tuple"):
        return [skel(x) for x in t.args]
    if t.op == "dict":
        return {k.args[0] if k.op == "const" else k: skel(v) for k, v in t.args[0]}
    if t is NONE:
        return None
    return "*"


# ------------------------------------------------------------------- flags
def flags(prog, rep):
    base = prog.get_class("BaseModule")
    for ci in model_classes(prog):
        seq = prog.get_class("SequentialModel")
        # set the flag of one module through the public property, read it for all
        for tgt in range(3):
            for val in (True, False):
                I = Interp(prog)
                st = State()
                ms = [I.sym_instance(st, base, f"$m{i}", {"_BaseModule__trainable": T("sym", f"f{i}")}) for i in range(3)]
                inner = I.sym_instance(st, seq, "$in", {"modules": I.new_list(st, [ms[1], ms[2]])})
                A = I.sym_instance(st, ci, "A", {"modules": I.new_list(st, [ms[0], inner])})
                I.set_attr(ms[tgt], "trainable", const(val), st, ci.node)
                got = [I.snap(st, I.get_attr(m, "trainable", st, ci.node)) for m in ms]
                want = [const(val) if i == tgt else T("sym", f"f{i}") for i in range(3)]
                rep.saw(I)
                rep.ob("flag", f"{ci.qual}.module-{tgt}/{val}", got == want and alive(st), f"after setting trainable of module {tgt} the flags read {[short(x) for x in got]}", ci.module.name)
