"""P21: composite models evaluate their modules as composed.

Both kinds of composite model are constructed, compiled and turned into their
forward function for opaque modules: every module's compile / shape / forward
call is recorded as a term, and the model's result is compared with the term
the composition prescribes (chain order, or the listed connections)."""
from .common import *

SHAPE0 = 100


def tree(I, st, x, f, path=()):
    """build a container value from a python tree with leaves f(leaf, path)"""
    if isinstance(x, dict):
        return I.new_dict(st, [(const(k), tree(I, st, v, f, path + (k,))) for k, v in x.items()])
    if isinstance(x, list):
        return I.new_list(st, [tree(I, st, v, f, path + (str(i),)) for i, v in enumerate(x)])
    if isinstance(x, tuple):
        return T("tuple", *[tree(I, st, v, f, path + (str(i),)) for i, v in enumerate(x)])
    return f(x, path)


def paths(x, path=()):
    if isinstance(x, dict):
        return [p for k in x for p in paths(x[k], path + (k,))]
    if isinstance(x, (list, tuple)):
        return [p for i, v in enumerate(x) for p in paths(v, path + (str(i),))]
    return [path]


def pick(x, path):
    for k in path:
        x = x[int(k)] if isinstance(x, (list, tuple)) else x[k]
    return x


def mutable(x):
    if isinstance(x, dict):
        return {k: mutable(v) for k, v in x.items()}
    return [mutable(v) for v in x] if isinstance(x, (list, tuple)) else x


def untuple(t):
    """tuples and lists alike, dictionaries without order"""
    if t.op in ("tuple", "list"):
        return ("seq",) + tuple(untuple(x) for x in t.args)
    if t.op == "dict":
        return ("dict",) + tuple(sorted((k.args[0], untuple(v)) for k, v in t.args[0]))
    return t


GROUND = ("arr", "mod_out", "const", "tuple", "list", "dict", "sym")


def same(got, want):
    """got == want; not decided when got holds a value that was not resolved"""
    if got == want:
        return True

    def chk(x):
        if isinstance(x, T):
            odd = [y for y in walk(x) if y.op not in GROUND]
            if odd:
                raise AnalysisError(f"value {short(x)} is not understood")
        elif isinstance(x, tuple):
            for y in x[1:]:
                chk(y[1] if isinstance(y, tuple) and x[0] == "dict" else y)
    chk(got)
    return False


def show(x):
    if isinstance(x, T):
        if x.op == "arr":
            return show(x.args[0])
        if x.op == "mod_out":
            return ".".join(["output of " + x.args[0].args[0]] + list(x.args[1].args[0] and [x.args[1].args[0]] or []))
        return short(x)
    if x[0] == "seq":
        return "[" + ", ".join(show(y) for y in x[1:]) + "]"
    return "{" + ", ".join(f"{k}: {show(v)}" for k, v in x[1:]) + "}"


class Net:
    """one composite model over opaque modules

    mods: tree of module names; outs: {module name: tree of output leaves (python)}"""

    def __init__(self, prog, cls, mods, outs, din, extra=(), sep=".", kwargs=None, pstruct=0):
        self.prog, self.mods, self.outs, self.din = prog, mods, outs, din
        self.I = I = Interp(prog)
        self.st = st = State()
        I.carr = I.graph = True
        I.max_same = 12
        I.max_steps = 400000
        bm = prog.get_class("BaseModule")
        self.ref, self.inv = {}, {}
        self.calls, self.compiles, self.shapes = [], [], []
        self.path = {pick(mods, p): p for p in paths(mods)}
        for n in self.path:
            self.ref[n] = I.sym_instance(st, bm, "M_" + n)
            self.inv[self.ref[n]] = n
        me = lambda args, kwargs: self.inv.get(args[0] if args else kwargs.get("self"))

        def hook(name, f):
            I.hooks[method(prog, bm, name).qual] = f

        def h_call(I_, fn, args, kwargs, s, node):
            n = me(args, kwargs)
            return T("ext", f"user.{n}") if n else None

        def h_compile(I_, fn, args, kwargs, s, node):
            n = me(args, kwargs)
            a = {**dict(zip(("self", "rng", "input_shape"), args)), **kwargs}
            if not n or "rng" not in a or "input_shape" not in a:
                return None
            self.compiles.append((n, I.snap(s, a["rng"]), I.snap(s, a["input_shape"]), s.pc))
            return NONE

        def h_shape(I_, fn, args, kwargs, s, node):
            n = me(args, kwargs)
            if not n or len(args) + len(kwargs) < 2:
                return None
            x = I.snap(s, args[1] if len(args) > 1 else list(kwargs.values())[-1])
            self.shapes.append((n, x))
            return tree(I, s, self.outs[n], lambda _, p: T("tuple", self.dim(n, p)))
        hook("_get_callable", h_call)
        hook("compile", h_compile)
        hook("get_output_shape", h_shape)
        hook("is_ready", lambda *a: const(any(c[0] == me(a[2], a[3]) for c in self.compiles)))
        for n in self.path:
            I.hooks["user." + n] = self.forward(n)
        self.ci = next(c for c in model_classes(prog) if c.name == cls)
        M = tree(I, st, mods, lambda n, p: self.ref[n])
        c = I.get_attr(T("pkgmod", self.ci.module.name), cls, st, None)
        self.A = I.call(c, [M] + [f(I, st) for f in extra], kwargs or {}, st, None)

    def dim(self, n, p):
        k = sorted(self.path).index(n)
        return const(SHAPE0 + 10 * k + paths(self.outs[n]).index(p))

    def forward(self, n):
        def f(I, fn, args, kwargs, s, node):
            names = ("params", "data", "training", "state", "rng")
            a = {**dict(zip(names, args)), **kwargs}
            if set(a) != set(names):
                return None
            a = {k: I.snap(s, v) for k, v in a.items()}
            self.calls.append((n, a, s.pc))
            k = len([c for c in self.calls if c[0] == n])
            call = const(n if k == 1 else f"{n}#{k}")
            return T("tuple", tree(I, s, self.outs[n], lambda _, p: T("arr", T("mod_out", call, const(".".join(p))), T("tuple", const(5), self.dim(n, p)))),
                     self.pstate("t", n, "new"))
        return f

    def pstate(self, pre, n, tag=""):
        """params/state of a module: an array, a tuple or an empty tuple, by position"""
        k = sorted(self.path).index(n) % 3
        a = lambda j: T("arr", T("sym", f"{pre}{tag}_{n}{j}"), T("tuple", const(2)))
        if k == 0:
            return T("tuple", a(0), a(1))
        if k == 1:
            return T("tuple") if pre == "t" and not tag else T("tuple", a(0))
        return T("tuple", a(0))

    def data(self):
        return tree(self.I, self.st, self.din, lambda _, p: T("arr", T("mod_out", const("input"), const(".".join(p))), T("tuple", const(5), const(90 + paths(self.din).index(p)))))

    def inshape(self):
        return tree(self.I, self.st, self.din, lambda _, p: T("tuple", const(90 + paths(self.din).index(p))))

    def mods_tree(self, f):
        # NonSequentialModel keeps its modules in mutable containers
        return tree(self.I, self.st, mutable(self.mods) if self.ci.name == "NonSequentialModel" else self.mods, lambda n, p: f(n))


def value(net, spec, ish):
    """expected input of a module: spec is a tree of 'producer' or ('producer', path) strings"""
    I = net.I

    def leaf(x, _):
        if x is None:
            return NONE
        n, *p = x.split(":")
        src = net.din if n == "input" else net.outs[n]
        p = tuple(p)
        sub = pick(src, p)

        def mk(_, q):
            full = p + q
            d = const(90 + paths(net.din).index(full)) if n == "input" else net.dim(n, full)
            if ish:
                return T("tuple", d)
            return T("arr", T("mod_out", const(n), const(".".join(full))), T("tuple", const(5), d))
        return tree(I, net.st, sub, mk)
    return untuple(I.snap(net.st, tree(I, net.st, spec, leaf)))


class Strict:
    """a failing obligation counts only when every condition on the way was decided"""

    def __init__(self, rep, I):
        self.rep, self.I = rep, I

    def ob(self, rule, tag, ok, msg, where):
        if not ok and self.I.open_branches:
            raise AnalysisError(f"{tag}: not every condition is decided ({msg[:120]})")
        self.rep.ob(rule, tag, ok, msg, where)


def decide(net, rep, tag, where, ins, out, unused=()):
    """compile and evaluate; compare with the prescribed composition"""
    I, st = net.I, net.st
    rep = Strict(rep, I)
    R0 = T("arr", T("sym", "rng0"), T("tuple"))
    used = list(ins)
    mark = len(I.events)
    I.call_method(net.A, "compile", [R0, net.inshape()], {}, st, net.ci.node)
    ok = alive(st)
    rep.ob("accepts", tag + "/compile", ok, "compiling the model raises: " + why(I, mark), where)
    if not ok:
        return
    last = {}
    for n, r, s, pc in net.compiles:
        last.setdefault(n, []).append((r, s))
    for n in used:
        cs = last.get(n, [])
        if not cs:
            rep.ob("compile", f"{tag}/{n}", False, f"module '{n}' is never compiled", where)
            continue
        want = value(net, ins[n], True)
        got = untuple(cs[-1][1])
        rep.ob("compile", f"{tag}/{n}", same(got, want) and len(cs) == 1, f"module '{n}' is compiled for input shape {show(got)}; its inputs have shape {show(want)}" if got != want else f"module '{n}' is compiled {len(cs)} times", where)
    keys = {n: last[n][-1][0] for n in used if n in last}
    distinct(rep, "compile", tag + "/keys", keys, R0, "compiled with", where)
    osh = untuple(I.snap(st, I.get_attr(net.A, "output_shape", st, None)))
    want = value(net, out, True)
    rep.ob("compile", tag + "/output_shape", same(osh, want), f"the model's output shape is {show(osh)}; its output has shape {show(want)}", where)

    mark = len(I.events)
    f = I.call_method(net.A, "_get_callable", [], {}, st, net.ci.node)
    for TR in (TRUE, FALSE):
        evaluate(net, rep, f"{tag}/{'training' if TR is TRUE else 'inference'}", where, ins, out, f, TR, mark)


def evaluate(net, rep, tag, where, ins, out, f, TR, mark):
    I, st = net.I, net.st
    R = T("arr", T("sym", "rng"), T("tuple"))
    used = list(ins)
    del net.calls[:]
    P = net.mods_tree(lambda n: net.pstate("p", n))
    S = net.mods_tree(lambda n: net.pstate("t", n))
    D = net.data()
    pre = [I.snap(st, x) for x in (P, S, D)]
    r = I.call(f, [P, D, TR, S, R], {}, st, net.ci.node)
    ok = alive(st)
    rep.ob("accepts", tag + "/evaluate", ok, "evaluating the model raises: " + why(I, mark), where)
    if not ok:
        return
    r = I.snap(st, r)
    if r.op != "tuple" or len(r.args) != 2:
        raise AnalysisError(f"the forward function returns {short(r)}")
    got, want = untuple(r.args[0]), value(net, out, False)
    rep.ob("output", tag, same(got, want), f"the model returns {show(got)} instead of {show(want)}", where)
    for n in net.path:
        cs = [c for c in net.calls if c[0] == n]
        if n not in used:
            continue
        if len(cs) != 1:
            rep.ob("inputs", f"{tag}/{n}", False, f"module '{n}' is evaluated {len(cs)} times", where)
            continue
        a = cs[0][1]
        want = value(net, ins[n], False)
        g = untuple(a["data"])
        rep.ob("inputs", f"{tag}/{n}", same(g, want), f"module '{n}' is given {show(g)} instead of {show(want)}", where)
        wp, ws = I.snap(st, net.pstate("p", n)), I.snap(st, net.pstate("t", n))
        rep.ob("own", f"{tag}/{n}/params", same(untuple(a["params"]), untuple(wp)), f"module '{n}' is given the parameters {short(a['params'])}", where)
        rep.ob("own", f"{tag}/{n}/state", same(untuple(a["state"]), untuple(ws)), f"module '{n}' is given the state {short(a['state'])}", where)
        rep.ob("own", f"{tag}/{n}/training", a["training"] is TR, f"module '{n}' is given the mode flag {short(a['training'])}", where)
    distinct(rep, "own", tag + "/keys", {c[0]: c[1]["rng"] for c in net.calls if c[0] in used}, R, "evaluated with", where)
    ws = untuple(I.snap(st, net.mods_tree(lambda n: net.pstate("t", n, "new" if n in used else ""))))
    gs = untuple(r.args[1])
    if gs != ws:
        # a module that is not part of the evaluation may be evaluated for nothing
        alt = untuple(I.snap(st, net.mods_tree(lambda n: net.pstate("t", n, "new" if any(c[0] == n for c in net.calls) else ""))))
        ws = alt if gs == alt else ws
    rep.ob("state", tag, same(gs, ws), f"the new state is {show(gs)} instead of {show(ws)}", where)
    post = [I.snap(st, x) for x in (P, S, D)]
    for nm, x, y in zip(("params", "state", "data"), pre, post):
        rep.ob("caller", f"{tag}/{nm}", x is y, f"the caller's {nm} are modified: {short(y)}", where)


def why(I, mark):
    ev = [e for e in I.events[mark:] if e.kind in ("missingkey", "badindex", "raise", "zerodiv")]
    if not ev:
        return "no path completes"
    e = ev[-1]
    if e.kind == "missingkey":
        return f"no key {short(e.data['key'])} in {short(e.data['obj'])}"
    return f"{e.kind} " + ", ".join(short(v, 80) for v in e.data.values() if isinstance(v, T))


def distinct(rep, rule, tag, keys, root, verb, where):
    names = list(keys)
    bad = None
    for i, a in enumerate(names):
        if root not in walk(keys[a]):
            bad = f"module '{a}' is {verb} the key {short(keys[a])}, which does not derive from the model's"
        for b in names[i + 1:]:
            if keys[a] is keys[b]:
                bad = f"modules '{a}' and '{b}' are {verb} the same random key {short(keys[a])}"
    rep.ob(rule, tag, bad is None, bad or "", where)


# ---------------------------------------------------------------- sequential
SEQ = {
    "single": ["a"],
    "list": ["b", "a", "c"],
    "dict": {"x": "b", "y": "c", "z": "a"},
    "nested": {"u": ["b", {"v": "c"}], "w": ("a", "d")},
    "tuple": ("c", "b", "a"),
}
OUT = {"a": {"p": 0, "q": 0}, "b": [0, 0], "c": 0, "d": (0, {"r": 0})}

# -------------------------------------------------------------- connections
# name: (modules, connections, separator, model input tree, module outputs, inputs, output)
G = {
    "chain": (["b", "a", "c"], {"input": "0", "0": "1", "1": "2", "2": "output"}, ".", 0, {}, {"b": "input", "a": "b", "c": "a"}, "c"),
    "chain-reversed": ({"a": "a", "b": "b", "c": "c"}, {"a": "output", "b": ["a"], "c": ("b",), "input": "c"}, ".", 0, {}, {"c": "input", "b": "c", "a": "b"}, "a"),
    "nested": ({"k1": ["a", "b"], "k2": {"M": "c"}}, {"input": "k1.0", "k1.0": "k1.1", "k1.1": "k2.M", "k2.M": "output"}, ".", 0, {}, {"a": "input", "b": "a", "c": "b"}, "c"),
    "nested-tuple": ((("a", "b"), {"M": "c"}), {"input": "0.1", "0.1": "0.0", "0.0": "1.M", "1.M": "output"}, ".", 0, {}, {"b": "input", "a": "b", "c": "a"}, "c"),
    "diamond": ({"a": "a", "b": "b", "c": "c"}, {"input": ["a", "b"], "a": "c.0", "b": "c.1", "c": "output"}, ".", 0, {}, {"a": "input", "b": "input", "c": ["a", "b"]}, "c"),
    "crossed": ({"M1": "a", "M2": "b"}, {"input": "M1", "M1.p": "M2.1", "M1.q": "M2.0", "M2": "output"}, ".", 0, {"a": {"p": 0, "q": 0}}, {"a": "input", "b": ["a:q", "a:p"]}, "b"),
    "named-inputs": ({"M1": "a", "M2": "b"}, {"input": "M1", "M1.1": "M2.y", "M1.0": "M2.x.u", "M2": "output.r"}, ".", 0, {"a": [0, 0]}, {"a": "input", "b": {"x": {"u": "a:0"}, "y": "a:1"}}, {"r": "b"}),
    "pass-through": ({"M1": "a", "M2": "b"}, {"input.x1": "M1", "M1": "M2", "M2": "output.1", "input.x2": "output.0"}, ".", {"x1": 0, "x2": 0}, {}, {"a": "input:x1", "b": "a"}, ["input:x2", "b"]),
    "whole-subtree": ({"M1": "a", "M2": "b"}, {"input": "M1", "M1": "M2", "M2.k": "output"}, ".", [0, {"z": 0}], {"a": {"p": 0, "q": [0, 0]}, "b": {"k": [0, 0], "l": 0}}, {"a": "input", "b": "a"}, "b:k"),
    "fan-out": ({"M1": "a", "M2": "b", "M3": "c"}, {"input": "M1", "M1": ["M2", "M3"], "M2": "output.0", "M3": "output.1"}, ".", 0, {}, {"a": "input", "b": "a", "c": "a"}, ["b", "c"]),
    "implicit-inputs": ({"M1": "a", "M2": "b"}, {"input.0": "M1", "input.1": "M1", "input.2": "M2", "M1": "M2", "M2": "output"}, ".", [0, 0, 0], {}, {"a": ["input:0", "input:1"], "b": ["input:2", "a"]}, "b"),
    "implicit-outputs": ({"M1": "a", "M2": "b"}, {"input": ["M1", "M2"], "M1": "output", "M2": "output"}, ".", 0, {}, {"a": "input", "b": "input"}, ["a", "b"]),
    "implicit-deep": ({"M1": "a", "M2": "b"}, {"input": ["M1", "M2"], "M1": "output.0", "M2": "output.0"}, ".", 0, {}, {"a": "input", "b": "input"}, [["a", "b"]]),
    "implicit-partial": ({"M1": "a", "M2": "b"}, {"input": ["M1", "M2"], "M1": "output.1", "M2": "output"}, ".", 0, {}, {"a": "input", "b": "input"}, ["b", "a"]),
    "implicit-three": ({"M1": "a", "M2": "b", "M3": "c"}, {"input": ["M1", "M2", "M3"], "M1": "output.1", "M2": "output", "M3": "output"}, ".", 0, {}, {"a": "input", "b": "input", "c": "input"}, ["b", "a", "c"]),
    "skip": ({"z": "a", "y": "b", "x": "c", "w": "d"}, {"input": ["z", "w.0"], "z": ["y", "w.2"], "y": "x", "x": "w.1", "w": "output"}, ".", 0, {}, {"a": "input", "b": "a", "c": "b", "d": ["input", "c", "a"]}, "d"),
    "late-short-path": ({"a": "a", "b": "b", "c": "c", "d": "d"}, {"input": ["d.0", "a"], "a": ["d.1", "b"], "b": ["c"], "c": ["d.2", "output.1"], "d": "output.0"}, ".", 0, {}, {"a": "input", "b": "a", "c": "b", "d": ["input", "a", "c"]}, ["d", "c"]),
    "two-sources": ({"a": "a", "b": "b", "c": "c", "d": "d"}, {"input.l": "a", "input.r": "b", "a": ["c.0", "d.1"], "b": ["c.1", "d.0"], "c": "output.c", "d": "output.d"}, ".", {"l": 0, "r": 0}, {}, {"a": "input:l", "b": "input:r", "c": ["a", "b"], "d": ["b", "a"]}, {"c": "c", "d": "d"}),
    "unused": ({"a": "a", "b": "b", "c": "c"}, {"input": ["a"], "a": "output"}, ".", 0, {}, {"a": "input"}, "a"),
    "dead-end": ({"a": "a", "b": "b", "c": "c"}, {"input": ["a", "b"], "a": ["output", "c"]}, ".", 0, {}, {"a": "input"}, "a"),
    "prefix-names": ({"M1": "a", "M10": "b", "M": {"1": "c"}}, {"input": "M1", "M1.0": "M10.1", "M1.1": "M10.0", "M10": "M.1", "M.1": "output"}, ".", 0, {"a": [0, 0]}, {"a": "input", "b": ["a:1", "a:0"], "c": "b"}, "c"),
    "input-names": ({"input2": "a", "inputs": {"x": "b", "y": "c"}}, {"input": "input2", "input2": "inputs.x", "inputs.x": "inputs.y", "inputs.y": "output"}, ".", 0, {}, {"a": "input", "b": "a", "c": "b"}, "c"),
    "output-names": ({"output_head": "a", "outputs": {"x": "b"}, "c": "c"}, {"input": "c", "c": ["output_head", "outputs.x"], "output_head": "output.0", "outputs.x": "output.1"}, ".", 0, {}, {"c": "input", "a": "c", "b": "c"}, ["a", "b"]),
    "output-names-single": ({"output_head": "a", "c": "c"}, {"input": "c", "c": "output_head", "output_head": "output"}, ".", 0, {}, {"c": "input", "a": "c"}, "a"),
    "separator": ({"k.1": ["a", "b"], "k2": {"M": "c"}}, {"input/u": "k.1/0", "k.1/0/0": "k.1/1/1", "k.1/0/1": "k.1/1/0", "k.1/1": "k2/M", "k2/M": ["output/v/x", "output/w/1", "output/w/0/y.z"]}, "/", {"u": 0}, {"a": [0, 0]}, {"a": "input:u", "b": ["a:1", "a:0"], "c": "b"}, {"v": {"x": "c"}, "w": [{"y.z": "c"}, "c"]}),
    "twelve": ({"M": "a", "N": "b"}, {**{f"input.{i}": f"M.{i}" for i in (11, 0, 1, 2, 4, 5, 6, 7, 8, 9, 10)}, "input.3": "M", "M": "N.10.z", "input.12": "N.2", "N": "output"}, ".", [0] * 13, {}, {"a": [f"input:{i}" for i in range(12)], "b": [None, None, "input:12"] + [None] * 7 + [{"z": "a"}]}, "b"),
    "separator-inputs": ({"k": {"a": "a", "b": "b"}}, {"input::0::u.v": "k::a::x.1::0", "input::1": "k::a::x.1::1", "k::a": "k::b::l::m", "input::0": "k::b::r", "k::b::q": "output"}, "::", [{"u.v": 0, "t": 0}, 0], {"b": {"q": [0, 0]}}, {"a": {"x.1": ["input:0:u.v", "input:1"]}, "b": {"l": {"m": "a"}, "r": "input:0"}}, "b:q"),
    "many": ([["a", "b"], ["c", "d"]], {"input": ["0.0", "0.1"], "0.0": ["1.0.x", "1.1.x"], "0.1": ["1.0.y", "1.1.y"], "1.0": "output.0", "1.1": "output.1"}, ".", 0, {}, {"a": "input", "b": "input", "c": {"x": "a", "y": "b"}, "d": {"x": "a", "y": "b"}}, ["c", "d"]),
}

REJECT = {
    "cycle": ({"a": "a", "b": "b"}, {"input": "a.0", "a": "b", "b": ["a.1", "output"]}),
    "no-input": ({"a": "a"}, {"a": "output"}),
    "output-as-source": ({"a": "a"}, {"input": "a", "a": "output", "output": "a"}),
    "input-as-target": ({"a": "a"}, {"input": "a", "a": ["output", "input"]}),
    "unreachable-output": ({"a": "a", "b": "b"}, {"input": "a", "b": "output"}),
    "unknown-module": ({"a": "a"}, {"input": "zz", "zz": "output"}),
    "half-connected": ({"a": "a", "b": "b", "c": "c"}, {"input": "a", "a": "c.0", "b": "c.1", "c": "output"}),
    "reserved-name": ({"input": "a"}, {"input": "output"}),
    "reserved-name-output": ({"output": "a"}, {"input": "output"}),
}


def conv(c):
    return lambda I, st: tree(I, st, c, lambda x, p: const(x))


def run(prog, rep):
    rep.rule("accepts", "a valid composition compiles and evaluates without an error", 30)
    rep.rule("compile", "every module is compiled once, for the shape of the data it will be given, with a key of its own; the model's output shape is that of its output", 60)
    rep.rule("inputs", "every module is evaluated once, on exactly the outputs the composition routes to it", 60)
    rep.rule("own", "every module gets the parameters and state at its own position, the model's mode flag and a random key of its own", 100)
    rep.rule("output", "the model returns the outputs the composition routes to it", 25)
    rep.rule("state", "the new state holds each module's new state at that module's position", 25)
    rep.rule("caller", "evaluating does not modify the caller's parameters, state or data", 60)
    rep.rule("rejects", "connections that are no acyclic graph from the input to the output are rejected", 7)
    for kind, mods in SEQ.items():
        for din in ((0,) if rep.tier == "quick" else (0, [0, {"k": 0}])):
            with rep.unit(f"sequential/{kind}"):
                net = Net(prog, "SequentialModel", mods, OUT, din, kwargs={"rng": const(1)})
                order = [pick(mods, p) for p in paths(mods)]
                ins = {n: ("input" if i == 0 else order[i - 1]) for i, n in enumerate(order)}
                decide(net, rep, f"sequential/{kind}", net.ci.module.name, ins, order[-1])
                rep.saw(net.I)
    for kind, (mods, conn, sep, din, outs, ins, out) in G.items():
        with rep.unit(f"connections/{kind}"):
            net = Net(prog, "NonSequentialModel", mods, {**dict.fromkeys("abcd", 0), **outs}, din, [conv(conn)], kwargs={"rng": const(1), "separator": const(sep)})
            decide(net, rep, f"connections/{kind}", net.ci.module.name, ins, out)
            rep.saw(net.I)
    for kind, (mods, conn) in REJECT.items():
        with rep.unit(f"rejects/{kind}"):
            net = Net(prog, "NonSequentialModel", mods, dict.fromkeys("abcd", 0), 0, [conv(conn)], kwargs={"rng": const(1)})
            if alive(net.st):
                net.I.call_method(net.A, "compile", [T("arr", T("sym", "rng0"), T("tuple")), net.inshape()], {}, net.st, net.ci.node)
            Strict(rep, net.I).ob("rejects", kind, not alive(net.st), f"connections {conn} over modules {mods} are accepted", net.ci.module.name)
            rep.saw(net.I)
