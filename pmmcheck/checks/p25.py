"""P25: seeds and keys decide every random choice.

Constructors, compile and train of every model class are evaluated with an
integer seed (zero included), a key, and nothing.  With a seed or key no value
produced may stem from an ambient source (global generators, clock, object
addresses), an integer s must act as the key of s, and without a seed a fresh
ambient draw has to enter.  Training compiles a model exactly when it is not
ready.  Modules are compiled and evaluated in the array domain and must not call
an ambient source at all."""
from .ndutil import *
from .common import *
from .trainutil import Run, noarr
from . import p13, p14
from .p17 import show

AMBIENT = ("random.", "numpy.random.", "time.", "secrets.", "os.urandom", "os.getpid", "datetime.", "builtins.id", "builtins.hash", "uuid.")
DRAWS = ("random.", "numpy.random.", "secrets.", "os.urandom")      # calling one is a random choice of its own
RULES = {
    "seeded": "an integer seed s, zero included, has exactly the effect of the key of s",
    "closed": "with a seed or key given, no value that is produced stems from a global generator, the clock or an object address",
    "used": "the key given reaches the keys handed on",
    "fresh": "without a seed a new ambient draw decides",
    "compiles": "training a model that is not ready compiles it once, from the initialisation seed and for the feature shapes of the data; training a ready model never compiles it",
    "modules": "compiling or evaluating a module with a given key draws from no other generator, and with no key made from the clock, an address or a hash",
}
S = Shape
R = T("arr", T("sym", "R"), T("tuple"))
K = T("arr", T("sym", "K"), T("tuple"))


def isamb(name):
    return name is not None and name.startswith(AMBIENT)


def ambient(t):
    return contains(t, lambda x: x.op == "call" and isamb(extname(x.args[0])))


def key(x):
    return T("call", T("ext", "jax.random.key"), (x,), ())


def unkey(t):
    """PRNGKey / key with explicit defaults -> key"""
    return rewrite(t, lambda x: key(x.args[1][0]) if x.op == "call" and extname(x.args[0]) == "jax.random.key" and x.args[1] else x)


def iskey(t, r=R):
    """t under the assumption that r is a key (neither None nor an integer)"""
    def v(x):
        if x.op in ("isinst", "is") and x.args[0] in (r, K):
            return False
        return None
    return assume(t, v)


GIVEN = [("seed 0", const(0)), ("seed 5", const(5)), ("key", R), ("none", NONE)]


def judge(rep, tag, got, where):
    """got: {name of the given rng: snapped term of everything it decides}"""
    k, RR = noarr(iskey(got["key"])), noarr(R)
    rep.ob("used", tag, contains(k, lambda x: x is RR), f"the given key does not enter {short(k)}", where)
    for n, r in GIVEN[:3]:
        t = k if r is R else noarr(iskey(got[n]))
        rep.ob("closed", f"{tag}/{n}", not ambient(t), f"with {n} the result is {short(t)}", where)
        if r is not R:
            w = rewrite(k, lambda x: key(r) if x is RR else x)
            rep.ob("seeded", f"{tag}/{n}", unkey(t) is unkey(w), f"with {n} the result is {short(t)}, with a key R it is {short(k)}", where)
    rep.ob("fresh", tag, ambient(got["none"]), f"without a seed the result is {short(got['none'])}", where)


def run(prog, rep):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    for ci in model_classes(prog):
        where = ci.module.name
        # --- constructor
        init = prog.find(ci, "__init__")
        if init and "rng" in params_of(init[1]):
            with rep.unit(f"{ci.qual}.__init__"):
                got = {}
                for n, r in GIVEN:
                    I, st = Interp(prog), State()
                    A = I.instantiate(I.cls_term(ci), [], {"rng": r}, st, ci.node)
                    got[n] = I.snap(st, I.get_attr(A, "rng", st, ci.node))
                    rep.saw(I)
                judge(rep, f"{ci.qual}(rng=...)", got, where)
    compiling(prog, rep)
    training(prog, rep)
    modules(prog, rep)


def params_of(f):
    a = f.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


def compiling(prog, rep):
    """the draws made when compiling models of real modules"""
    names = {c.name: c for c in model_classes(prog)}
    B = Inst("Bias")
    rows = [(c, (), kw, sh) for c, kw, sh, _ in p13.table(rep.tier) if c in names]
    rows += [(c, (mods,), {}, sh) for c, mods, sh in p13.models(rep.tier)]
    rows += [("NonSequentialModel", (m, c), {}, S(2)) for m, c in
             (({"a": B, "b": B, "c": B}, {"input": ["a", "b"], "a": "c", "c": "output.x", "b": "output.y"}),
              ({"a": [B, {"p": B}], "b": Inst("SequentialModel", [B, B])}, {"input": "a.0", "a.0": "a.1.p", "a.1.p": "b", "b": "output"}))]
    rows += [("NonSequentialModel", mc, {}, sh) for mc, sh in p14.graphs(rep.tier)]
    for cls, args, kw, shape in rows:
        if cls not in names:
            continue
        tag, where = f"{cls}({', '.join([show(a) for a in args] + [f'{k}={show(v)}' for k, v in kw.items()])}) on {show(shape)}", prog.rel(names[cls].module.path)
        with rep.unit(tag):
            got = {}
            for n, r in GIVEN:
                m = Mod(prog, cls, args, hooks=p14.HOOKS, **kw)
                try:
                    m.compile(shape, R if r is R else r)
                except Raised as e:
                    raise AnalysisError(f"compile with {n} raises: {e}")
                finally:
                    rep.saw(m.I)
                if r is not R:
                    m.open()
                got[n] = T("tuple", *[T("tuple", const(e.data["fn"]), e.data["key"], *map(const, e.data["shape"])) for e in m.I.events if e.kind == "draw"])
            if not got["key"].args and not any(g.args for g in got.values()):
                continue
            judge(rep, f"compile {tag}", got, where)


# ------------------------------------------------------------------ training
def everything(r):
    """all values a training run produces: loop slots, parameters, state, rng, optimizer"""
    I, st = r.I, r.st
    out = []
    for l in sorted(I.loops, key=str):
        for s, (a, b) in sorted(I.loops[l]["slots"].items(), key=lambda kv: str(kv[0])):
            out += [I.snap(st, a), I.snap(st, b)]
    for n in ("params", "state", "rng"):
        v, _ = r.outcome(n)
        out.append(v if v is not None else NONE)
    out.append(r.optimizer())
    return T("tuple", *out)


def training(prog, rep):
    ci = prog.get_class("SequentialModel")
    where = ci.module.name
    X = T("arr", T("sym", "X"), T("tuple", const(5), const(3)))
    for kind in ("real", "complex"):
        with rep.unit(f"train/{kind}"):
            got = {}
            for n, r in GIVEN:
                run_ = Run(prog, ci, [(True, 1), (True, 1)], {"X": X}, {"batch_size": const(2), "batch_rng": r}, kind=kind, hooks={method(prog, ci, "get_rng").qual: lambda *a: K})
                rep.saw(run_.I)
                if not run_.alive:
                    raise AnalysisError(f"training with {n} raises")
                got[n] = everything(run_)
            judge(rep, f"{ci.qual}.train(batch_rng=...)/{kind}", got, where)
    for ci in model_classes(prog):
        where = ci.module.name
        f = method(prog, ci, "train")
        for ready in (False, True):
            for shape in ("array", "tree"):
                with rep.unit(f"{ci.qual}.train/compile/{ready}/{shape}"):
                    got = {}
                    for n, r in GIVEN:
                        I, st = Interp(prog), State()
                        I.hooks[method(prog, ci, "is_ready").qual] = lambda I_, *a: const(ready)
                        for m in ("_get_callable", "get_params", "get_state", "get_rng", "set_rng", "set_state", "set_params", "compile", "_verify_input", "get_trainable_modules"):
                            I.opaque.add(method(prog, ci, m).qual)
                        I.opaque |= {"parametricmatrixmodels.training:train", "parametricmatrixmodels.training:make_loss_fn"}
                        A = I.sym_instance(st, ci, "A", {"modules": I.new_list(st, leafsyms("m", 3))})
                        d = X if shape == "array" else T("tuple", X, T("arr", T("sym", "Xb"), T("tuple", const(5), const(2), const(4))))
                        want = T("tuple", const(3)) if shape == "array" else T("tuple", T("tuple", const(3)), T("tuple", const(2), const(4)))
                        I.call_method(A, "train", [d], {"initialization_seed": r, "verbose": FALSE}, st, ci.node)
                        rep.saw(I)
                        q = method(prog, ci, "compile").qual
                        ev = [e for e in I.events if e.kind == "call" and extname(e.data["fn"]) == q]
                        tag = f"{ci.qual}.train/{'ready' if ready else 'not ready'}/{shape}/{n}"
                        if ready:
                            rep.ob("compiles", tag, not ev, "a ready model is compiled again", where)
                            continue
                        tr = [e for e in I.events if e.kind == "call" and extname(e.data["fn"]) == "parametricmatrixmodels.training:train"]
                        if len(ev) != 1:
                            rep.ob("compiles", tag, False, f"a model that is not ready is compiled {len(ev)} times", where)
                            continue
                        if not tr or not alive(st):
                            raise AnalysisError("training of an opaque model is not followed")
                        c = ev[0].data["result"]
                        p = bound(c, method(prog, ci, "compile"))
                        rep.ob("compiles", tag, p.get("input_shape") is want and ev[0].seq < tr[0].seq,
                               f"compiled for {short(p.get('input_shape'))} instead of {short(want)}" if p.get("input_shape") is not want else "compiled after training", where)
                        g = p.get("rng")
                        if g is None:
                            raise AnalysisError("key of the compile call not found")
                        g = iskey(g) if r is R else g
                        # compile accepts seeds, keys and None itself
                        ok = {"key": g is R, "none": g is NONE or ambient(g)}.get(n, unkey(g) in (r, key(r)))
                        rep.ob("seeded" if n.startswith("seed") else "used" if n == "key" else "fresh", f"{tag}: initialisation", ok, f"the model is compiled with {short(g)}", where)


def bound(c, f):
    """parameter name -> value of an opaque method call"""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = dict(c.args[2])
    pos = list(c.args[1])
    if "self" in out or (pos and names and len(pos) < len(names)):
        names = names[1:] if "self" in out else names
    out.update(zip(names, pos))
    return out


# ------------------------------------------------------------------- modules
def modules(prog, rep):
    names = {c.name: c for c in concrete_modules(prog)}
    for row in p14.table(rep.tier):
        cls, args, kw, shape = row[0], row[1], row[2], row[3]
        if cls not in names:
            continue
        tag, where = f"{cls}({', '.join([show(a) for a in args] + [f'{k}={show(v)}' for k, v in kw.items()])}) on {show(shape)}", prog.rel(names[cls].module.path)
        with rep.unit(tag):
            m = None
            try:
                m = Mod(prog, cls, args, hooks=p14.HOOKS, **kw)
                m.compile(shape)
                k = itertools.count()
                m.forward(m.params(), tmap(lambda s: fresh(f"x{next(k)}", (2,) + s.d), shape))
            except Raised:
                pass
            finally:
                if m is not None:
                    rep.saw(m.I)
                    bad = sorted({"calls " + extname(e.data["fn"]) for e in m.I.events if e.kind == "call" and (extname(e.data["fn"]) or "").startswith(DRAWS)}
                                 | {f"draws with the key {short(e.data['key'])}" for e in m.I.events if e.kind == "draw" and ambient(e.data["key"])})
                    rep.ob("modules", tag, not bad, "; ".join(bad), where)
