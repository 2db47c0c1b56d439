"""Model.train evaluated end to end on a symbolic model (shared by P07, P10,
P11, P24).

The modules are opaque (their get_params returns known array leaves), data are
arrays with a symbolic or constant number of samples, the loss is an opaque
user function.  The three nested lax loops become `loopvar`/`loopout` slots
with recorded initial and step values; `resolve` eliminates slots that no
iteration changes (greatest fixpoint over all slots)."""
from .common import *

LOSS, VLOSS = T("ext", "user.LOSS"), T("ext", "user.VLOSS")


def arr(name, n, *rest):
    return T("arr", T("sym", name), T("tuple", n, *[const(r) for r in rest or (3,)]))


def noarr(t):
    return rewrite(t, lambda x: x.args[0] if x.op == "arr" else x)


class Run:
    """one abstract run of Model.train"""

    def __init__(self, prog, ci, plan, data=None, kw=None, kind="real", resume=False, callback=None, hooks=None):
        """plan: nested list of (trainable, nleaves) / lists (nested models)
        kind: real | complex | mixed (leaf 0 complex)"""
        self.prog, self.ci = prog, ci
        I = self.I = Interp(prog, max_steps=2000000)
        I.max_same = 6
        st = self.st = State()
        base = prog.get_class("BaseModule")
        seq = prog.get_class("SequentialModel")
        self.leaves, self.flags = [], []
        self.params_of = {}
        self.nmod = 0

        def mk(p):
            if isinstance(p, dict):
                ds = {k: mk(p[k]) for k in sorted(p)}
                return I.new_dict(st, [(const(k), ds[k]) for k in p])
            if isinstance(p, list):
                ms = [mk(x) for x in p]
                return I.sym_instance(st, seq, f"$n{self.nmod}", {"modules": I.new_list(st, ms)})
            tr, n = p
            i = self.nmod
            self.nmod += 1
            ls = []
            for k in range(n if n >= 0 else -n):
                j = len(self.leaves)
                ls.append(T("arr", T("sym", f"p{j}"), T("sym", f"shp{j}")))
                self.leaves.append(ls[-1])
                self.flags.append(tr)
            m = I.sym_instance(st, base, f"$m{i}", {"_BaseModule__trainable": const(tr)})
            self.params_of[m] = ls[0] if n == -1 else ls
            return m
        fields = {"modules": I.new_list(st, [mk(p) for p in plan]) if isinstance(plan, list) else mk(plan)}
        self.opt = None
        A = self.A = I.sym_instance(st, ci, "A", fields)

        def get_params(I_, fn, args, kwargs, s, node):
            m = args[0]
            v = self.params_of.get(m)
            if v is None:
                return T("call", T("attr", m, "get_params"), (), ())
            if isinstance(v, T):
                return v
            return T("tuple", *v)
        I.hooks[prog.find(base, "get_params")[1].qual] = get_params
        # one optimizer state per leaf, in the structure of the parameters
        if resume:
            osc = prog.get_class("OptimizerState")
            cnt = [0]

            def tree(p):
                if isinstance(p, dict):
                    ds = {k: tree(p[k]) for k in sorted(p)}
                    return I.new_dict(st, [(const(k), ds[k]) for k in p])
                if isinstance(p, list):
                    return I.new_list(st, [tree(x) for x in p])
                n = p[1]
                out = []
                for _ in range(abs(n)):
                    j = cnt[0]
                    cnt[0] += 1
                    out.append(I.alloc(st, self._os(osc, j)))
                return out[0] if n == -1 else T("tuple", *out)
            self.opt = tree(plan)
            I.set_attr(A, "_optimizer_state", self.opt, st, ci.node)
        else:
            I.set_attr(A, "_optimizer_state", NONE, st, ci.node)
        H = lambda n: method(prog, ci, n).qual
        I.hooks[H("is_ready")] = lambda *a: TRUE
        for m in ("_verify_input", "_get_callable", "get_state", "get_rng", "set_params", "set_state", "set_rng"):
            I.opaque.add(H(m))

        def iscomplex(I_, fn, args, kwargs, s, node):
            if kind != "mixed":
                return const(kind == "complex")
            # mixed: only leaf 0 is complex (every value of a leaf keeps its shape symbol)
            return const(contains(args[0], lambda y: y.op == "sym" and y.args[0] in ("p0", "shp0", "op0")))
        I.hooks["jax.numpy.iscomplexobj"] = iscomplex
        I.hooks.update(hooks or {})
        self.kw = dict(kw or {})
        data = dict(data or {})
        X = data.pop("X")
        args = {"loss_fn": LOSS, "verbose": FALSE, "batch_rng": T("sym", "brng"), **data, **self.kw}
        if callback is not None:
            args["callback"] = callback
        if resume:
            args["resume"] = TRUE
        self.v = I.call_method(A, "train", [X], args, st, ci.node)
        self.alive = alive(st)
        self._res = None

    @staticmethod
    def _os(osc, j):
        from ..interp import HObj
        a = lambda n: T("arr", T("sym", f"{n}{j}"), T("sym", f"shp{j}"))
        return HObj("inst", cls=osc, fields={"params": a("op"), "m": a("om"), "v": a("ov"), "epoch": T("sym", f"oe{j}")}, name=f"os{j}")

    # ------------------------------------------------------------ outcomes
    def outcome(self, name):
        """argument of the last self.set_<name>(...) call on the model, and how often it is called"""
        q = method(self.prog, self.ci, "set_" + name).qual
        ev = [e for e in self.I.events if e.kind == "call" and extname(e.data["fn"]) == q]
        ev = [e for e in ev if e.data["result"].op == "call" and dict(e.data["result"].args[2]).get("self") is T("sym", "A")]
        vals = [v for e in ev for k, v in e.data["result"].args[2] if k != "self"] + [v for e in ev for v in e.data["result"].args[1]]
        return vals[-1] if vals else None, ev

    def optimizer(self):
        return self.I.snap(self.st, self.I.get_attr(self.A, "_optimizer_state", self.st, self.ci.node))

    def leaves_of(self, t):
        """leaves of a snapped tree of arrays (containers: list/tuple/dict)"""
        out = []

        def go(x):
            if x.op in ("list", "tuple"):
                for y in x.args:
                    go(y)
            elif x.op == "dict":
                for k, y in sorted(x.args[0], key=lambda kv: str(kv[0])):
                    go(y)
            elif x is not NONE:
                out.append(x)
        go(t)
        return out

    def params_tree(self):
        return self.I.snap(self.st, self.I.call_method(self.A, "get_params", [], {}, self.st, self.ci.node))

    # ----------------------------------------------------- invariant slots
    def origin(self, t):
        """t with every loop variable replaced by its initial value (transitively)"""
        self.invariants()
        t = noarr(t)
        m = {T(o, l, k): v[0] for (l, k), v in self.slots.items() for o in ("loopvar", "loopout")}
        return self._fix(t, m)

    def invariants(self):
        if self._res is not None:
            return self._res
        slots = {(l, s): (noarr(self.I.snap(self.st, a)), noarr(self.I.snap(self.st, b))) for l, i in self.I.loops.items() for s, (a, b) in i["slots"].items()}
        S = set(slots)
        while True:
            m = {}
            for l, s in S:
                m[T("loopvar", l, s)] = slots[l, s][0]
                m[T("loopout", l, s)] = slots[l, s][0]
            drop = set()
            for k in S:
                a, b = (self._fix(x, m) for x in slots[k])
                if a is not b:
                    drop.add(k)
            if not drop:
                break
            S -= drop
        self._res = {T(o, l, s): slots[l, s][0] for l, s in S for o in ("loopvar", "loopout")}
        self.slots = slots
        return self._res

    @staticmethod
    def _fix(t, m):
        for _ in range(20):
            u = subst(t, m)
            if u is t:
                break
            t = u
        return t

    def resolve(self, t):
        return self._fix(noarr(t), self.invariants())

    def step(self, l, s):
        self.invariants()
        return self.resolve(self.slots[l, s][1])

    def init(self, l, s):
        self.invariants()
        return self.resolve(self.slots[l, s][0])

    def varying(self):
        inv = self.invariants()
        return {(l, s): v for (l, s), v in self.slots.items() if T("loopvar", l, s) not in inv}


def std_data(n=None, unc=True, y=True):
    N = n if n is not None else T("sym", "N")
    d = {"X": arr("X", N)}
    if y:
        d["Y"] = arr("Y", N, 2)
    if unc:
        d["Y_unc"] = arr("U", N, 2)
    return d


# ------------------------------------------------------- loop transfer tables
INF = float("inf")
_FOLD = {"jax.numpy.float32", "jax.numpy.float64", "jax.numpy.int32", "jax.numpy.int64", "jax.numpy.asarray", "jax.numpy.array",
         "builtins.float", "builtins.int", "numpy.float32", "numpy.float64", "jax.numpy.float_", "jax.lax.stop_gradient"}
_FUN = {"jax.numpy.minimum": min, "jax.numpy.maximum": max, "jax.numpy.logical_and": lambda a, b: bool(a) and bool(b),
        "jax.numpy.logical_or": lambda a, b: bool(a) or bool(b), "jax.numpy.logical_not": lambda a: not a, "jax.numpy.abs": abs,
        "jax.numpy.isnan": lambda a: a != a, "jax.numpy.bool": bool, "jax.numpy.bool_": bool, "builtins.bool": bool, "builtins.abs": abs,
        "jax.numpy.less": lambda a, b: a < b, "jax.numpy.less_equal": lambda a, b: a <= b, "jax.numpy.greater": lambda a, b: a > b,
        "jax.numpy.greater_equal": lambda a, b: a >= b, "jax.numpy.isfinite": lambda a: a == a and abs(a) != INF,
        "jax.numpy.equal": lambda a, b: a == b, "jax.numpy.not_equal": lambda a, b: a != b, "jax.numpy.sign": lambda a: (a > 0) - (a < 0),
        "jax.numpy.add": lambda a, b: a + b, "jax.numpy.subtract": lambda a, b: a - b, "jax.numpy.multiply": lambda a, b: a * b,
        "jax.numpy.clip": lambda a, lo, hi: min(max(a, lo), hi), "jax.numpy.isinf": lambda a: abs(a) == INF,
        "jax.numpy.logical_xor": lambda a, b: bool(a) != bool(b), "builtins.min": min, "builtins.max": max}


_LIKE = {"jax.numpy.full_like": None, "jax.numpy.zeros_like": 0.0, "jax.numpy.ones_like": 1.0}


class Sim:
    """tabulates the extracted loop transfer functions of a Run on a sequence
    of validation losses: scalars are folded, everything else is a token that
    is shared by equal histories.  lossval(k, n): the n-th validation loss
    evaluated in epoch k (k = 0: before the first epoch)."""
    TOK = {}

    def __init__(self, run, lossval, limit=12):
        self.r, self.lossval, self.limit = run, lossval, limit
        run.invariants()
        self.slots = {}
        for (l, s) in run.varying():
            self.slots.setdefault(l, {})[s] = (run.init(l, s), run.step(l, s))
        self.info = run.I.loops
        self.k = 0            # current epoch
        self.events = []      # (kind, epoch, term)
        self.seen = set()
        self.epochs = None    # number of outer iterations
        self.top = ({}, {}, False)
        self.outer = [l for l, i in self.info.items() if i["kind"] == "lax.while"]

    def tok(self, v):
        if v.op in ("const", "sym") or v.op in ("tuple",) and not v.args:
            return v
        return self.TOK.setdefault(v, T("sym", f"#{len(self.TOK)}"))

    def ev(self, t, ctx=None):
        env, memo, ing = ctx or self.top

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x in env:
                r = env[x]
            elif x.op == "loopout":
                res = memo.get(("loop", x.args[0]))
                if res is None:
                    res = memo[("loop", x.args[0])] = self.loop(x.args[0], env, ing)
                r = res[x.args[1]] if x.args[1] in res else x
            elif x.op == "gradof" and not ing:
                m2 = memo.setdefault("ingrad", {})
                r = self.ev(x, (env, m2, True))
                if r not in self.seen:
                    self.seen.add(r)
                    self.events.append(("grad", self.k, r))
            elif x.op == "ite":
                c = go(x.args[0])
                if c.op == "const":
                    r = go(x.args[1] if c.args[0] else x.args[2])
                else:
                    r = ite(c, go(x.args[1]), go(x.args[2]))
            else:
                r = self.fold(rebuild(x, go), ing)
            memo[x] = r
            return r
        return go(t)

    def fold(self, x, ing):
        if x.op == "ext" and x.args[0] in ("jax.numpy.inf", "math.inf", "numpy.inf"):
            return const(INF)
        if x.op == "neg" and num(x.args[0]):
            return const(-x.args[0].args[0])
        if x.op in ("&", "|", "and", "or") and all(y.op == "const" for y in x.args):
            vs = [bool(y.args[0]) for y in x.args]
            return const(all(vs) if x.op in ("&", "and") else any(vs))
        if x.op in ("<", "<=", "==") and all(num(y) for y in x.args):
            a, b = (y.args[0] for y in x.args)
            return const({"<": a < b, "<=": a <= b, "==": a == b}[x.op])
        if x.op in ("min", "max") and all(num(y) for y in x.args):
            return const({"min": min, "max": max}[x.op](y.args[0] for y in x.args))
        if x.op in ("+", "*") and all(num(y) for y in x.args):
            v = x.args[0].args[0]
            for y in x.args[1:]:
                v = v + y.args[0] if x.op == "+" else v * y.args[0]
            return const(v)
        if x.op == "treemap" and x.args[0].op == "leaf":
            return x.args[0].args[0]
        if x.op == "call":
            q = extname(x.args[0])
            if q in ("user.LOSS", "user.VLOSS") and not ing:
                if x not in self.seen:
                    self.seen.add(x)
                    self.events.append(("val", self.k, x))
                n = [e[2] for e in self.events if e[0] == "val" and e[1] == self.k].index(x) if x in [e[2] for e in self.events if e[0] == "val" and e[1] == self.k] else 0
                return const(self.lossval(self.k, n))
            if q in _FOLD and x.args[1] and num(x.args[1][0]):
                return x.args[1][0]
            if q in _LIKE and x.args[1] and num(x.args[1][0]):
                v = _LIKE[q] if _LIKE[q] is not None else x.args[1][1] if len(x.args[1]) > 1 else dict(x.args[2]).get("fill_value")
                if v is not None and (not isinstance(v, T) or num(v)):
                    return v if isinstance(v, T) else const(v)
            if q == "jax.numpy.full" and len(x.args[1]) > 1 and x.args[1][0] == T("tuple") and num(x.args[1][1]):
                return x.args[1][1]
            if q in ("jax.numpy.zeros", "jax.numpy.ones") and x.args[1] and x.args[1][0] == T("tuple"):
                return const(float(q.endswith("ones")))
            if q in _FUN and not x.args[2] and all(num(a) for a in x.args[1]):
                return const(_FUN[q](*[a.args[0] for a in x.args[1]]))
            if q in ("jax.numpy.where", "jax.lax.select") and len(x.args[1]) == 3 and x.args[1][0].op == "const":
                return x.args[1][1 if x.args[1][0].args[0] else 2]
            if x.args[0].op == "attr" and x.args[0].args[1] == "astype" and num(x.args[0].args[0]):
                return x.args[0].args[0]
        return x

    def loop(self, l, env, ing):
        slots, info = self.slots.get(l, {}), self.info[l]
        memo = {}
        cur = {s: self.ev(a, (env, memo, ing)) for s, (a, b) in slots.items()}
        outer = l in self.outer
        rng = None
        if info["iter"] is not None:
            it = self.ev(self.r.resolve(info["iter"]), (env, memo, ing))
            vals = [a.args[0] for a in it.args] if it.op == "rangev" and all(num(a) for a in it.args) else None
            if vals is None:
                raise AnalysisError(f"the bounds of loop {l} are not constant: {short(it)}")
            rng = list(range(*vals))
        n = 0
        while True:
            e2 = dict(env)
            e2.update({T("loopvar", l, s): v for s, v in cur.items()})
            m2 = {}
            if rng is not None:
                if n >= len(rng):
                    break
                if info["elem"] is not None:
                    e2[self.r.resolve(info["elem"])] = const(rng[n])
            else:
                if outer:
                    kk, self.k = self.k, n + 1
                c = self.ev(self.r.resolve(info["cond"]), (e2, {}, ing))
                if c.op != "const":
                    raise AnalysisError(f"the condition of loop {l} is {short(c)}")
                if not c.args[0]:
                    if outer:
                        self.k = kk
                    break
                if n >= self.limit:
                    raise AnalysisError(f"loop {l} does not end")
            cur = {s: self.tok(self.ev(b, (e2, m2, ing))) for s, (a, b) in slots.items()}
            n += 1
        if outer:
            self.epochs = n
        return cur

    def out(self, t):
        """final value of a term computed after the loops"""
        return self.tok(self.ev(self.r.resolve(t)))


def num(t):
    return t.op == "const" and isinstance(t.args[0], (int, float))


# ------------------------------------------------------------ rows of batches
def rows(t, sizes):
    """sample indices held by a batch term, [(array, index)], or raise"""
    if t.op == "sym" and t.args[0] in sizes:
        return [(t.args[0], i) for i in range(sizes[t.args[0]])]
    if t.op in ("arr", "expand"):
        return rows(t.args[0], sizes)
    if t.op == "concat":
        return [r for x in t.args for r in rows(x, sizes)]
    if t.op == "item" and t.args[1].op == "const" and isinstance(t.args[1].args[0], int):
        return [rows(t.args[0], sizes)[t.args[1].args[0]]]
    if t.op == "call":
        q = extname(t.args[0]) or ""
        a, kw = t.args[1], dict(t.args[2])
        if q == "jax.random.permutation":
            if kw.get("independent", FALSE) is not FALSE:
                return [("independently permuted " + short(t), i) for i in range(1)]
            ax = kw.get("axis", a[2] if len(a) > 2 else const(0))
            if ax is not const(0):
                return [("permuted along another axis " + short(t), i) for i in range(1)]
            if num(a[1]):
                src = [("", i) for i in range(a[1].args[0])]
            else:
                src = rows(a[1], sizes)
            return [(n, ("perm", a[0], len(src), pos, tuple(i for _, i in src))) for pos, (n, _) in enumerate(src)]
        if q == "jax.lax.dynamic_slice_in_dim":
            st = a[1] if len(a) > 1 else kw.get("start_index")
            ln = a[2] if len(a) > 2 else kw.get("slice_size")
            ax = a[3] if len(a) > 3 else kw.get("axis", const(0))
            if ax is not const(0):
                return [("sliced along another axis " + short(t), 0)]
            if st is None or ln is None or not num(st) or not num(ln):
                raise AnalysisError(f"slice bounds {short(st)}, {short(ln)}")
            r = rows(a[0], sizes)
            s0 = max(0, min(st.args[0], len(r) - ln.args[0]))
            return r[s0:s0 + ln.args[0]]
        if q in ("jax.numpy.take",):
            ax = kw.get("axis", a[2] if len(a) > 2 else NONE)
            if ax is const(0):
                r, ix = rows(a[0], sizes), rows(a[1], sizes)
                return pick(r, ix)
        if q == "jax.numpy.arange" and len(a) == 1 and num(a[0]):
            return [("", i) for i in range(a[0].args[0])]
        if q in ("jax.numpy.asarray", "jax.numpy.array") and a:
            return rows(a[0], sizes)
        if q == "jax.lax.dynamic_slice" or q == "jax.lax.slice_in_dim" and len(a) >= 3 and num(a[1]) and num(a[2]):
            r = rows(a[0], sizes)
            return r[a[1].args[0]:a[2].args[0]]
    if t.op == "item":
        b, k = t.args
        if k.op == "slice" and all(x is NONE or num(x) for x in k.args):
            return rows(b, sizes)[slice(*[x.args[0] for x in k.args])]
        return pick(rows(b, sizes), rows(k, sizes))
    raise AnalysisError(f"batch {short(t)} is not understood")


def pick(r, ix):
    out = []
    for _, i in ix:
        if isinstance(i, int):
            out.append(r[i])
        else:
            # i-th element of a permutation of 0..n-1 applied to the source rows
            src = tuple(x for _, x in r)
            out.append((r[0][0], ("perm", i[1], i[2], i[3], src)))
    return out
