"""One module of the library evaluated in the exact-array domain (nd.py): the
module is constructed, compiled for a given input shape and its forward
function applied to arrays of unknown entries; results are arrays of exact
polynomials in those entries."""
import itertools

from .common import *
from .. import nd, poly
from ..nd import NDA, fresh, hermitian
from ..poly import P


RNG = T("arr", T("sym", "rng"), T("tuple"))
RNG2 = T("arr", T("sym", "rng2"), T("tuple"))


class Raised(Exception):
    """the analysed code raises on an input it has to accept"""


def why(I, mark):
    ev = [e for e in I.events[mark:] if e.kind in ("missingkey", "badindex", "raise", "zerodiv", "badop")]
    if not ev:
        return "no path completes"
    e = ev[-1]
    if e.kind == "badop":
        return f"{e.data['why']} at {e.where}"
    return f"{e.kind} at {e.where} " + ", ".join(short(v, 80) for v in e.data.values() if isinstance(v, T))


def tree(x, f):
    """container term from a python tree (dict/list/tuple) of leaves"""
    if isinstance(x, dict):
        return T("dict", tuple((const(k), tree(v, f)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return T("list" if isinstance(x, list) else "tuple", *[tree(v, f) for v in x])
    return f(x)


def thaw(I, st, x):
    """python tree of terms -> value in the analysed program (fresh containers)"""
    if isinstance(x, dict):
        return I.new_dict(st, [(const(k), thaw(I, st, v)) for k, v in x.items()])
    if isinstance(x, list):
        return I.new_list(st, [thaw(I, st, v) for v in x])
    if isinstance(x, tuple):
        return T("tuple", *[thaw(I, st, v) for v in x])
    if isinstance(x, NDA):
        return T("nd", x)
    if isinstance(x, Shape):
        return T("tuple", *[const(d) for d in x.d])
    if isinstance(x, Inst):
        ci = I.prog.get_class(x.cls)
        return I.call(I.get_attr(T("pkgmod", ci.module.name), x.cls, st, None), [thaw(I, st, a) for a in x.args], {k: thaw(I, st, v) for k, v in x.kw.items()}, st, None)
    if isinstance(x, T):
        return x
    return NONE if x is None else const(x)


class Inst:
    """an instance of a class of the library, built where it is used"""

    def __init__(self, cls, *args, **kw):
        self.cls, self.args, self.kw = cls, args, kw

    def __repr__(self):
        return f"{self.cls}({', '.join([repr(a) for a in self.args] + [f'{k}={v!r}' for k, v in self.kw.items()])})"


class Shape:
    """leaf of a shape tree"""

    def __init__(self, *d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Shape) and self.d == o.d

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return repr(self.d)


def py(t, shapes=False):
    """snapped term -> python tree; leaves NDA / Shape / terms"""
    if t.op == "nd":
        return t.args[0]
    if shapes and t.op == "tuple" and all(x.op == "const" and (x is NONE or type(x.args[0]) is int) for x in t.args):
        return Shape(*[None if x is NONE else x.args[0] for x in t.args])
    if t.op == "tuple":
        return tuple(py(x, shapes) for x in t.args)
    if t.op == "list":
        return [py(x, shapes) for x in t.args]
    if t.op == "dict":
        return {k.args[0]: py(v, shapes) for k, v in t.args[0]}
    if t.op == "const":
        return t.args[0]
    return t


def plain(x):
    """no unresolved term inside"""
    if isinstance(x, dict):
        return all(plain(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return not isinstance(x, T)


def leaves(x):
    if isinstance(x, dict):
        return [y for k in sorted(x, key=str) for y in leaves(x[k])]
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in leaves(v)]
    return [] if x is None else [x]


def tmap(f, *xs):
    x = xs[0]
    if isinstance(x, dict):
        return {k: tmap(f, *[y[k] for y in xs]) for k in x}
    if isinstance(x, (list, tuple)):
        return type(x)(tmap(f, *[y[i] for y in xs]) for i in range(len(x)))
    return f(*xs)


def same_tree(a, b):
    """same container structure (leaves not compared)"""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_tree(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
    return not isinstance(b, (dict, list, tuple))


def struct(x):
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k}: {struct(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return ("[%s]" if isinstance(x, list) else "(%s)") % ", ".join(struct(v) for v in x)
    if isinstance(x, NDA):
        return f"array{list(x.shape)}"
    return repr(x) if not isinstance(x, T) else short(x, 40)


# atoms the domain knows the meaning of; a value containing anything else is
# not compared but left undecided
GROUND = {"var", "conj", "ev", "evec", "sqrt", "max", "min", "ind", "pick", "rank", "inv", "opnorm", "draw"}


def odd_atoms(p, seen=None, known=frozenset()):
    """atoms of unmodelled functions below the value"""
    seen = set() if seen is None else seen
    out = []

    def go(x):
        if isinstance(x, poly.Poly):
            for a in x.atoms():
                go(a)
        elif isinstance(x, poly.Atom):
            if x in seen:
                return
            seen.add(x)
            if x.key[0] not in GROUND and x.key[:2] not in known:
                out.append(x)
            for y in x.key[1:]:
                go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    go(p)
    return out


def atoms_below(p):
    """atoms of p and of the arguments of its atoms"""
    out = set()

    def go(x):
        if isinstance(x, poly.Poly):
            for a in x.atoms():
                go(a)
        elif isinstance(x, poly.Atom):
            if x not in out:
                out.add(x)
                for y in x.key[1:]:
                    go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    go(p)
    return out


class Mod:
    """one module instance in the exact-array domain"""

    def __init__(self, prog, cls, args=(), hooks=None, **kw):
        self.prog, self.cls = prog, cls
        self.I = I = Interp(prog)
        I.nd = I.graph = I.unroll = True
        I.max_same = 40
        I.max_steps = 3000000
        I.hooks.update(hooks or {})
        self.st = State()
        self.ci = prog.get_class(cls)
        self.where = self.ci.module.path if hasattr(self.ci.module, "path") else self.ci.module.name
        self.mark = 0
        c = I.get_attr(T("pkgmod", self.ci.module.name), cls, self.st, None)
        self.A = self.guard("constructing the module", lambda: I.call(c, [thaw(I, self.st, a) for a in args], {k: thaw(I, self.st, v) for k, v in kw.items()}, self.st, None))

    def guard(self, what, f):
        mark = len(self.I.events)
        r = f()
        if not alive(self.st):
            if self.I.open_branches:
                raise AnalysisError(f"{what}: not every condition is decided")
            raise Raised(f"{what} raises: {why(self.I, mark)}")
        return r

    def method(self, name, *args):
        I, st = self.I, self.st
        return self.guard(name, lambda: I.snap(st, I.call(I.get_attr(self.A, name, st, None), list(args), {}, st, None)))

    def compile(self, shape, rng=None):
        self.shape = shape
        self.method("compile", rng or RNG, thaw(self.I, self.st, shape))

    def params(self):
        return py(self.method("get_params"))

    def state(self):
        return py(self.method("get_state"))

    def out_shape(self, shape=None):
        return py(self.method("get_output_shape", thaw(self.I, self.st, self.shape if shape is None else shape)), True)

    def attr(self, name):
        return self.I.snap(self.st, self.I.get_attr(self.A, name, self.st, None))

    def fresh_params(self, herm=False, dtype=None):
        n = itertools.count()

        def f(x):
            if isinstance(x, NDA):
                return fresh(f"p{next(n)}", x.shape, dtype or x.dtype)
            if isinstance(x, T):
                raise AnalysisError(f"parameters {short(x)} not understood")
            return x
        return tmap(f, self.params())

    def forward(self, params, data, training=TRUE, state=None, rng=None):
        I, st = self.I, self.st
        S = thaw(I, st, self.state() if state is None else state)
        R = rng or RNG2
        D = thaw(I, st, data)
        Pm = thaw(I, st, params)
        f = self.guard("_get_callable", lambda: I.call(I.get_attr(self.A, "_get_callable", st, None), [], {}, st, None))
        pre = (I.snap(st, D), I.snap(st, Pm), I.snap(st, S))
        mark = len(I.events)
        r = self.guard("the forward function", lambda: I.snap(st, I.call(f, [Pm, D, training, S, R], {}, st, None)))
        self.touched = [n for n, x, y in zip(("data", "params", "state"), (D, Pm, S), pre) if I.snap(st, x) is not y]
        pa = {a for x in leaves(params) if isinstance(x, NDA) for p in x.v for a in p.atoms()}
        self.cut = [e.where for e in I.events[mark:] if e.kind == "stopgrad" and any(x.op == "nd" and any(pa & atoms_below(p) for p in x.args[0].v) for x in walk(e.data["value"]))]
        if r.op != "tuple" or len(r.args) != 2:
            raise AnalysisError(f"the forward function returns {short(r)}")
        self.open()
        return py(r.args[0]), r.args[1], pre[2]

    def open(self):
        if self.I.open_branches:
            raise AnalysisError("not every condition on the way is decided")


def differs(got, want, known=frozenset()):
    """None when equal; text of the first differing entry; AnalysisError when
    the value found is built from functions without a model"""
    if not isinstance(got, NDA):
        if isinstance(got, T):
            raise AnalysisError(f"value {short(got)} is not understood")
        return f"the result is {struct(got)}, not an array"
    if got.shape != want.shape:
        return f"the result has shape {got.shape}, expected {want.shape}"
    for ix, g, w in zip(got.indices(), got.v, want.v):
        if g != w:
            odd = odd_atoms(g, known=known)
            if odd:
                raise AnalysisError(f"entry {ix}: {g.show()[:100]} uses a function without a model")
            return f"entry {list(ix)} is {g.show()[:160]}, expected {w.show()[:160]}"
    return None


def indices(shape):
    return itertools.product(*[range(d) for d in shape])


def build(shape, dtype, f):
    return NDA(tuple(shape), dtype, [f(ix) for ix in indices(shape)])


def psum(xs):
    return nd.psum(list(xs)) if not isinstance(xs, list) else nd.psum(xs)
