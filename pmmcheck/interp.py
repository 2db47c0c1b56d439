"""Interprocedural value-flow analysis over the AST.

An abstract interpreter: values are terms (terms.py), containers and instances
live in an abstract heap, control-flow merges join with gated (ite) terms,
loops are summarised (loop-carried slots become `loopvar` terms whose init and
back-edge values are recorded).  Package functions, methods, closures and
lambdas are inlined, so extracting a helper, renaming locals, reordering
independent statements or swapping a loop for a comprehension does not change
what the checks see.  Nothing of the target is executed and no solver is
involved.
"""
from __future__ import annotations

import ast
import math
import sys

from . import annot, carr as carr_, nd as nd_, shapes
from .models import ALIAS, b_lenterm, is_leafterm
from .program import AnalysisError, ClassInfo, FuncInfo
from .terms import (FALSE, NONE, T, TRUE, binop, children, cmp_, conj, const,
                    contains, disj, ite, item, neg, norm_cond, show, subst, walk)

sys.setrecursionlimit(20000)

BUILTINS = {
    "len", "zip", "enumerate", "range", "dict", "list", "tuple", "set",
    "frozenset", "getattr", "setattr", "hasattr", "isinstance", "issubclass",
    "super", "any", "all", "sorted", "reversed", "str", "int", "float", "bool",
    "complex", "abs", "min", "max", "sum", "map", "filter", "print", "repr",
    "type", "callable", "iter", "next", "vars", "id", "round", "divmod",
    "slice", "object", "property", "staticmethod", "classmethod", "open",
    "ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError",
    "Exception", "NotImplementedError", "AssertionError", "AttributeError",
    "StopIteration", "KeyboardInterrupt", "UserWarning", "RuntimeWarning",
    "DeprecationWarning", "FutureWarning", "Warning", "BaseException",
    "OverflowError", "ZeroDivisionError", "FileNotFoundError", "OSError",
    "NotImplemented", "Ellipsis", "delattr", "hash", "bytes", "ord", "chr",
    "format", "pow", "globals", "locals", "memoryview", "bytearray",
    "ImportError", "LookupError", "ArithmeticError", "IOError", "input",
    "FileExistsError", "StopAsyncIteration", "SystemExit", "UnicodeError",
}


def plain_const(t):
    return t.op == "const" or t.op == "tuple" and all(plain_const(x) for x in t.args)


def pyval(t):
    """(python value,) of a term of constants and containers, else None"""
    if t.op == "const":
        return (t.args[0],)
    if t.op in ("tuple", "list"):
        xs = [pyval(x) for x in t.args]
        if None not in xs:
            xs = [x[0] for x in xs]
            return (tuple(xs) if t.op == "tuple" else xs,)
    if t.op == "dict":
        xs = [(pyval(k), pyval(v)) for k, v in t.args[0]]
        if all(k and v for k, v in xs):
            try:
                return ({k[0]: v[0] for k, v in xs},)
            except TypeError:
                return None
    return None


class HObj:
    __slots__ = ("kind", "cls", "fields", "items", "base", "name")

    def __init__(self, kind, cls=None, fields=None, items=(), base=None, name=""):
        self.kind = kind          # inst | list | dict | set
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.items = items        # list/set: tuple of T; dict: tuple of (keyT, valT)
        self.base = base          # symbolic base term for unknown instances
        self.name = name

    def copy(self, **kw):
        o = HObj(self.kind, self.cls, self.fields, self.items, self.base, self.name)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class Closure:
    __slots__ = ("node", "fid", "module", "cls", "name", "defaults", "kwdefaults", "qual", "local", "gen", "shared")

    def __init__(self, node, fid, module, cls, name, defaults, kwdefaults, qual):
        self.node = node
        self.fid = fid
        self.module = module
        self.cls = cls
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.local = None
        self.gen = False


class State:
    __slots__ = ("frames", "heap", "pc")

    def __init__(self, frames=None, heap=None, pc=()):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def fork(self):
        return State(dict(self.frames), dict(self.heap), self.pc)

    def setvar(self, fid, name, v):
        d = dict(self.frames.get(fid, {}))
        d[name] = v
        self.frames[fid] = d

    def getvar(self, fid, name):
        return self.frames.get(fid, {}).get(name)

    def setobj(self, oid, o):
        self.heap[oid] = o


class Event:
    __slots__ = ("kind", "pc", "data", "loc", "stack", "seq")

    def __init__(self, kind, pc, data, loc, stack, seq):
        self.kind = kind
        self.pc = pc
        self.data = data
        self.loc = loc
        self.stack = stack
        self.seq = seq

    @property
    def where(self):
        return f"{self.loc[0]}:{self.loc[2]} in {self.loc[1]}"


class Flow:
    """Outcome of executing a block."""
    __slots__ = ("normal", "returns", "breaks", "continues", "raises")

    def __init__(self, normal=None):
        self.normal = normal
        self.returns = []    # (state, value)
        self.breaks = []
        self.continues = []
        self.raises = []     # (state, excterm)

    def absorb(self, o):
        self.returns += o.returns
        self.breaks += o.breaks
        self.continues += o.continues
        self.raises += o.raises


MAXDEPTH = 40
UNROLL = 128


def dtype_obj(t):
    """name of the dtype a scalar type such as numpy.float32 or
    jax.numpy.float32 stands for, else None"""
    if t.op == "ext" and t.args[0].rpartition(".")[0] in ("numpy", "jax.numpy"):
        n = t.args[0].rpartition(".")[2]
        return n if n in nd_.KIND else None
    return None


def dtype_eq(a, b):
    """comparison with a scalar type: equal to the same type of the other
    library, never to a string or number"""
    x, y = dtype_obj(a), dtype_obj(b)
    if x and y:
        return const(x == y)
    o = b if x else a
    return FALSE if o.op == "const" else None


class Interp:
    def __init__(self, prog, opaque=(), max_steps=600000, max_depth=MAXDEPTH):
        self.prog = prog
        self.opaque = set(opaque)
        self.events = []
        self.mute = 0
        self.closures = {}
        self.loops = {}         # lid -> dict(slots={slot:(init,out)}, iter=, cond=...)
        self._oid = 0
        self._fid = 0
        self._lid = 0
        self._cid = 0
        self.stack = []
        self.steps = 0
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.carr = False        # constant 1-d arrays as element lists
        self.nd = False          # arrays of known shape with exact entries (nd.py)
        self.open_branches = 0
        self.graph = False       # decided while loops unrolled; container errors end the path
        self.unroll = False      # lax.scan / vmap over constant ranges as straight-line code
        self.max_same = 2
        self.gcache = {}
        self.gbusy = set()
        self.classes = {}
        self.funcs_seen = set()
        self.hooks = {}          # qual -> callable(interp, args, kwargs, st, node)
        self.unresolved = 0
        self.clo_by_site = {}
        self.cur_loops = []
        self.seq = 0

    # ------------------------------------------------------------ utilities
    def new_oid(self):
        self._oid += 1
        return self._oid

    def new_frame(self, st):
        self._fid += 1
        st.frames[self._fid] = {}
        return self._fid

    def new_lid(self):
        self._lid += 1
        return self._lid

    def alloc(self, st, obj):
        oid = self.new_oid()
        st.heap[oid] = obj
        return T("ref", oid)

    def new_list(self, st, items):
        return self.alloc(st, HObj("list", items=tuple(items)))

    def new_dict(self, st, items):
        out = []
        for k, v in items:
            self._dset(out, k, v)
        return self.alloc(st, HObj("dict", items=tuple(out)))

    @staticmethod
    def _dset(lst, k, v):
        for i, (kk, _) in enumerate(lst):
            if kk is k:
                lst[i] = (k, v)
                return
        lst.append((k, v))

    def sym_instance(self, st, ci, name="self", fields=None):
        return self.alloc(st, HObj("inst", cls=ci, fields=dict(fields or {}), base=T("sym", name), name=name))

    def obj(self, st, v):
        if isinstance(v, T) and v.op == "ref":
            return st.heap.get(v.args[0])
        return None

    def loc(self, node):
        if self.stack:
            m, q = self.stack[-1][:2]
            return (self.prog.rel(m.path), q, getattr(node, "lineno", 0))
        return ("?", "?", getattr(node, "lineno", 0))

    def emit(self, kind, st, node, **data):
        if self.mute:
            return
        self.seq += 1
        self.events.append(Event(kind, st.pc, data, self.loc(node), tuple(s[1] for s in self.stack), self.seq))

    def snap(self, st, v, depth=0, seen=()):
        """structural term of a value (heap objects expanded)."""
        if not isinstance(v, T):
            return v
        if v.op == "ref":
            if v in seen or depth > 30:
                return v
            o = st.heap.get(v.args[0])
            if o is None:
                return v
            s2 = seen + (v,)
            if o.kind in ("list", "set"):
                return T(o.kind, *[self.snap(st, x, depth + 1, s2) for x in o.items])
            if o.kind == "dict":
                return T("dict", tuple((self.snap(st, k, depth + 1, s2), self.snap(st, x, depth + 1, s2)) for k, x in o.items))
            if o.base is not None:
                return o.base
            if o.kind == "inst" and o.cls is not None:
                return T("inst", o.cls.qual, tuple((k, self.snap(st, x, depth + 1, s2)) for k, x in sorted(o.fields.items())))
            return v
        if v.op in ("const", "sym", "ext", "clo", "cls", "pkgmod"):
            return v
        from .terms import rebuild
        if not contains(v, lambda x: x.op == "ref"):
            return v
        return rebuild(v, lambda x: self.snap(st, x, depth + 1, seen))

    # --------------------------------------------------------------- joining
    def join(self, c, a, b, pc):
        """state equal to a when c holds, b otherwise."""
        if a is None:
            if b is not None:
                b.pc = self._pcnorm(b.pc)
            return b
        if b is None:
            return a
        c_t, pol = norm_cond(c)
        if not pol:
            a, b = b, a
        c = c_t
        frames = {}
        for fid in a.frames.keys() | b.frames.keys():
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is fb or fb is None:
                frames[fid] = fa
            elif fa is None:
                frames[fid] = fb
            else:
                d = {}
                for k in fa.keys() | fb.keys():
                    va, vb = fa.get(k), fb.get(k)
                    if va is vb:
                        d[k] = va
                    elif va is None:
                        d[k] = ite(c, T("undef", k), vb) if vb is not None else None
                    elif vb is None:
                        d[k] = ite(c, va, T("undef", k))
                    else:
                        d[k] = ite(c, va, vb)
                frames[fid] = d
        heap = {}
        for oid in a.heap.keys() | b.heap.keys():
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is ob or ob is None:
                heap[oid] = oa
            elif oa is None:
                heap[oid] = ob
            else:
                heap[oid] = self._joinobj(c, oa, ob, T("ref", oid))
        return State(frames, heap, pc)

    def _pcnorm(self, pc):
        return pc

    def _joinobj(self, c, oa, ob, ref):
        if oa.kind == "inst":
            d = {}
            for k in oa.fields.keys() | ob.fields.keys():
                va, vb = oa.fields.get(k), ob.fields.get(k)
                dflt = T("attr", oa.base, k) if oa.base is not None else T("unset", k)
                va = dflt if va is None else va
                vb = dflt if vb is None else vb
                d[k] = ite(c, va, vb)
            return oa.copy(fields=d)
        if oa.kind in ("list", "set"):
            ia, ib = oa.items, ob.items
            if len(ia) == len(ib):
                return oa.copy(items=tuple(ite(c, x, y) for x, y in zip(ia, ib)))
            n = 0
            while n < min(len(ia), len(ib)) and ia[n] is ib[n]:
                n += 1
            rest = [T("maybe", c, x) for x in ia[n:]] + [T("maybe", neg(c), x) for x in ib[n:]]
            return oa.copy(items=ia[:n] + tuple(rest))
        if oa.kind == "dict":
            out = []
            kb = {k: v for k, v in ob.items}
            ka = {k: v for k, v in oa.items}
            for k, v in oa.items:
                out.append((k, self.mmaybe(c, v, kb.get(k))))
            for k, v in ob.items:
                if k not in ka:
                    out.append((k, self.mmaybe(c, None, v)))
            return oa.copy(items=tuple(out))
        return oa

    @staticmethod
    def mmaybe(c, a, b):
        """entry present as a when c, as b otherwise (None: absent)."""
        def parts(x):
            if x is None:
                return FALSE, None
            if x.op == "maybe":
                return x.args[0], x.args[1]
            return TRUE, x
        ga, va = parts(a)
        gb, vb = parts(b)
        g = disj([conj([c, ga]), conj([neg(c), gb])]) if not (ga is TRUE and gb is TRUE) else TRUE
        v = va if vb is None else vb if va is None else ite(c, va, vb)
        return v if g is TRUE else T("maybe", g, v)

    # -------------------------------------------------------------- decisions
    def truth(self, st, t):
        """True/False/None"""
        t, pol = norm_cond(t)
        r = self._truth(st, t)
        if r is None:
            return None
        return r if pol else not r

    def _truth(self, st, t):
        if t.op == "const":
            try:
                return bool(t.args[0])
            except Exception:
                return None
        if t.op in ("clo", "cls", "bm", "pkgmod"):
            return True
        if t.op == "nd":
            try:
                return nd_.truth(t.args[0])
            except nd_.Bad:
                raise AnalysisError("truth value of an array")
        if t.op == "tuple":
            return len(t.args) > 0
        if t.op == "ref":
            o = st.heap.get(t.args[0])
            if o and o.kind in ("list", "dict", "set"):
                if not o.items:
                    return False
                vals = [x[1] if o.kind == "dict" else x for x in o.items]
                if any(v.op not in ("maybe", "each", "star", "dstar") for v in vals):
                    return True
                return None
            return True if o and o.kind == "inst" else None
        for c, p in reversed(st.pc):
            if c is t:
                return p
        if t.op == "and":
            rs = [self.truth(st, x) for x in t.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if t.op == "or":
            rs = [self.truth(st, x) for x in t.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if t.op == "ite":
            d = self.truth(st, t.args[0])
            if d is True:
                return self.truth(st, t.args[1])
            if d is False:
                return self.truth(st, t.args[2])
            x, y = self.truth(st, t.args[1]), self.truth(st, t.args[2])
            if x is not None and x == y:
                return x
        return None

    def pc_add(self, st, t, pol=True):
        t, p = norm_cond(t, pol)
        if t.op == "const":
            return
        if p and t.op == "and":
            for x in t.args:
                self.pc_add(st, x, True)
            return
        if not p and t.op == "or":
            for x in t.args:
                self.pc_add(st, x, False)
            return
        if (t, p) in st.pc:
            return
        st.pc = st.pc + ((t, p),)

    def refine(self, st, v):
        """drop ite arms contradicted by the path condition (shallow)."""
        n = 0
        while isinstance(v, T) and v.op == "ite" and n < 20:
            d = self.truth(st, v.args[0])
            if d is True:
                v = v.args[1]
            elif d is False:
                v = v.args[2]
            else:
                break
            n += 1
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        flow = Flow(st)
        for s in stmts:
            if flow.normal is None:
                break
            if self.graph and any(c.op == "dead" for c, _ in flow.normal.pc):
                flow.normal = None
                break
            f = self.exec_stmt(s, flow.normal, fr)
            flow.absorb(f)
            flow.normal = f.normal
        return flow

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError("step budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return Flow(st)
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return Flow(st)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return Flow(st)
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = self.ev(s.value.value, st, fr) if s.value.value else NONE
            cur = st.getvar(fr["fid"], "$yield")
            o = self.obj(st, cur) if cur is not None else None
            if o is not None:
                x = T("star", v) if isinstance(s.value, ast.YieldFrom) else v
                st.setobj(cur.args[0], o.copy(items=o.items + (x,)))
            return Flow(st)
        self.ev(s.value, st, fr)
        return Flow(st)

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            st.setvar(fr["fid"], nm, T("pkgmod", tgt) if tgt in self.prog.modules else T("ext", tgt))
        return Flow(st)

    def s_ImportFrom(self, s, st, fr):
        base = self.prog._rel_module(fr["module"], s.level, s.module)
        for a in s.names:
            nm = a.asname or a.name
            if base in self.prog.modules:
                v = self.global_value(self.prog.modules[base], a.name, st)
            else:
                v = T("ext", ALIAS.get(f"{base}.{a.name}", f"{base}.{a.name}"))
            st.setvar(fr["fid"], nm, v)
        return Flow(st)

    def s_Global(self, s, st, fr):
        fr.setdefault("globals", set()).update(s.names)
        return Flow(st)

    def s_Nonlocal(self, s, st, fr):
        fr.setdefault("nonlocals", set()).update(s.names)
        return Flow(st)

    def s_FunctionDef(self, s, st, fr):
        v = self.make_closure(s, st, fr, s.name)
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(d, v, st, fr)
        st.setvar(fr["fid"], s.name, v)
        return Flow(st)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        ci = self.prog.make_class(s, fr["module"])
        ci.frame = fr["fid"]
        for b in s.bases:
            bv = self.ev(b, st, fr)
            if bv.op == "cls":
                ci.bases.append(self.classes[bv.args[0]])
        st.setvar(fr["fid"], s.name, self.cls_term(ci))
        return Flow(st)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        f = Flow(None)
        f.returns.append((st, v))
        return f

    def s_Raise(self, s, st, fr):
        v = self.ev(s.exc, st, fr) if s.exc is not None else T("reraise")
        self.emit("raise", st, s, exc=v)
        f = Flow(None)
        f.raises.append((st, v))
        return f

    def s_Assert(self, s, st, fr):
        t = self.ev(s.test, st, fr)
        d = self.truth(st, t)
        f = Flow(st)
        if d is False:
            self.emit("raise", st, s, exc=T("ext", "AssertionError"))
            f.normal = None
            f.raises.append((st, T("ext", "AssertionError")))
            return f
        if d is None:
            g = st.fork()
            self.pc_add(g, t, False)
            self.emit("raise", g, s, exc=T("ext", "AssertionError"))
            self.pc_add(st, t, True)
        return f

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.setvar(fr["fid"], t.id, T("undef", t.id))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                nm = self.mangle(t.attr, fr)
                o = self.obj(st, b)
                self.emit("delattr", st, t, obj=b, attr=nm)
                if o is not None and o.kind == "inst":
                    d = dict(o.fields)
                    d[nm] = T("unset", nm)
                    st.setobj(b.args[0], o.copy(fields=d))
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                self.emit("delitem", st, t, obj=b, key=k)
                o = self.obj(st, b)
                if o is not None and o.kind == "dict":
                    st.setobj(b.args[0], o.copy(items=tuple(x for x in o.items if x[0] is not k)))
        return Flow(st)

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return Flow(st)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return Flow(st)

    def s_AugAssign(self, s, st, fr):
        cur = self.ev(self._load(s.target), st, fr)
        v = self.ev(s.value, st, fr)
        o = self.obj(st, cur)
        op = self._binop_name(s.op)
        if o is not None and o.kind == "list" and op == "+":
            self.list_extend(cur, v, st, s)
            return Flow(st)
        if o is not None and o.kind == "dict" and op == "|":
            self.dict_update(cur, v, st, s)
            return Flow(st)
        self.emit("augassign", st, s, old=cur, value=v, target=s.target)
        self.assign(s.target, self.do_binop(op, cur, v, st), st, fr)
        return Flow(st)

    @staticmethod
    def _load(t):
        import copy
        t2 = copy.copy(t)
        t2.ctx = ast.Load()
        return t2

    def s_If(self, s, st, fr):
        t = self.ev(s.test, st, fr)
        return self.branch(t, st, lambda x: self.exec_block(s.body, x, fr), lambda x: self.exec_block(s.orelse, x, fr))

    def undecided(self, t, st):
        """in graph mode nearly every condition is decided; give up early when not"""
        if self.graph:
            self.open_branches += 1
            if self.open_branches > 24:
                raise AnalysisError(f"condition {str(t)[:120]} is not decided")

    def branch(self, t, st, fa, fb):
        d = self.truth(st, t)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        self.undecided(t, st)
        pc0 = st.pc
        a, b = st.fork(), st.fork()
        self.pc_add(a, t, True)
        self.pc_add(b, t, False)
        A, B = fa(a), fb(b)
        flow = Flow()
        flow.absorb(A)
        flow.absorb(B)
        if A.normal is None:
            flow.normal = B.normal
        elif B.normal is None:
            flow.normal = A.normal
        else:
            # keep facts learned on both sides
            common = tuple(x for x in A.normal.pc if x in B.normal.pc)
            flow.normal = self.join(t, A.normal, B.normal, common if len(common) >= len(pc0) else pc0)
        return flow

    def s_With(self, s, st, fr):
        exits = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            o = self.obj(st, v)
            r = None
            if o is not None and o.kind == "inst":
                k = self.prog.find(o.cls, "__enter__")
                if k:
                    r = self.call_method(v, "__enter__", [], {}, st, s)
                exits.append(v)
            if r is None:
                r = T("call", T("attr", v, "__enter__"), (), ())
                self.emit("call", st, s, fn=T("attr", v, "__enter__"), args=(), kwargs=(), result=r)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st, fr)
        f = self.exec_block(s.body, st, fr)
        for v in reversed(exits):
            o0 = None
            for x in ([f.normal] if f.normal else []) + [a for a, _ in f.returns] + [a for a, _ in f.raises]:
                o0 = self.obj(x, v)
                if o0 is not None and self.prog.find(o0.cls, "__exit__"):
                    self.call_method(v, "__exit__", [NONE, NONE, NONE], {}, x, s)
        return f

    def s_Try(self, s, st, fr):
        pre = st.fork()
        lid = self.new_lid()
        A = self.exec_block(s.body, st, fr)
        if A.normal is not None and s.orelse:
            B = self.exec_block(s.orelse, A.normal, fr)
            A.normal = B.normal
            A.absorb(B)
        flow = Flow(A.normal)
        flow.returns += A.returns
        flow.breaks += A.breaks
        flow.continues += A.continues
        exc = T("exc", lid)
        if s.handlers:
            base = pre.fork()
            pcx = pre.pc
            # state on exception: anything between pre and what the body did
            for x, _ in A.raises:
                base = self.join(T("excat", lid), x, base, pcx)
            if A.normal is not None:
                base = self.join(T("excat", lid), A.normal.fork(), base, pcx)
            for h in s.handlers:
                hs = base.fork()
                hs.pc = pcx
                self.pc_add(hs, exc, True)
                if h.name:
                    hs.setvar(fr["fid"], h.name, T("excval", lid))
                H = self.exec_block(h.body, hs, fr)
                flow.returns += H.returns
                flow.breaks += H.breaks
                flow.continues += H.continues
                flow.raises += H.raises
                if H.normal is not None:
                    flow.normal = self.join(exc, H.normal, flow.normal, pcx) if flow.normal is not None else H.normal
        else:
            flow.raises += A.raises
        if s.finalbody:
            def fin(x):
                F = self.exec_block(s.finalbody, x, fr)
                return F
            if flow.normal is not None:
                F = fin(flow.normal)
                flow.normal = F.normal
                flow.absorb(F)
            rets = []
            for x, v in flow.returns:
                F = fin(x)
                if F.normal is not None:
                    rets.append((F.normal, v))
            flow.returns = rets
            # exceptional exit also runs the finally block
            self.pc_add(pre, T("exc", lid), True)
            fin(pre)
        return flow

    s_TryStar = s_Try

    def s_Break(self, s, st, fr):
        f = Flow(None)
        f.breaks.append(st)
        return f

    def s_Continue(self, s, st, fr):
        f = Flow(None)
        f.continues.append(st)
        return f

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)

        def go(cases, x):
            if not cases:
                return Flow(x)
            c = cases[0]
            t = self.match_cond(c.pattern, subj, x, fr)
            if c.guard is not None:
                g = self.ev(c.guard, x, fr)
                t = conj([t, g])
            return self.branch(t, x, lambda y: self.exec_block(c.body, y, fr), lambda y: go(cases[1:], y))
        return go(list(s.cases), st)

    def match_cond(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return self.compare("==", subj, self.ev(p.value, st, fr), st)
        if isinstance(p, ast.MatchSingleton):
            return self.compare("is", subj, const(p.value), st)
        if isinstance(p, ast.MatchOr):
            return disj([self.match_cond(q, subj, st, fr) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            if p.name:
                st.setvar(fr["fid"], p.name, subj)
            if p.pattern is None:
                return TRUE
            return self.match_cond(p.pattern, subj, st, fr)
        return T("matches", subj, ast.dump(p))

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st, fr):
        itv = self.ev(s.iter, st, fr)
        xs = self.as_items(itv, st)
        if xs is not None and len(xs) <= UNROLL:
            flow = Flow(st)
            brk = []
            cur = st
            for x in xs:
                if cur is None:
                    break
                guard = None
                if x.op == "maybe":
                    guard, x = x.args

                def one(y, x=x):
                    self.assign(s.target, x, y, fr)
                    return self.exec_block(s.body, y, fr)
                if guard is not None:
                    F = self.branch(guard, cur, one, lambda y: Flow(y))
                else:
                    F = one(cur)
                flow.returns += F.returns
                flow.raises += F.raises
                brk += F.breaks
                cur = F.normal
                for c in F.continues:
                    cur = self.join_by_pc(c, cur)
            flow.normal = cur
            if s.orelse and flow.normal is not None:
                E = self.exec_block(s.orelse, flow.normal, fr)
                flow.absorb(E)
                flow.normal = E.normal
            for b in brk:
                flow.normal = self.join_by_pc(b, flow.normal)
            return flow
        return self.sym_loop(s, st, fr, itv)

    s_AsyncFor = s_For

    def s_While(self, s, st, fr):
        if not self.graph:
            return self.sym_loop(s, st, fr, None)
        # unroll while the condition is decided
        flow = Flow(st)
        brk = []
        cur = st
        for _ in range(400):
            d = self.truth(cur, self.ev(s.test, cur, fr))
            if d is not True:
                break
            F = self.exec_block(s.body, cur, fr)
            flow.returns += F.returns
            flow.raises += F.raises
            brk += F.breaks
            cur = F.normal
            for c in F.continues:
                cur = self.join_by_pc(c, cur)
            if cur is None:
                break
        else:
            d = None
        if cur is not None and d is None:
            F = self.sym_loop(s, cur, fr, None)
            flow.absorb(F)
            cur = F.normal
        elif cur is not None and s.orelse:
            E = self.exec_block(s.orelse, cur, fr)
            flow.absorb(E)
            cur = E.normal
        for b in brk:
            cur = self.join_by_pc(b, cur)
        flow.normal = cur
        return flow

    def join_by_pc(self, a, b):
        """join a (reached under a.pc) with b."""
        if b is None:
            return a
        if a is None:
            return b
        common = []
        for x in a.pc:
            if x in b.pc:
                common.append(x)
        extra = [x for x in a.pc if x not in b.pc]
        c = conj([t if p else neg(t) for t, p in extra])
        if c is TRUE:
            c = T("choice", self.new_lid())
        return self.join(c, a, b, tuple(common))

    def sym_loop(self, s, st, fr, itv):
        self.undecided("of a loop", st)
        lid = self.new_lid()
        is_for = itv is not None
        elem = self.elem_of(itv, st, lid) if is_for else None
        # pass 1: discover modified slots
        probe = st.fork()
        self.mute += 1
        try:
            F = self._loop_body(s, probe, fr, elem)
            ends = [x for x in [F.normal] + F.continues + F.breaks if x is not None]
        finally:
            self.mute -= 1
        changed = []
        for e in ends:
            for fid, d in e.frames.items():
                d0 = st.frames.get(fid)
                if d0 is None or d is d0:
                    continue
                for k, v in d.items():
                    if d0.get(k) is not v and ("v", fid, k) not in changed:
                        changed.append(("v", fid, k))
            for oid, o in e.heap.items():
                o0 = st.heap.get(oid)
                if o0 is None or o is o0:
                    continue
                if o.kind == "inst":
                    for k, v in o.fields.items():
                        if o0.fields.get(k) is not v and ("f", oid, k) not in changed:
                            changed.append(("f", oid, k))
                elif o.items != o0.items and ("o", oid, "") not in changed:
                    changed.append(("o", oid, ""))
        info = {"slots": {}, "iter": self.snap(st, itv) if is_for else None, "kind": "for" if is_for else "while",
                "cond": None, "elem": elem, "node": s, "breaks": bool(F.breaks)}
        self.loops[lid] = info
        pre = st
        body = st.fork()
        inits = {}
        for kind, a, k in changed:
            if kind == "v":
                init = st.frames.get(a, {}).get(k)
                if init is None:
                    continue
                slot = f"{k}@{a}"
                lv = T("loopvar", lid, slot)
                inits[slot] = init
                body.setvar(a, k, lv)
            elif kind == "f":
                o = body.heap[a]
                init = st.heap[a].fields.get(k)
                if init is None:
                    init = T("attr", o.base, k) if o.base is not None else T("unset", k)
                slot = f"{o.name or 'obj'}.{k}@{a}"
                inits[slot] = init
                d = dict(o.fields)
                d[k] = T("loopvar", lid, slot)
                body.setobj(a, o.copy(fields=d))
        self.pc_add(body, T("inloop", lid), True)
        F = self._loop_body(s, body, fr, elem, info)
        flow = Flow()
        flow.returns += F.returns
        flow.raises += F.raises
        end = F.normal
        for c in F.continues:
            end = self.join_by_pc(c, end)
        after = pre.fork()
        ends = [x for x in [end] + F.breaks if x is not None]
        for kind, a, k in changed:
            outs = []
            for e in ends:
                if kind == "v":
                    outs.append(e.frames.get(a, {}).get(k))
                elif kind == "f":
                    outs.append(e.heap[a].fields.get(k) if a in e.heap else None)
            if kind in ("v", "f"):
                outs = [o for o in outs if o is not None]
                out = outs[0] if outs else T("undef", k)
                for o in outs[1:]:
                    out = ite(T("brk", lid), o, out)
                slot = f"{k}@{a}" if kind == "v" else f"{(pre.heap[a].name or 'obj')}.{k}@{a}"
                if slot in inits:
                    info["slots"][slot] = (inits[slot], out)
                    if out is T("loopvar", lid, slot):
                        val = inits[slot]
                    else:
                        val = T("loopout", lid, slot)
                else:
                    val = T("lastiter", lid, out)
                if kind == "v":
                    after.setvar(a, k, val)
                else:
                    o = after.heap[a]
                    d = dict(o.fields)
                    d[k] = val
                    after.setobj(a, o.copy(fields=d))
            else:
                o0 = pre.heap[a]
                e = ends[0] if ends else None
                if e is None or a not in e.heap:
                    continue
                o1 = e.heap[a]
                if o1.kind in ("list", "set"):
                    n = len(o0.items)
                    if o1.items[:n] == o0.items:
                        new = o1.items[n:]
                        after.setobj(a, o0.copy(items=o0.items + ((T("each", lid, *new),) if new else ())))
                    else:
                        after.setobj(a, o0.copy(items=(T("each", lid, *(o0.items + o1.items)),)))
                elif o1.kind == "dict":
                    out = list(o0.items)
                    k0 = dict(o0.items)
                    for kk, vv in o1.items:
                        if kk in k0 and k0[kk] is vv:
                            continue
                        if kk in k0:
                            self._dset(out, kk, T("loopsel", lid, vv, k0[kk]))
                        else:
                            self._dset(out, kk, T("each", lid, vv))
                    after.setobj(a, o0.copy(items=tuple(out)))
        # objects allocated in the loop stay reachable
        for e in ends:
            for oid, o in e.heap.items():
                if oid not in after.heap:
                    after.heap[oid] = o
            for fid, d in e.frames.items():
                if fid not in after.frames:
                    after.frames[fid] = d
        flow.normal = after
        if s.orelse:
            E = self.exec_block(s.orelse, after, fr)
            flow.absorb(E)
            flow.normal = E.normal
        return flow

    def _loop_body(self, s, st, fr, elem, info=None):
        if isinstance(s, ast.While):
            t = self.ev(s.test, st, fr)
            if info is not None:
                info["cond"] = t
            if self.truth(st, t) is False:
                return Flow(st)
            self.pc_add(st, t, True)
        else:
            self.assign(s.target, elem, st, fr)
        return self.exec_block(s.body, st, fr)

    def elem_of(self, itv, st, lid):
        """symbolic element of an iterable."""
        itv = self.refine(st, itv)
        if itv.op == "zipv":
            return T("tuple", *[self.elem_of(x, st, lid) for x in itv.args])
        if itv.op == "enumv":
            e = self.elem_of(itv.args[0], st, lid)
            return T("tuple", binop("+", T("idx", lid), itv.args[1]), e)
        if itv.op == "itemsv":
            d = self.snap(st, itv.args[0])
            return T("tuple", T("key", lid, d), T("valof", lid, d))
        if itv.op == "keysv":
            return T("key", lid, self.snap(st, itv.args[0]))
        if itv.op == "valuesv":
            return T("valof", lid, self.snap(st, itv.args[0]))
        if itv.op == "map" :
            # element of a comprehension result: re-use its element term
            return subst(itv.args[1], {T("lidmark", itv.args[0]): T("lidmark", lid)})
        o = self.obj(st, itv)
        if o is not None and o.kind == "dict":
            return T("key", lid, self.snap(st, itv))
        return T("elem", lid, self.snap(st, itv))

    def as_items(self, v, st):
        """finite known sequence of values, or None."""
        v = self.refine(st, v)
        bad = ("each", "star")
        if v.op == "ite":
            a = self.as_items(v.args[1], st)
            b = self.as_items(v.args[2], st) if a is not None else None
            if b is None or len(a) != len(b) or any(x.op == "maybe" for x in a + b):
                return None
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        if v.op == "tuple":
            return None if any(x.op in bad for x in v.args) else list(v.args)
        if v.op in ("list", "set"):
            return None if any(x.op in bad for x in v.args) else list(v.args)
        if v.op == "dict":
            if any(k.op == "dstar" or x.op in bad for k, x in v.args[0]):
                return None
            return [k for k, x in v.args[0]]
        if v.op == "const" and isinstance(v.args[0], str) and len(v.args[0]) <= (200 if self.graph else 8):
            return [const(c) for c in v.args[0]]
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if o is None:
                return None
            if o.kind in ("list", "set", "iter"):
                return None if any(x.op in bad for x in o.items) else list(o.items)
            if o.kind == "dict":
                if any(k.op == "dstar" or x.op in bad for k, x in o.items):
                    return None
                return [T("maybe", x.args[0], k) if x.op == "maybe" else k for k, x in o.items]
            return None
        if v.op == "carr":
            return list(v.args)
        if v.op == "nd" and v.args[0].ndim:
            return [nd_.wrap(v.args[0][i]) for i in range(v.args[0].shape[0])]
        if v.op == "arr" and self.unroll and v.args[1].op == "tuple" and v.args[1].args and v.args[1].args[0].op == "const":
            return [self.get_item(v, const(i), st) for i in range(v.args[1].args[0].args[0])]
        if v.op in ("itemsv", "valuesv", "keysv"):
            o = self.obj(st, v.args[0])
            its = o.items if o is not None and o.kind == "dict" else v.args[0].args[0] if v.args[0].op == "dict" else None
            if its is None or any(k.op == "dstar" or x.op in bad for k, x in its):
                return None
            out = []
            for k, x in its:
                g = None
                if x.op == "maybe":
                    g, x = x.args
                r = {"itemsv": T("tuple", k, x), "valuesv": x, "keysv": k}[v.op]
                out.append(T("maybe", g, r) if g is not None else r)
            return out
        if v.op == "gradof" and isinstance(v.args[1], T) and v.args[1].op in ("list", "tuple") and not any(x.op in bad for x in v.args[1].args):
            return [T("item", v, const(i)) for i in range(len(v.args[1].args))]
        if v.op == "zipv":
            cols = [self.as_items(x, st) for x in v.args]
            if any(c is None for c in cols) or not cols:
                return None
            return [T("tuple", *r) for r in zip(*cols)]
        if v.op == "enumv":
            c = self.as_items(v.args[0], st)
            if c is None:
                return None
            return [T("tuple", binop("+", const(i), v.args[1]), x) for i, x in enumerate(c)]
        if v.op == "rangev":
            a = [x.args[0] for x in v.args if x.op == "const" and isinstance(x.args[0], int)]
            if len(a) == len(v.args):
                r = range(*a)
                if len(r) <= UNROLL:
                    return [const(i) for i in r]
        if v.op == "revv":
            c = self.as_items(v.args[0], st)
            return list(reversed(c)) if c is not None else None
        return None

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.get("globals", ()):
                self.emit("setglobal", st, t, name=t.id, value=v, module=fr["module"].name)
                self.gcache[(fr["module"].name, t.id)] = v
                return
            if t.id in fr.get("nonlocals", ()):
                fid = self.find_frame(t.id, fr, st, skip=True)
                if fid is not None:
                    self.emit("setnonlocal", st, t, name=t.id, value=v)
                    st.setvar(fid, t.id, v)
                    return
            st.setvar(fr["fid"], t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            xs = self.as_items(v, st)
            v2 = self.refine(st, v)
            if xs is None and v2.op == "ref":
                o = st.heap.get(v2.args[0])
                if o is not None and o.kind == "inst":
                    it = self.iter_instance(v2, st, t)
                    if it is not None:
                        xs = it
            if xs is None and v2.op == "ite" and not stars:
                xs = self.unpack(v2, n, st, t)
            if stars:
                i = stars[0]
                after = n - i - 1
                if xs is not None and len(xs) >= n - 1:
                    for e, x in zip(t.elts[:i], xs[:i]):
                        self.assign(e, x, st, fr)
                    mid = xs[i:len(xs) - after]
                    self.assign(t.elts[i].value, self.new_list(st, mid), st, fr)
                    for e, x in zip(t.elts[i + 1:], xs[len(xs) - after:]):
                        self.assign(e, x, st, fr)
                else:
                    for j, e in enumerate(t.elts[:i]):
                        self.assign(e, self.get_item(v, const(j), st), st, fr)
                    self.assign(t.elts[i].value, T("item", v, T("slice", const(i), const(-after) if after else NONE, NONE)), st, fr)
                    for j, e in enumerate(t.elts[i + 1:]):
                        self.assign(e, self.get_item(v, const(j - after), st), st, fr)
                return
            for j, e in enumerate(t.elts):
                if xs is not None and j < len(xs):
                    x = xs[j]
                    if x.op == "maybe":
                        x = x.args[1]
                else:
                    x = self.get_item(v, const(j), st)
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.set_attr(b, self.mangle(t.attr, fr), v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            self.set_item(b, k, v, st, t)

    def closed_class(self, ci):
        """every attribute of an instance is an assignment to self or a class member"""
        for c in self.prog.mro(ci):
            if "__getattr__" in c.methods or "__getattribute__" in c.methods or c.is_dataclass:
                return False
            for b in c.node.bases:
                n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                if n not in ("ABC", "object") and n not in {x.name for x in self.prog.mro(ci)}:
                    return False
        return True

    def unpack(self, v, n, st, node):
        """exactly n items of v (distributing over ite arms), or None"""
        v = self.refine(st, v)
        if v.op == "ite":
            a, b = self.unpack(v.args[1], n, st, node), self.unpack(v.args[2], n, st, node)
            if a is None or b is None:
                return None
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        xs = self.as_items(v, st)
        o = self.obj(st, v)
        if xs is None and o is not None and o.kind == "inst":
            xs = self.iter_instance(v, st, node)
        if self.nd and v.op == "call":
            k = b_lenterm(v)
            if k.op == "const" and k.args[0] != n:
                self.fails(st, node, f"{k.args[0]} values for {n} targets")
                return [T("never")] * n
        return xs if xs is not None and len(xs) == n and not any(x.op == "maybe" for x in xs) else None

    def iter_instance(self, ref, st, node):
        o = st.heap[ref.args[0]]
        f = self.prog.find(o.cls, "__iter__") if o.cls else None
        if not f:
            return None
        r = self.call_method(ref, "__iter__", [], {}, st, node)
        return self.as_items(r, st)

    def set_item(self, b, k, v, st, node):
        b = self.refine(st, b)
        o = self.obj(st, b)
        self.emit("setitem", st, node, obj=b, key=k, value=v)
        if b.op == "ite":
            # weak update on both
            for c, x in ((b.args[0], b.args[1]), (neg(b.args[0]), b.args[2])):
                ox = self.obj(st, x)
                if ox is not None and ox.kind == "dict":
                    out = list(ox.items)
                    old = dict(ox.items).get(k)
                    self._dset(out, k, ite(c, v, old) if old is not None else T("maybe", c, v))
                    st.setobj(x.args[0], ox.copy(items=tuple(out)))
            return
        if b.op == "objdict":
            if k.op == "const" and isinstance(k.args[0], str):
                self.set_attr(b.args[0], k.args[0], v, st, node)
            return
        if o is None:
            return
        if o.kind == "dict":
            out = list(o.items)
            self._dset(out, k, v)
            st.setobj(b.args[0], o.copy(items=tuple(out)))
        elif o.kind == "list":
            if k.op == "const" and isinstance(k.args[0], int) and not any(x.op in ("each", "star", "maybe") for x in o.items) and -len(o.items) <= k.args[0] < len(o.items):
                xs = list(o.items)
                xs[k.args[0]] = v
                st.setobj(b.args[0], o.copy(items=tuple(xs)))
            else:
                st.setobj(b.args[0], o.copy(items=(T("each", self.new_lid(), *(o.items + (v,))),)))
        elif o.kind == "inst" and o.cls is not None and self.prog.find(o.cls, "__setitem__"):
            self.call_method(b, "__setitem__", [k, v], {}, st, node)

    def set_attr(self, b, name, v, st, node):
        b = self.refine(st, b)
        if b.op == "ite":
            for c, x in ((b.args[0], b.args[1]), (neg(b.args[0]), b.args[2])):
                if self.obj(st, x) is not None:
                    old = self.get_attr(x, name, st, node)
                    self.set_attr(x, name, ite(c, v, old), st, node)
            return
        o = self.obj(st, b)
        if o is not None and o.kind == "inst":
            if o.cls is not None:
                f = self.prog.find(o.cls, name, kinds=("setters",))
                if f:
                    clo = self.func_closure(f[1], st)
                    self.call_closure(clo, [b, v], {}, st, node)
                    return
            self.emit("setattr", st, node, obj=b, attr=name, value=v)
            d = dict(o.fields)
            d[name] = v
            st.setobj(b.args[0], o.copy(fields=d))
            return
        self.emit("setattr", st, node, obj=b, attr=name, value=v)

    @staticmethod
    def mangle(name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.get("cls") is not None:
            return f"_{fr['cls'].name.lstrip('_')}{name}"
        return name

    # ----------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError("step budget exhausted")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return T("opaque", type(e).__name__, ast.dump(e)[:200])
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def find_frame(self, name, fr, st, skip=False):
        f = fr
        if skip:
            f = f.get("parent")
        while f is not None:
            d = st.frames.get(f["fid"])
            if d is not None and name in d:
                return f["fid"]
            f = f.get("parent")
        return None

    def e_Name(self, e, st, fr):
        fid = self.find_frame(e.id, fr, st)
        if fid is not None:
            v = st.frames[fid][e.id]
            return self.refine(st, v)
        return self.global_value(fr["module"], e.id, st)

    def cls_term(self, ci):
        key = ci.qual if ci.frame is None else f"{ci.qual}#{id(ci.node)}"
        self.classes[key] = ci
        return T("cls", key)

    def global_value(self, m, name, st):
        key = (m.name, name)
        if key in self.gcache:
            return self.gcache[key]
        r = self.prog.resolve(m, name)
        if r is None:
            if name in BUILTINS:
                v = T("ext", f"builtins.{name}")
            else:
                v = T("ext", f"{m.name}.{name}" if name != "__name__" else "__name__")
        elif r[0] == "func":
            v = self.func_closure(r[1], st)
        elif r[0] == "class":
            v = self.cls_term(r[1])
        elif r[0] == "module":
            v = T("pkgmod", r[1].name)
        elif r[0] == "ext":
            v = T("ext", ALIAS.get(r[1], r[1]))
        else:
            _, mm, node = r
            if key in self.gbusy:
                return T("ext", f"{m.name}.{name}")
            self.gbusy.add(key)
            fr2 = {"fid": -1, "module": mm, "cls": None, "parent": None}
            self.mute += 1
            try:
                gst = State(heap=st.heap)
                v = self.ev(node, gst, fr2)
                v = self.snap(gst, v) if v.op != "ref" or self.obj(gst, v) is None or self.obj(gst, v).kind != "inst" else v
                if v.op in ("call", "opaque") :
                    v = T("glob", f"{mm.name}.{name}", v)
            except AnalysisError:
                v = T("ext", f"{m.name}.{name}")
            finally:
                self.mute -= 1
                self.gbusy.discard(key)
        if v.op in ("list", "dict", "set"):
            # a module level container: immutable view
            self.gcache[key] = v
            return v
        self.gcache[key] = v
        return v

    def func_closure(self, fi, st):
        key = ("fi", id(fi))
        if key in self.clo_by_site:
            return self.clo_by_site[key]
        self._cid += 1
        c = Closure(fi.node, None, fi.module, fi.cls, fi.name, None, None, fi.qual)
        t = T("clo", self._cid, fi.qual)
        self.closures[t] = c
        self.clo_by_site[key] = t
        return t

    def make_closure(self, node, st, fr, name):
        self._cid += 1
        defaults = [self.ev(d, st, fr) for d in node.args.defaults]
        kwd = [self.ev(d, st, fr) if d is not None else None for d in node.args.kw_defaults]
        q = f"{fr.get('qual', '?')}.{name}"
        c = Closure(node, fr["fid"], fr["module"], fr.get("cls"), name, defaults, kwd, q)
        c.local = fr
        t = T("clo", self._cid, q)
        self.closures[t] = c
        return t

    def apply_decorator(self, d, v, st, fr):
        from . import models
        try:
            dv = self.ev(d, st, fr)
        except AnalysisError:
            return v
        if dv.op == "clo":
            return self.call(dv, [v], {}, st, d)
        if dv.op == "partialv" and dv.args[0].op == "ext":
            return v
        if dv.op == "ext" or (dv.op == "call"):
            return v
        return v

    def e_Lambda(self, e, st, fr):
        return self.make_closure(e, st, fr, "<lambda>")

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        return self.get_attr(b, self.mangle(e.attr, fr), st, e)

    def class_attr(self, ci, name, st):
        r = self.prog.find(ci, name, kinds=("attrs",))
        if not r:
            return None
        _, node, c = r
        key = ("clsattr", c.qual, name)
        if key in self.gcache:
            return self.gcache[key]
        fr = {"fid": -2, "module": c.module, "cls": c, "parent": None, "qual": c.qual}
        self.mute += 1
        try:
            gst = State(heap=st.heap)
            gst.frames[-2] = {}
            # other class attributes are in scope
            for k, n2 in c.attrs.items():
                if isinstance(node, ast.AST) and k != name and any(isinstance(x, ast.Name) and x.id == k for x in ast.walk(node)):
                    gst.setvar(-2, k, self.ev(n2, gst, fr))
            v = self.snap(gst, self.ev(node, gst, fr))
        finally:
            self.mute -= 1
        self.gcache[key] = v
        return v

    def get_attr(self, b, name, st, node):
        b = self.refine(st, b)
        if b.op == "ite":
            x = self.get_attr_try(b.args[1], name, st.fork(), node)
            y = self.get_attr_try(b.args[2], name, st.fork(), node)
            return ite(b.args[0], x, y)
        return self.get_attr_try(b, name, st, node)

    def get_attr_try(self, b, name, st, node):
        b = self.refine(st, b)
        if b.op == "ite":
            return self.get_attr(b, name, st, node)
        if b.op == "ext":
            q = f"{b.args[0]}.{name}"
            q = ALIAS.get(q, q)
            h = self.hooks.get(q)
            return h if isinstance(h, T) else T("ext", q)
        if b.op == "pkgmod":
            m = self.prog.modules[b.args[0]]
            r = self.prog.resolve(m, name)
            if r is None:
                return T("ext", f"{m.name}.{name}")
            return self.global_value(m, name, st)
        if b.op == "nd":
            r = self.ndop(st, node, lambda: nd_.attr(self, b, name, st))
            return r if r is not None else T("attr", b, name)
        if b.op == "carr":
            r = carr_.attr(b, name)
            if r is not None:
                return r
        if b.op == "arr" and name == "shape":
            return b.args[1]
        if self.carr and name == "size" and b.op not in ("ref", "sym", "const"):
            try:
                sh = shapes.infer(b)
            except shapes.ShapeError:
                sh = None
            if sh is not None and all(d.op == "const" for d in sh):
                return const(math.prod(d.args[0] for d in sh))
        if self.carr and name in ("shape", "ndim") and b.op not in ("ref", "sym", "arr", "const"):
            try:
                sh = shapes.infer(b)
            except shapes.ShapeError:
                sh = None
            if sh is not None:
                return T("tuple", *sh) if name == "shape" else const(len(sh))
        if b.op == "arr" and name == "ndim" and b.args[1].op == "tuple":
            return const(len(b.args[1].args))
        if b.op == "ndwrap" and name in ("shape", "ndim", "dtype"):
            # numpy stores dicts, objects and scalars as 0-d arrays
            o = self.obj(st, b.args[0])
            if o is not None and o.kind in ("dict", "inst") or b.args[0].op == "const":
                if name == "shape":
                    return T("tuple")
                if name == "ndim":
                    return const(0)
                if o is not None or b.args[0] is NONE:
                    return T("ext", "builtins.object")
        if b.op == "npzfile" and name == "files":
            its = self.dict_items(b.args[0], st) or []
            return T("tuple", *[k for k, _ in its])
        if b.op == "superv":
            ref, after = b.args[0], self.classes[b.args[1]]
            o = self.obj(st, ref)
            ci = o.cls if o is not None else (self.classes.get(ref.args[0]) if ref.op == "cls" else None)
            if ci is None:
                return T("attr", b, name)
            r = self.prog.find(ci, name, after=after, kinds=("methods", "props", "attrs"))
            if not r:
                return T("attr", b, name)
            if r[0] == "methods":
                return T("bm", self.func_closure(r[1], st), ref)
            if r[0] == "props":
                return self.call_closure(self.func_closure(r[1], st), [ref], {}, st, node)
            return self.class_attr(r[2], name, st)
        if b.op == "ref":
            o = st.heap.get(b.args[0])
            if o is not None and o.kind == "inst":
                if name == "__dict__":
                    return T("objdict", b)
                if name == "__class__" and o.cls is not None:
                    return self.cls_term(o.cls)
                if name == "__module__" and o.cls is not None:
                    return const(o.cls.module.name)
                if o.cls is not None:
                    r = self.prog.find(o.cls, name, kinds=("props",))
                    if r:
                        # a method defined below in the MRO overrides
                        return self.call_closure(self.func_closure(r[1], st), [b], {}, st, node)
                if name in o.fields:
                    v = self.refine(st, o.fields[name])
                    if o.base is not None and contains(v, lambda x: x is T("attr", o.base, name)):
                        self.emit("getattr", st, node, obj=b, attr=name)
                    return v
                if o.cls is not None:
                    r = self.prog.find(o.cls, name, kinds=("methods", "attrs"))
                    if r and r[0] == "methods":
                        if r[1].kind == "static":
                            return self.func_closure(r[1], st)
                        if r[1].kind == "classmethod":
                            return T("bm", self.func_closure(r[1], st), self.cls_term(o.cls))
                        return T("bm", self.func_closure(r[1], st), b)
                    if r and o.base is None:
                        return self.class_attr(o.cls, name, st)
                    if r and o.base is not None and name.startswith("__") and name.endswith("__"):
                        return T("attr", o.base, name)
                    if r and not self.assigned_attr(o.cls, name):
                        return self.class_attr(o.cls, name, st)
                if o.base is not None:
                    self.emit("getattr", st, node, obj=b, attr=name)
                    return T("attr", o.base, name)
                if self.nd and o.cls is not None and not name.startswith("__") and not any(k.startswith("$dyn") for k in o.fields) and self.closed_class(o.cls):
                    return self.fails(st, node, f"{o.cls.name} object has no attribute {name}")
                return T("attr", b, name)
            return T("attr", b, name)
        if b.op == "cls":
            ci = self.classes[b.args[0]]
            r = self.prog.find(ci, name, kinds=("methods", "attrs", "props"))
            if r and r[0] == "methods":
                if r[1].kind == "classmethod":
                    return T("bm", self.func_closure(r[1], st), b)
                return self.func_closure(r[1], st)
            if r and r[0] == "attrs":
                return self.class_attr(ci, name, st)
            if name in ("__name__", "__qualname__"):
                return const(ci.name)
            if name == "__module__":
                return const(ci.module.name)
            return T("attr", b, name)
        if b.op == "attr" and b.args[0].op == "cls" and name in ("fget", "fset", "__get__", "__set__"):
            r = self.prog.find(self.classes[b.args[0].args[0]], b.args[1], kinds=("setters",) if name in ("fset", "__set__") else ("props",))
            if r:
                return self.func_closure(r[1], st)
        if b.op == "inst":
            for k, v in b.args[1]:
                if k == name:
                    return v
            ci = self.classes.get(b.args[0]) or next((c for c in self.all_classes() if c.qual == b.args[0]), None)
            if ci is not None:
                r = self.prog.find(ci, name, kinds=("methods", "props"))
                if r and r[0] == "methods":
                    return T("bm", self.func_closure(r[1], st), b)
        return T("attr", b, name)

    def all_classes(self):
        for m in self.prog.modules.values():
            for g in m.globals.values():
                if isinstance(g, tuple) and g[0] == "class":
                    yield g[1]

    _assigned = {}

    def assigned_attr(self, ci, name):
        """is `self.<name>` assigned anywhere in the class hierarchy?"""
        for c in self.prog.mro(ci):
            key = (id(c.node),)
            s = self._assigned.get(key)
            if s is None:
                s = set()
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        s.add(n.attr)
                self._assigned[key] = s
            if name in s or any(name.endswith(x) and name.startswith("_") and x.startswith("__") for x in s):
                return True
        return False

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        k = self.ev(e.slice, st, fr)
        return self.get_item(b, k, st, e)

    def e_Slice(self, e, st, fr):
        g = lambda x: self.ev(x, st, fr) if x is not None else NONE
        return T("slice", g(e.lower), g(e.upper), g(e.step))

    def get_item(self, b, k, st, node=None):
        b = self.refine(st, b)
        if b.op == "ite":
            return ite(b.args[0], self.get_item(b.args[1], k, st, node), self.get_item(b.args[2], k, st, node))
        o = self.obj(st, b)
        if o is not None:
            if o.kind == "dict":
                for kk, v in o.items:
                    if kk is k:
                        return self.refine(st, v.args[1] if v.op == "maybe" else v)
                for kk, v in reversed(o.items):
                    if kk.op == "dstar":
                        return self.get_item(v, k, st)
                if k.op == "const" and all(kk.op == "const" for kk, _ in o.items):
                    if o.name == "defaultdict":
                        v = self.call(o.base, [], {}, st, node)
                        st.setobj(b.args[0], st.heap[b.args[0]].copy(items=o.items + ((k, v),)))
                        return v
                    if o.name == "counter":
                        return const(0)
                    self.emit("missingkey", st, node, obj=b, key=k)
                    if self.graph:
                        self.dead(st)
                        return T("never")
                return T("item", self.snap(st, b), k)
            if o.kind == "list" or o.kind == "set" and self.nd:  # an ordered set
                if k.op == "const" and isinstance(k.args[0], int) and not isinstance(k.args[0], bool):
                    if self.graph and not -len(o.items) <= k.args[0] < len(o.items) and not any(x.op in ("each", "star", "maybe") for x in o.items):
                        self.emit("badindex", st, node, obj=b, key=k)
                        self.dead(st)
                        return T("never")
                    return item(T("list", *o.items), k)
                if k.op == "slice" and not any(x.op in ("each", "star", "maybe") for x in o.items):
                    sl = self._const_slice(k)
                    if sl is not None:
                        return self.new_list(st, o.items[sl])
                return T("item", self.snap(st, b), self.snap(st, k))
            if o.kind == "inst" and o.cls is not None and self.prog.find(o.cls, "__getitem__"):
                return self.call_method(b, "__getitem__", [k], {}, st, node)
        if b.op == "tuple" and k.op == "slice" and not any(x.op in ("each", "star", "maybe") for x in b.args):
            sl = self._const_slice(k)
            if sl is not None:
                return T("tuple", *b.args[sl])
        if b.op == "const" and isinstance(b.args[0], str):
            kk = k.args[0] if k.op == "const" and isinstance(k.args[0], int) else self._const_slice(k) if k.op == "slice" else None
            if kk is not None:
                try:
                    return const(b.args[0][kk])
                except IndexError:
                    self.emit("badindex", st, node, obj=b, key=k)
                    if self.graph:
                        self.dead(st)
                        return T("never")
        if b.op == "objdict" and k.op == "const":
            return self.get_attr(b.args[0], k.args[0], st, node)
        if b.op == "npzfile":
            v = self.get_item(b.args[0], k, st)
            if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] == "jax.random.key_data":
                return v  # a numeric array is stored as itself
            return T("ndwrap", v)
        if b.op == "cls":
            return b
        if b.op == "ext" and b.args[0] == "sys.modules" and k.op == "const" and k.args[0] in self.prog.modules:
            return T("pkgmod", k.args[0])
        if b.op == "ext":
            return T("generic", b, self.snap(st, k))  # e.g. PyTree[int]
        if b.op == "attr" and b.args[1] == "at":
            return T("atv", b.args[0], self.snap(st, k))
        if b.op == "nd":
            return self.ndop(st, node, lambda: nd_.get(self, b, k, st))
        if b.op == "carr":
            r = carr_.index(b, self.snap(st, k))
            if r is not None:
                return r
        if b.op == "arr" and b.args[1].op == "tuple":
            base, sh = b.args
            rest = sh.args[1:]
            if k.op == "arr" and k.args[1].op == "tuple":
                return T("arr", T("item", base, k.args[0]), T("tuple", *k.args[1].args, *rest))
            if k.op == "slice" and k is T("slice", NONE, NONE, NONE):
                return b
            r = self.arr_index(b, self.snap(st, k), st, node)
            if r is not None:
                return r
        return item(b, self.snap(st, k))

    def arr_index(self, b, k, st, node):
        """constant integers, slices, None and Ellipsis on an array of known rank"""
        base, sh = b.args
        ks = list(k.args) if k.op == "tuple" else [k]
        isint = lambda x: x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool)
        if not all(isint(x) or x is NONE or x.op == "slice" and self._const_slice(x) is not None or x is const(...) for x in ks):
            return None
        used = sum(1 for x in ks if x is not NONE and x is not const(...))
        if used > len(sh.args):
            self.emit("badindex", st, node, obj=b, key=k)
            return None
        if const(...) in ks:
            i = ks.index(const(...))
            ks = ks[:i] + [T("slice", NONE, NONE, NONE)] * (len(sh.args) - used) + ks[i + 1:]
        dims, d, first = [], 0, None
        for x in ks:
            if x is NONE:
                dims.append(const(1))
                continue
            n = sh.args[d]
            if d == 0:
                first = x
            elif not (x.op == "slice" and all(a is NONE for a in x.args)):
                return None          # only the leading axis is tracked
            if x.op == "slice":
                if all(a is NONE for a in x.args):
                    dims.append(n)
                elif n.op == "const":
                    dims.append(const(len(range(n.args[0])[self._const_slice(x)])))
                else:
                    return None
            d += 1
        dims += sh.args[d:]
        if first is not None and not (first.op == "slice" and all(a is NONE for a in first.args)):
            if base.op == "stack" and isint(first) and -len(base.args) <= first.args[0] < len(base.args):
                base = base.args[first.args[0]]
            elif isint(first):
                base = T("item", base, first)
            else:
                base = T("item", base, first)
        if NONE in ks:
            if ks[0] is NONE and first is not None and isint(first) or ks[0] is NONE and len(sh.args) == 0:
                base = T("expand", base)
            elif ks[0] is NONE:
                base = T("expand", base)
        return T("arr", base, T("tuple", *dims))

    @staticmethod
    def is_dim(x):
        """an array dimension of the analysis inputs"""
        return x.op == "sym" and x.args[0] in ("N", "M", "B", "VB")

    @staticmethod
    def _const_slice(k):
        out = []
        for x in k.args:
            if x.op != "const" or not (x.args[0] is None or isinstance(x.args[0], int)):
                return None
            out.append(x.args[0])
        return slice(*out)

    def e_Tuple(self, e, st, fr):
        return self.mk_seq("tuple", self.eval_elts(e.elts, st, fr))

    def eval_elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                xs = self.as_items(v, st)
                if xs is not None:
                    out.extend(xs)
                else:
                    out.append(T("star", self.snap(st, v)))
            else:
                out.append(self.ev(x, st, fr))
        return out

    @staticmethod
    def mk_seq(kind, xs):
        if kind == "tuple" and len(xs) == 1 and xs[0].op == "star":
            return xs[0].args[0] if xs[0].args[0].op == "sym" else T("tuple", *xs)
        return T(kind, *xs)

    def e_List(self, e, st, fr):
        return self.new_list(st, self.eval_elts(e.elts, st, fr))

    def e_Set(self, e, st, fr):
        return self.alloc(st, HObj("set", items=tuple(self.eval_elts(e.elts, st, fr))))

    def e_Dict(self, e, st, fr):
        ref = self.new_dict(st, [])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(ref, self.ev(v, st, fr), st, e, quiet=True)
            else:
                kv = self.ev(k, st, fr)
                vv = self.ev(v, st, fr)
                o = st.heap[ref.args[0]]
                out = list(o.items)
                self._dset(out, self.snap(st, kv), vv)
                st.setobj(ref.args[0], o.copy(items=tuple(out)))
        return ref

    def dict_items(self, v, st):
        """items of a dict value: list of (key,val) or None"""
        v = self.refine(st, v)
        o = self.obj(st, v)
        if o is not None and o.kind == "dict":
            return list(o.items)
        if v.op == "dict":
            return list(v.args[0])
        if v.op == "ite":
            a, b = self.dict_items(v.args[1], st), self.dict_items(v.args[2], st)
            if a is None or b is None:
                return None
            out = []
            kb = dict(b)
            ka = dict(a)
            for k, x in a:
                out.append((k, self.mmaybe(v.args[0], x, kb.get(k))))
            for k, x in b:
                if k not in ka:
                    out.append((k, self.mmaybe(v.args[0], None, x)))
            return out
        if v.op == "objdict":
            o = self.obj(st, v.args[0])
            if o is not None and o.base is None:
                return [(const(k), x) for k, x in o.fields.items()]
        return None

    def dict_update(self, ref, v, st, node, quiet=False):
        if not quiet:
            self.emit("mutcall", st, node, obj=ref, method="update", args=(v,))
        o = self.obj(st, ref)
        its = self.dict_items(v, st)
        out = list(o.items)
        if its is None:
            xs = self.as_items(v, st)
            if xs is not None and all(x.op == "tuple" and len(x.args) == 2 for x in xs):
                its = [(x.args[0], x.args[1]) for x in xs]
        if its is None:
            out.append((T("dstar", len(out)), self.snap(st, v)))
        else:
            for k, x in its:
                if x.op == "maybe":
                    old = dict(out).get(k)
                    if old is not None:
                        x = self.mmaybe(x.args[0], x.args[1], old)
                self._dset(out, k, x)
        st.setobj(ref.args[0], o.copy(items=tuple(out)))

    def list_extend(self, ref, v, st, node):
        self.emit("mutcall", st, node, obj=ref, method="extend", args=(v,))
        o = self.obj(st, ref)
        xs = self.as_items(v, st)
        if xs is None:
            vo = self.obj(st, v)
            xs = list(vo.items) if vo is not None and vo.kind == "list" else [T("star", self.snap(st, v))]
        st.setobj(ref.args[0], o.copy(items=o.items + tuple(xs)))

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.snap(st, self.ev(v.value, st, fr)))
        if all(p.op == "const" for p in parts):
            return const("".join(str(p.args[0]) for p in parts))
        return T("fstr", *parts)

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    _BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
            ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|",
            ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}

    def _binop_name(self, op):
        return self._BIN[type(op)]

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.do_binop(self._binop_name(e.op), a, b, st, e)

    def do_binop(self, op, a, b, st, node=None):
        oa, ob = self.obj(st, a), self.obj(st, b)
        if op == "|" and (oa is not None and oa.kind == "dict" or a.op == "dict") and self.dict_items(b, st) is not None:
            r = self.new_dict(st, [])
            self.dict_update(r, a, st, node, quiet=True)
            self.dict_update(r, b, st, node, quiet=True)
            return r
        if op == "+" and oa is not None and oa.kind == "list":
            xb = self.as_items(b, st)
            if xb is None:
                xb = list(ob.items) if ob is not None and ob.kind == "list" else [T("star", self.snap(st, b))]
            return self.new_list(st, list(oa.items) + xb)
        if op == "+" and ob is not None and ob.kind == "list":
            return self.new_list(st, [T("star", self.snap(st, a))] + list(ob.items))
        if op == "*" and oa is not None and oa.kind == "list" and b.op == "const" and isinstance(b.args[0], int) and b.args[0] <= 64:
            return self.new_list(st, list(oa.items) * b.args[0])
        if self.carr and op in ("/", "//", "%") and a.op == b.op == "const" and type(b.args[0]) in (int, float) and b.args[0] == 0 and type(a.args[0]) in (int, float):
            self.emit("zerodiv", st, node)
            self.dead(st)
            return T("never")
        if op in ("&", "-", "|", "^") and oa is not None and oa.kind == "set" and ob is not None and ob.kind == "set":
            xa, xb = [self.snap(st, x) for x in oa.items], [self.snap(st, x) for x in ob.items]
            if all(plain_const(x) for x in xa + xb):
                r = {"&": [x for x in xa if x in xb], "-": [x for x in xa if x not in xb],
                     "|": xa + [x for x in xb if x not in xa],
                     "^": [x for x in xa if x not in xb] + [x for x in xb if x not in xa]}[op]
                return self.alloc(st, HObj("set", items=tuple(r)))
        if op == "*" and {a.op, b.op} == {"tuple", "const"}:
            tp, k = (a, b) if a.op == "tuple" else (b, a)
            if isinstance(k.args[0], int) and k.args[0] <= 64 and not any(x.op in ("star", "each", "maybe") for x in tp.args):
                return T("tuple", *(tp.args * k.args[0]))
        for x, o in ((a, oa), (b, ob)):
            if o is not None and o.kind == "inst" and o.cls is not None:
                nm = {"+": "__add__", "-": "__sub__", "*": "__mul__", "|": "__or__", "&": "__and__"}.get(op)
                if x is a and nm and self.prog.find(o.cls, nm):
                    return self.call_method(a, nm, [b], {}, st, node)
        if self.nd and (a.op == "nd" or b.op == "nd"):
            return self.ndop(st, node, lambda: nd_.binop(self, op, a, b, st))
        if a.op == "carr" or b.op == "carr":
            f = (lambda x, y: conj([x, y])) if op == "&" else (lambda x, y: disj([x, y])) if op == "|" else (lambda x, y: binop(op, x, y))
            r = carr_.op2(f, self.snap(st, a), self.snap(st, b))
            if r is not None:
                return r
        return binop(op, self.snap(st, a), self.snap(st, b))

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            d = self.truth(st, v)
            if d is not None:
                return const(not d)
            return neg(self.cond_term(v, st))
        if v.op == "const":
            try:
                if isinstance(e.op, ast.USub):
                    return const(-v.args[0])
                if isinstance(e.op, ast.Invert):
                    return const(~v.args[0])
            except Exception:
                pass
        if v.op == "nd":
            nm = {ast.USub: "negative", ast.Invert: "logical_not"}.get(type(e.op))
            return v if nm is None else nd_.wrap(nd_.UNARY[nm](v.args[0]))
        if isinstance(e.op, ast.USub):
            v = self.snap(st, v)
            return v.args[0] if v.op == "neg" else T("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        if v.op == "carr":
            return carr_.invert(v)
        return T("invert", self.snap(st, v))

    def cond_term(self, v, st):
        return self.snap(st, v)

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        vals = []
        cur = st.fork()
        changed = False
        last = None
        for i, x in enumerate(e.values):
            v = self.ev(x, cur, fr)
            d = self.truth(cur, v)
            last = v
            if d is not None and d != is_and:
                # short circuit
                vals.append(v)
                break
            if d is None or i == len(e.values) - 1:
                vals.append(v)
            self.pc_add(cur, self.cond_term(v, cur), is_and)
        # adopt side effects (walrus, calls)
        st.frames, st.heap = cur.frames, cur.heap
        if len(vals) == 1:
            return vals[0]
        vals = [self.cond_term(v, st) for v in vals]
        return conj(vals) if is_and else disj(vals)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, st, fr)
            out.append(self.compare({ast.Is: "is", ast.IsNot: "isnot", ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<",
                                     ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "notin"}[type(op)], left, rv, st))
            left = rv
        return conj(out)

    def compare(self, op, a, b, st):
        if op in ("in", "notin"):
            r = self.member(a, b, st)
            if r is not None:
                return r if op == "in" else neg(r)
        if self.nd and op in ("is", "isnot") and b is NONE and a.op in ("call", "item") and is_leafterm(a):
            return const(op == "isnot")
        if op in ("is", "isnot") and "nd" in (a.op, b.op) and a.op != b.op and "sym" not in (a.op, b.op):
            return const(op == "isnot")
        if op in ("is", "isnot") and a.op == "clo" and b.op == "clo" and a.args[1] != b.args[1]:
            return const(op == "isnot")
        if op in ("is", "isnot") and a.op == "ref" and b.op == "ref":
            return const((a is b) == (op == "is"))
        if op in ("==", "!=") and "ref" in (a.op, b.op):
            va, vb = pyval(self.snap(st, a)), pyval(self.snap(st, b))
            if va is not None and vb is not None:
                return const((va == vb) == (op == "=="))
        if self.nd and op not in ("is", "isnot", "in", "notin") and (a.op == "nd" or b.op == "nd"):
            if a is NONE or b is NONE:
                return const(op == "!=")
            return self.ndop(st, None, lambda: nd_.binop(self, op, a, b, st))
        if self.nd and op in ("==", "!=") and a.op == b.op == "ext":
            try:
                return const((nd_.dtname(a) == nd_.dtname(b)) == (op == "=="))
            except AnalysisError:
                pass
        if op in ("==", "!=") and (dtype_obj(a) or dtype_obj(b)):
            r = dtype_eq(a, b)
            if r is not None:
                return r if op == "==" else neg(r)
        if op not in ("is", "isnot", "in", "notin") and (a.op == "carr" or b.op == "carr"):
            r = carr_.op2(lambda x, y: cmp_(op, x, y), self.snap(st, a), self.snap(st, b))
            if r is not None:
                return r
        return cmp_(op, self.snap(st, a) if op not in ("is", "isnot") else a, self.snap(st, b) if op not in ("is", "isnot") else b)

    def member(self, a, b, st):
        b = self.refine(st, b)
        o = self.obj(st, b)
        if o is not None and o.kind == "dict" or b.op == "dict":
            its = self.dict_items(b, st)
            for k, v in its:
                if k is a:
                    if v.op == "maybe":
                        return v.args[0]
                    return TRUE
            if a.op == "const" and all(k.op == "const" for k, _ in its):
                return FALSE
            return None
        xs = self.as_items(b, st) if b.op in ("tuple", "ref") else (list(b.args) if b.op in ("list", "set") else None)
        if b.op == "keysv":
            return self.member(a, b.args[0], st)
        if xs is not None and all(x.op == "const" for x in xs) and a.op == "const":
            return const(any(x is a for x in xs))
        if xs is not None and self.graph:
            va, vs = pyval(self.snap(st, a)), [pyval(self.snap(st, x)) for x in xs]
            if va is not None and None not in vs:
                return const(va in vs)
        if xs is not None:
            if any(x is a for x in xs):
                return TRUE
            ds = [dtype_eq(a, x) if dtype_obj(a) or dtype_obj(x) else cmp_("==", a, x) if a.op == x.op == "const" else None for x in xs]
            if any(d is TRUE for d in ds):
                return TRUE
            if ds and all(d is FALSE for d in ds):
                return FALSE
            return T("in", self.snap(st, a), T("tuple", *sorted(set(self.snap(st, x) for x in xs))))
        return None

    def e_IfExp(self, e, st, fr):
        t = self.ev(e.test, st, fr)
        d = self.truth(st, t)
        if d is True:
            return self.ev(e.body, st, fr)
        if d is False:
            return self.ev(e.orelse, st, fr)
        t = self.cond_term(t, st)
        a, b = st.fork(), st.fork()
        pc0 = st.pc
        self.pc_add(a, t, True)
        self.pc_add(b, t, False)
        va = self.ev(e.body, a, fr)
        vb = self.ev(e.orelse, b, fr)
        j = self.join(t, a, b, pc0)
        st.frames, st.heap = j.frames, j.heap
        return ite(t, va, vb)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Starred(self, e, st, fr):
        return T("star", self.ev(e.value, st, fr))

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        return NONE

    # comprehensions
    def comp(self, gens, st, fr, f):
        """run generators; f(st) evaluated innermost. -> ('items', [...]) or ('sym', value, iters, conds)"""
        fid = self.new_frame(st)
        fr2 = {"fid": fid, "module": fr["module"], "cls": fr.get("cls"), "parent": fr, "qual": fr.get("qual", "?"),
               "self": fr.get("self"), "globals": fr.get("globals", ()), "nonlocals": ()}
        items = []
        sym = {"iters": [], "conds": []}

        def go(i, s, guard):
            if i == len(gens):
                v = f(s, fr2)
                items.append(T("maybe", conj(guard), v) if guard else v)
                return
            g = gens[i]
            itv = self.ev(g.iter, s, fr2 if i else fr)
            xs = self.as_items(itv, s)
            if xs is not None and len(xs) <= UNROLL and not sym["iters"]:
                for x in xs:
                    gd = list(guard)
                    if x.op == "maybe":
                        gd.append(x.args[0])
                        x = x.args[1]
                    self.assign(g.target, x, s, fr2)
                    ok = True
                    pc0 = s.pc
                    for c in g.ifs:
                        t = self.ev(c, s, fr2)
                        d = self.truth(s, t)
                        if d is False:
                            ok = False
                            break
                        if d is None:
                            t = self.cond_term(t, s)
                            gd.append(t)
                            self.pc_add(s, t, True)
                    if ok:
                        go(i + 1, s, gd)
                    if self.graph and any(c_.op == "dead" for c_, _ in s.pc):
                        return
                    s.pc = pc0
            else:
                e = self.elem_of(itv, s, 0)
                sym["iters"].append(self.snap(s, itv))
                self.assign(g.target, e, s, fr2)
                pc0 = s.pc
                self.pc_add(s, T("inloop", T("iter", self.snap(s, itv))), True)
                for c in g.ifs:
                    t = self.cond_term(self.ev(c, s, fr2), s)
                    sym["conds"].append(t)
                    self.pc_add(s, t, True)
                go(i + 1, s, guard)
                s.pc = pc0
        go(0, st, [])
        return items, sym

    def e_ListComp(self, e, st, fr):
        items, sym = self.comp(e.generators, st, fr, lambda s, f2: self.ev(e.elt, s, f2))
        if not sym["iters"]:
            return self.new_list(st, items)
        return self.mk_map(items, sym, st)

    def mk_map(self, items, sym, st):
        v = self.snap(st, items[0]) if items else NONE
        its = sym["iters"]
        if not sym["conds"] and len(its) == 1 and v is T("elem", 0, its[0]):
            return T("listof", its[0])
        return T("map", 0, v, T("tuple", *its), T("tuple", *sym["conds"]))

    def e_GeneratorExp(self, e, st, fr):
        r = self.e_ListComp(e, st, fr)
        o = self.obj(st, r)
        if self.graph and o is not None and o.kind == "list" and not any(x.op == "maybe" for x in o.items):
            return self.alloc(st, HObj("iter", items=o.items))
        return r

    def e_SetComp(self, e, st, fr):
        items, sym = self.comp(e.generators, st, fr, lambda s, f2: self.ev(e.elt, s, f2))
        if not sym["iters"]:
            return self.alloc(st, HObj("set", items=tuple(items)))
        return self.mk_map(items, sym, st)

    def e_DictComp(self, e, st, fr):
        items, sym = self.comp(e.generators, st, fr, lambda s, f2: T("kv", self.snap(s, self.ev(e.key, s, f2)), self.ev(e.value, s, f2)))
        if not sym["iters"]:
            out = []
            for x in items:
                g = None
                if x.op == "maybe":
                    g, x = x.args
                out.append((x.args[0], T("maybe", g, x.args[1]) if g is not None else x.args[1]))
            return self.new_dict(st, out)
        v = self.snap(st, items[0])
        return T("dictmap", v.args[0], v.args[1], T("tuple", *sym["iters"]), T("tuple", *sym["conds"]))

    # ----------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.find_frame("super", fr, st) is None:
            if e.args:
                c = self.ev(e.args[0], st, fr)
                s = self.ev(e.args[1], st, fr)
                return T("superv", s, c.args[0]) if c.op == "cls" else T("opaque", "super")
            if fr.get("cls") is not None:
                f = fr
                while f is not None and f.get("self") is None:
                    f = f.get("parent")
                if f is not None:
                    self.cls_term(fr["cls"])
                    return T("superv", f["self"], self.cls_term(fr["cls"]).args[0])
            return T("opaque", "super")
        fn = self.ev(e.func, st, fr)
        args = self.eval_elts(e.args, st, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                its = self.dict_items(v, st)
                if its is not None and all(kk.op == "const" and isinstance(kk.args[0], str) for kk, _ in its):
                    for kk, vv in its:
                        kwargs[kk.args[0]] = vv.args[1] if vv.op == "maybe" else vv
                else:
                    kwargs["**"] = self.snap(st, v)
            else:
                kwargs[k.arg] = v
        return self.call(fn, args, kwargs, st, e)

    def call_method(self, obj, name, args, kwargs, st, node):
        return self.call(self.get_attr(obj, name, st, node), args, kwargs, st, node)

    def call(self, fn, args, kwargs, st, node):
        fn = self.refine(st, fn)
        if fn.op == "ite":
            c = fn.args[0]
            a, b = st.fork(), st.fork()
            pc0 = st.pc
            self.pc_add(a, c, True)
            self.pc_add(b, c, False)
            va = self.call(fn.args[1], args, dict(kwargs), a, node)
            vb = self.call(fn.args[2], args, dict(kwargs), b, node)
            j = self.join(c, a, b, pc0)
            st.frames, st.heap = j.frames, j.heap
            return ite(c, va, vb)
        if fn.op == "clo":
            return self.call_closure(fn, args, kwargs, st, node)
        if fn.op == "bm":
            return self.call_closure(fn.args[0], [fn.args[1]] + list(args), kwargs, st, node)
        if fn.op == "cls":
            return self.instantiate(fn, args, kwargs, st, node)
        if fn.op == "partialv":
            f, a0, k0 = fn.args
            kw = dict(k0)
            kw.update(kwargs)
            return self.call(f, list(a0) + list(args), kw, st, node)
        from . import models
        r = models.call_model(self, fn, args, kwargs, st, node)
        if r is not None:
            return r
        o = self.obj(st, fn)
        if o is not None and o.kind == "inst" and o.cls is not None and self.prog.find(o.cls, "__call__"):
            return self.call_method(fn, "__call__", args, kwargs, st, node)
        return self.opaque_call(fn, args, kwargs, st, node)

    def opaque_call(self, fn, args, kwargs, st, node):
        sa = tuple(self.snap(st, a) for a in args)
        sk = tuple(sorted((k, self.snap(st, v)) for k, v in kwargs.items()))
        r = T("call", self.snap(st, fn), sa, sk)
        self.emit("call", st, node, fn=fn, args=tuple(args), kwargs=dict(kwargs), result=r, sargs=sa, skw=dict(sk))
        return r

    def instantiate(self, cls, args, kwargs, st, node):
        ci = self.classes[cls.args[0]]
        self.emit("new", st, node, cls=ci, args=tuple(args), kwargs=dict(kwargs))
        ref = self.alloc(st, HObj("inst", cls=ci, fields={}))
        init = self.prog.find(ci, "__init__")
        if init:
            self.call_closure(self.func_closure(init[1], st), [ref] + list(args), kwargs, st, node)
        elif ci.is_dataclass or any(c.is_dataclass for c in self.prog.mro(ci)):
            names = [n for c in reversed(self.prog.mro(ci)) for n, _ in c.ann_fields]
            d = {}
            for n, a in zip(names, args):
                d[n] = a
            for k, v in kwargs.items():
                d[k] = v
            o = st.heap[ref.args[0]]
            st.setobj(ref.args[0], o.copy(fields=d))
        return ref

    def bind(self, clo, c, args, kwargs, st, node):
        """-> dict name->value"""
        a = c.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        fr0 = {"fid": -3, "module": c.module, "cls": c.cls, "parent": None, "qual": c.qual}
        env = {}
        args = list(args)
        rest = []
        n = 0
        for i, v in enumerate(args):
            if v.op == "star":
                # unknown-length positional expansion
                rest = args[i:]
                break
            if n < len(pos):
                env[pos[n]] = v
                n += 1
            else:
                rest = args[i:]
                break
        kw = dict(kwargs)
        dstar = kw.pop("**", None)
        if rest:
            if a.vararg:
                if n >= len(pos):
                    env[a.vararg.arg] = self.mk_seq("tuple", rest)
                else:
                    src = rest[0].args[0] if rest[0].op == "star" else T("tuple", *rest)
                    j = 0
                    while n < len(pos) and pos[n] not in kw:
                        env[pos[n]] = self.get_item(src, const(j), st)
                        n += 1
                        j += 1
                    env[a.vararg.arg] = T("item", src, T("slice", const(j), NONE, NONE))
            elif rest[0].op == "star":
                src = rest[0].args[0]
                j = 0
                while n < len(pos) and pos[n] not in kw:
                    env[pos[n]] = self.get_item(src, const(j), st)
                    n += 1
                    j += 1
        elif a.vararg:
            env[a.vararg.arg] = T("tuple")
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kw.items():
            if k in pos or k in kwonly:
                env[k] = v
            else:
                extra.append((const(k), v))
        # defaults
        if c.defaults is None:
            gst = State(heap=st.heap)
            gst.frames[-3] = {}
            self.mute += 1
            try:
                c.defaults = [self.snap(gst, self.ev(d, gst, fr0)) for d in a.defaults]
                c.kwdefaults = [self.snap(gst, self.ev(d, gst, fr0)) if d is not None else None for d in a.kw_defaults]
            finally:
                self.mute -= 1
        dn = pos[len(pos) - len(c.defaults):] if c.defaults else []
        for k, d in zip(dn, c.defaults):
            if k not in env:
                env[k] = T("item", dstar, const(k)) if dstar is not None else d
        for k, d in zip(kwonly, c.kwdefaults):
            if k not in env:
                env[k] = (T("item", dstar, const(k)) if dstar is not None else d) if d is not None else T("unbound", k)
        for k in pos:
            if k not in env:
                env[k] = T("item", dstar, const(k)) if dstar is not None else T("unbound", k)
        if a.kwarg:
            r = self.new_dict(st, extra)
            if dstar is not None:
                self.dict_update(r, dstar, st, node, quiet=True)
            env[a.kwarg.arg] = r
        return env

    def canonical_call(self, clo, args, kwargs, st, node):
        """opaque call of a package function, arguments bound to its signature."""
        c = self.closures[clo]
        env = self.bind(clo, c, args, kwargs, st, node)
        sk = tuple(sorted((k, self.snap(st, v)) for k, v in env.items()))
        r = T("call", T("ext", c.qual), (), sk)
        self.emit("call", st, node, fn=T("ext", c.qual), args=(), kwargs=dict(env), result=r, sargs=(), skw=dict(sk))
        return r

    def call_closure(self, clo, args, kwargs, st, node):
        c = self.closures.get(clo)
        if c is None:
            return self.opaque_call(clo, args, kwargs, st, node)
        if c.qual in self.hooks:
            r = self.hooks[c.qual](self, clo, args, kwargs, st, node)
            if r is not None:
                return r
        if c.qual in self.opaque or any(o.endswith("*") and c.qual.startswith(o[:-1]) for o in self.opaque):
            return self.canonical_call(clo, args, kwargs, st, node)
        same = sum(1 for s in self.stack if s[2] is c.node)
        if len(self.stack) >= self.max_depth or same >= self.max_same:
            return self.canonical_call(clo, args, kwargs, st, node)
        env = self.bind(clo, c, args, kwargs, st, node)
        return self.run_body(c, env, st, node, args)

    def run_body(self, c, env, st, node, args=()):
        fid = self.new_frame(st)
        st.frames[fid] = dict(env)
        fr = {"fid": fid, "module": c.module, "cls": c.cls, "parent": c.local, "qual": c.qual, "self": None}
        if c.cls is not None and c.local is None and not isinstance(c.node, ast.Lambda) and c.node.args.args + c.node.args.posonlyargs:
            first = (c.node.args.posonlyargs + c.node.args.args)[0].arg
            fr["self"] = env.get(first)
        self.funcs_seen.add(c.qual)
        binds = None
        if annot.checked(c.node):
            bad, binds = annot.check_args(self.prog, self, st, c, env)
            for p, why in bad:
                self.emit("annot", st, node, qual=c.qual, param=p, why=why)
        self.stack.append((c.module, c.qual, c.node))
        pc0 = st.pc
        try:
            if isinstance(c.node, ast.Lambda):
                v = self.ev(c.node.body, st, fr)
                return v
            gen = self._is_gen(c.node)
            if gen:
                st.setvar(fid, "$yield", self.new_list(st, []))
            flow = self.exec_block(c.node.body, st, fr)
            outs = list(flow.returns)
            if flow.normal is not None:
                outs.append((flow.normal, NONE))
            if self.graph:
                outs = [o for o in outs if not any(c_.op == "dead" for c_, _ in o[0].pc)]
            if gen:
                outs = [(s2, s2.getvar(fid, "$yield") or NONE) for s2, _ in outs]
            if not outs:
                # never returns normally
                self.emit("noreturn", st, node, qual=c.qual)
                self.dead(st)
                return T("never")
            state, val = outs[-1]
            if binds is not None:
                for s2, v2 in outs:
                    why = annot.check_return(self.prog, self, s2, c, v2, binds)
                    if why:
                        self.emit("annot", s2, node, qual=c.qual, param="return", why=why)
            for s2, v2 in reversed(outs[:-1]):
                extra = [x for x in s2.pc[len(pc0):]] if s2.pc[:len(pc0)] == pc0 else [x for x in s2.pc if x not in pc0]
                cnd = conj([t if p else neg(t) for t, p in extra])
                if cnd is TRUE:
                    cnd = T("choice", self.new_lid())
                val = ite(cnd, v2, val)
                state = self.join(cnd, s2, state, pc0)
            st.frames, st.heap = state.frames, state.heap
            # facts established by guards that raise survive the call
            if len(outs) == 1:
                keep = [x for x in state.pc if x not in pc0 and not contains(x[0], lambda y: y.op in ("inloop",))]
                st.pc = pc0 + tuple(keep)
            else:
                common = [x for x in outs[0][0].pc if all(x in o[0].pc for o in outs) and x not in pc0]
                st.pc = pc0 + tuple(common)
            return val
        finally:
            self.stack.pop()

    def ndop(self, st, node, f):
        """array operation; one that the array library rejects ends the path"""
        try:
            return f()
        except nd_.Bad as e:
            self.emit("badop", st, node, why=str(e))
            self.dead(st)
            return T("never")

    def fails(self, st, node, why):
        """an operation Python rejects ends the path"""
        self.emit("badop", st, node, why=why)
        self.dead(st)
        return T("never")

    def dead(self, st):
        self.pc_add(st, T("dead"), True)

    _gens = {}

    def _is_gen(self, node):
        r = self._gens.get(id(node))
        if r is None:
            r = False
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            self._gens[id(node)] = r
        return r

    # ------------------------------------------------------------ entry points
    def run_function(self, fi, env, st=None):
        """analyse a package function/method with given argument values."""
        st = st or State()
        clo = self.func_closure(fi, st)
        c = self.closures[clo]
        full = self.bind(clo, c, [], env, st, fi.node)
        for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
            if x.arg not in env:
                full[x.arg] = T("sym", x.arg)
        if fi.node.args.vararg and fi.node.args.vararg.arg not in env:
            full[fi.node.args.vararg.arg] = T("sym", "*" + fi.node.args.vararg.arg)
        if fi.node.args.kwarg and fi.node.args.kwarg.arg not in env:
            full[fi.node.args.kwarg.arg] = T("sym", "**" + fi.node.args.kwarg.arg)
        v = self.run_body(c, full, st, fi.node)
        return v, st
