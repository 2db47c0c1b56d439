"""Runtime-checked shape annotations (jaxtyping): does a call's abstract
argument, where its array shapes are known constants, satisfy the annotation
of a function decorated with jaxtyped / beartype?  Unknown parts are accepted."""
import ast

ARRAYS = {"Num", "Inexact", "Float", "Complex", "Real", "Int", "Integer", "Shaped", "Bool", "UInt", "Key", "Float32", "Float64"}


def checked(node):
    if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return False
    return any("jaxtyped" in ast.dump(d) for d in node.decorator_list)


def resolve(prog, mod, name, depth=0):
    """annotation node and module a global alias stands for, else None"""
    m = prog.modules.get(mod)
    g = m.globals.get(name) if m is not None and depth < 8 else None
    if g is None:
        return None
    if g[0] == "assign":
        return g[1], mod
    if g[0] == "from":
        return resolve(prog, g[1], g[2], depth + 1)
    return None


def leaves(I, st, t, path=()):
    """[(path, leaf term)] of a tree, None for unknown parts"""
    t = I.refine(st, t)
    o = I.obj(st, t)
    if t.op in ("tuple", "list"):
        return [y for i, x in enumerate(t.args) for y in leaves(I, st, x, path + (i,))]
    if o is not None and o.kind == "list":
        return [y for i, x in enumerate(o.items) for y in leaves(I, st, x, path + (i,))]
    if o is not None and o.kind == "dict":
        return [y for k, x in o.items for y in leaves(I, st, x, path + (k.args[0] if k.op == "const" else "?",))]
    return [(path, t)]


def shape(t):
    """list of dimension terms or None"""
    if t.op == "arr" and t.args[1].op == "tuple":
        return list(t.args[1].args)
    return None


def match(dims, shp, env, path):
    """jaxtyping dimension matching; env is updated; False on mismatch"""
    toks = dims.split()
    var = [i for i, x in enumerate(toks) if x == "..." or x.lstrip("#?").startswith("*")]
    if not var:
        if len(toks) != len(shp):
            return f"needs {len(toks)} axes, has {len(shp)}"
        pairs = list(zip(toks, [[d] for d in shp]))
    else:
        k = var[0]
        post = len(toks) - k - 1
        if len(shp) < k + post:
            return f"needs at least {k + post} axes, has {len(shp)}"
        pairs = [(toks[i], [shp[i]]) for i in range(k)] + [(toks[k], shp[k:len(shp) - post])] + [(toks[k + 1 + i], [shp[len(shp) - post + i]]) for i in range(post)]
    for tok, ds in pairs:
        name = tok
        perleaf = "?" in name
        bcast = "#" in name
        name = name.lstrip("#?*").lstrip("#?*")
        if tok == "..." or name == "" or name.startswith("_"):
            continue
        if "=" in name:
            name = name.split("=", 1)[1]
        if name.lstrip("-").isdigit():
            if ds[0].op == "const" and ds[0].args[0] != int(name):
                return f"axis of size {ds[0].args[0]} where {name} is required"
            continue
        if not name.isidentifier():
            continue
        key = (name, path) if perleaf else name
        val = tuple(ds)
        old = env.setdefault(key, val)
        if old != val and not bcast:
            if all(x.op == "const" for x in old + val):
                return f"'{tok}' is {tuple(x.args[0] for x in old)} and {tuple(x.args[0] for x in val)}"
    return None


def accept(prog, I, st, mod, ann, val, env, depth=0):
    """None if acceptable (or unknown), else the reason"""
    if ann is None or depth > 12:
        return None
    if isinstance(ann, ast.Constant):
        if isinstance(ann.value, str):
            try:
                return accept(prog, I, st, mod, ast.parse(ann.value.strip(), mode="eval").body, val, env, depth + 1)
            except SyntaxError:
                return None
        return None
    if isinstance(ann, (ast.Name, ast.Attribute)):
        nm = ann.id if isinstance(ann, ast.Name) else ann.attr
        r = resolve(prog, mod, nm) if isinstance(ann, ast.Name) else None
        if r is not None:
            return accept(prog, I, st, r[1], r[0], val, env, depth + 1)
        if nm == "DTypeLike" and val.op == "const" and isinstance(val.args[0], (int, float)):
            return f"{val.args[0]!r} is no dtype (annotation DTypeLike)"
        return None
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
        e1, e2 = dict(env), dict(env)
        a = accept(prog, I, st, mod, ann.left, val, e1, depth + 1)
        if a is None:
            env.update(e1)
            return None
        b = accept(prog, I, st, mod, ann.right, val, e2, depth + 1)
        if b is None:
            env.update(e2)
            return None
        return a
    if isinstance(ann, ast.Subscript):
        h = ann.value
        nm = h.id if isinstance(h, ast.Name) else getattr(h, "attr", None)
        args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if nm == "PyTree" and args:
            for path, x in leaves(I, st, val):
                m = leaf(prog, I, st, mod, args[0], x, env, path, depth)
                if m:
                    return m
            return None
        if nm in ARRAYS and len(args) == 2:
            return leaf(prog, I, st, mod, ann, val, env, (), depth)
        if nm in ("Tuple", "tuple") and not (len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis):
            v = I.refine(st, val)
            if v.op == "tuple" and len(v.args) == len(args):
                for a, x in zip(args, v.args):
                    m = accept(prog, I, st, mod, a, x, env, depth + 1)
                    if m:
                        return m
    return None


def leaf(prog, I, st, mod, ann, x, env, path, depth):
    if isinstance(ann, ast.Name):
        r = resolve(prog, mod, ann.id)
        if r is not None:
            return leaf(prog, I, st, r[1], r[0], x, env, path, depth + 1)
        return None
    if isinstance(ann, ast.BinOp):
        e1, e2 = dict(env), dict(env)
        a = leaf(prog, I, st, mod, ann.left, x, e1, path, depth + 1)
        if a is None:
            env.update(e1)
            return None
        b = leaf(prog, I, st, mod, ann.right, x, e2, path, depth + 1)
        if b is None:
            env.update(e2)
        return None if b is None else a
    if isinstance(ann, ast.Subscript) and isinstance(ann.slice, ast.Tuple) and len(ann.slice.elts) == 2:
        h = ann.value
        nm = h.id if isinstance(h, ast.Name) else getattr(h, "attr", None)
        d = ann.slice.elts[1]
        shp = shape(I.refine(st, x))
        if nm in ARRAYS and shp is not None and isinstance(d, ast.Constant) and isinstance(d.value, str):
            m = match(d.value, shp, env, path)
            return f"{m} (annotation \"{d.value}\")" if m else None
    return None


def check_args(prog, I, st, c, env):
    """[(parameter, reason)] for a call of closure c with bound arguments env"""
    if not checked(c.node):
        return [], {}
    a = c.node.args
    binds = {}
    out = []
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.annotation is not None and p.arg in env:
            m = accept(prog, I, st, c.module.name if hasattr(c.module, "name") else c.module, p.annotation, env[p.arg], binds)
            if m:
                out.append((p.arg, m))
    return out, binds


def check_return(prog, I, st, c, val, binds):
    return accept(prog, I, st, c.module.name if hasattr(c.module, "name") else c.module, c.node.returns, val, dict(binds))
