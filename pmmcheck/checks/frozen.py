"""freezing modules and models built from documented options (part of P07)"""
from .ndutil import *
from .common import model_classes, concrete_modules
from . import p13, restore
from .p14 import HOOKS
from .p19 import tagof

RULE = "a module or model that is frozen, before or after it is compiled and with its copies, is not trainable, every parameter of it; unfreezing makes it trainable again"


def flags(m, model):
    """trainable flags of everything with parameters"""
    if model:
        return [x for x in leaves(py(m.method("get_trainable_modules")))]
    return [py(m.attr("trainable"))]


def run(prog, rep):
    names = {c.name: c for c in concrete_modules(prog)}
    names.update({c.name: c for c in model_classes(prog)})
    models = {c.name for c in model_classes(prog)}
    B = Inst("Bias")
    rows = [(c, (), kw, sh) for c, kw, sh, _ in p13.table(rep.tier)] + [(c, (x,), {}, sh) for c, x, sh in p13.models(rep.tier)]
    rows += [("NonSequentialModel", ({"a": [B, {"p": B}], "b": Inst("SequentialModel", [B, B])}, {"input": "a.0", "a.0": "a.1.p", "a.1.p": "b", "b": "output"}), {}, Shape(2))]
    for cls, args, kw, shape in rows:
        if cls not in names:
            continue
        tag, where = tagof(cls, args, kw, shape), prog.rel(names[cls].module.path)
        for when in ("before", "after", "again"):
            with rep.unit(f"frozen {when} {tag}"):
                m = Mod(prog, cls, args, hooks={**HOOKS, **restore.RHOOKS}, **kw)
                try:
                    if when != "before":
                        m.compile(shape)
                    free = None
                    m.method("freeze")
                    try:
                        if when != "after":
                            m.compile(shape, RNG2)
                    except Raised:
                        continue        # refuses to be frozen without values
                    m.open()
                    got = flags(m, cls in models)
                    if not all(isinstance(x, bool) for x in got):
                        raise AnalysisError(f"flags {got} not understood")
                    rep.ob("marked", f"{tag}, frozen {when} compiling", not any(got), f"after freezing, trainable is {got}", where)
                    m.method("unfreeze")
                    m.open()
                    got = flags(m, cls in models)
                    if cls not in models:
                        rep.ob("marked", f"{tag}, unfrozen after {when}", got == [True], f"after unfreezing, trainable is {got}", where)
                    else:
                        ref = Mod(prog, cls, args, hooks={**HOOKS, **restore.RHOOKS}, **kw)
                        ref.compile(shape)
                        ref.open()
                        free = flags(ref, True)
                        rep.ob("marked", f"{tag}, unfrozen after {when}", got == free, f"after unfreezing, trainable is {got}, originally {free}", where)
                except Raised as e:
                    rep.ob("marked", f"{tag}, frozen {when} compiling", False, str(e), where)
                finally:
                    rep.saw(m.I)
