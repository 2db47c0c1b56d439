S = {}
PRE = '''
import jax, jax.numpy as np
import parametricmatrixmodels as pmm
from parametricmatrixmodels.nonsequentialmodel import NonSequentialModel
from parametricmatrixmodels.sequentialmodel import SequentialModel
from parametricmatrixmodels.modules import BaseModule
class Rec(BaseModule):
    """identity on trees; remembers its compile key, counts its evaluations"""
    __version__ = "0.0.0"
    def __init__(self, f=lambda x: x, g=lambda s: s):
        self.f, self.g, self.key, self.n = f, g, None, np.zeros((1,))
    @property
    def name(self): return "Rec"
    def is_ready(self): return self.key is not None
    def get_num_trainable_floats(self): return 0
    def compile(self, rng, input_shape): self.key = rng
    def get_output_shape(self, input_shape): return self.g(input_shape)
    def _get_callable(self):
        def call(params, data, training, state, rng):
            return self.f(data), state + 1
        return call
    def get_params(self): return ()
    def set_params(self, p): pass
    def get_state(self): return self.n
    def set_state(self, s): self.n = s
    def get_hyperparameters(self): return {}
'''
S["p21-output-separator"] = dict(property="P21",
  edits=[("graph_util.py", """                k.removeprefix(f"{out_key}{separator}").strip(separator)
                for k in output_keys
            ],
            separator=separator,
""", """                k.removeprefix(f"{out_key}{separator}").strip(separator)
                for k in output_keys
            ],
""")],
  needs="a model with another separator than '.', and outputs routed to nested paths",
  breaks="the model output is built with the default separator: nested output paths stay one flat key",
  demo=PRE + '''
for sep in ".", "/":
    m = NonSequentialModel({"a": Rec(lambda x: x + 1), "b": Rec()},
                           {"input": ["a", "b"], "a": sep.join(["output", "u", "v"]), "b": sep.join(["output", "u", "w"])}, rng=0, separator=sep)
    X = np.arange(4.0).reshape(4, 1)
    m.compile(0, (1,))
    out = m(X)
    assert np.allclose(out["u"]["v"], X + 1) and np.allclose(out["u"]["w"], X), (sep, out)
''')
S["p21-compile-key"] = dict(property="P21",
  edits=[("nonsequentialmodel.py", "            rng, module_rng = jax.random.split(rng)\n            module = getitem", "            _, module_rng = jax.random.split(rng)\n            module = getitem")],
  needs="compiling a NonSequentialModel with several modules of the same shape",
  breaks="all modules are initialised from the same random key, so equal layers start with identical parameters",
  demo=PRE + '''
m = NonSequentialModel([Rec(), Rec()], {"input": "0", "0": "1", "1": "output"}, rng=0)
m.compile(0, (1,))
a, b = (jax.random.key_data(x.key) for x in m.modules)
assert not np.array_equal(a, b)
''')
S["p21-inference-state"] = dict(property="P21",
  edits=[("nonsequentialmodel.py", """                # update the state
                setitem_by_strpath(
                    new_state,
                    mod_path,
                    new_module_state,
                    separator=self.separator,
                )
""", """                # update the state, unless it has none
                if module_state:
                    setitem_by_strpath(
                        new_state,
                        mod_path,
                        new_module_state,
                        separator=self.separator,
                    )
""")],
  needs="a module whose state container is empty before its first evaluation and filled by it",
  breaks="the new state of a module that starts with an empty state is dropped in a NonSequentialModel",
  demo=PRE + '''
class Grow(Rec):
    def get_state(self): return ()
    def _get_callable(self):
        def call(params, data, training, state, rng):
            return data, state + (np.ones((1,)),)
        return call
m = NonSequentialModel([Grow(), Rec()], {"input": "0", "0": "1", "1": "output"}, rng=0)
m.compile(0, (1,))
_, st = m._get_callable()(m.get_params(), np.ones((2, 1)), False, m.get_state(), jax.random.key(1))
assert len(st[0]) == 1 and float(st[1][0]) == 1.0, st
''')
