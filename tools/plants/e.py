S = {}
PRE = '''
import jax, jax.numpy as np
import parametricmatrixmodels as pmm
from parametricmatrixmodels.sequentialmodel import SequentialModel
from parametricmatrixmodels.modules import *
key = jax.random.key(3)
def fwd(m, params, X): return m._get_callable()(params, X, False, m.get_state(), key)[0]
'''
S["p06-sum-inplace"] = dict(property="P06",
  edits=[("model.py", "        new_model = self.__class__(self.modules)\n        new_model.append_module(other)\n        return new_model\n",
          "        self.append_module(other)\n        return self\n")],
  needs="the model is used again after model + module",
  breaks="model + module changes the model and returns it instead of a new one",
  demo=PRE + '''
a = SequentialModel([Bias()])
b = a + Tanh()
assert len(b.modules) == 2 and len(a.modules) == 1 and a is not b, (a, b)
''')
S["p02-bias-mixed"] = dict(property="P02",
  edits=[("modules/bias.py", "        if not self.real and jax.tree.all(jax.tree.map(np.isrealobj, params)):\n",
          "        if not self.real and not jax.tree.all(\n            jax.tree.map(np.iscomplexobj, params)\n        ):\n")],
  needs="a complex bias for a tree of arrays of which one is real",
  breaks="set_params refuses the very parameters the module reports",
  demo=PRE + '''
m = Bias(bias=[np.array([1.0 + 2j]), np.array([3.0, 4.0])], real=False)
m.compile(key, [(1,), (2,)])
p = m.get_params()
m.set_params(p)
assert np.allclose(m.get_params()[1], p[1])
''')
S["p19-lowrank-redrawn"] = dict(property="P19",
  edits=[("modules/lowrankaffinehermitianmatrix.py", """        if self.is_ready():
            if self.us.shape[0] != p:
                raise ValueError(
                    f"Input shape {leaf} does not match the expected "
                    f"number of features {self.us.shape[0] - 1} "
                )
            return
""", """        if self.is_ready() and self.us.shape[0] == p:
            return
""")],
  needs="vectors given for another number of features than the input has",
  breaks="the given vectors are silently replaced by random ones instead of being refused",
  demo=PRE + '''
us = np.ones((3, 4, 2), dtype=np.complex64); ls = np.ones((3, 2))
m = LowRankAffineHermitianMatrix(matrix_size=4, matrix_rank=2, bias_term=True)
m.set_params((ls, us))
m.compile(key, (2,))
assert np.allclose(m.get_params()[1], us)
m = LowRankAffineHermitianMatrix(matrix_size=4, matrix_rank=2, bias_term=True)
m.set_params((ls, us))
try:
    m.compile(key, (5,))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')
S["p01-uncompiled-frozen"] = dict(property="P01",
  edits=[("modules/basemodule.py", "        trainable = data.get(\"trainable\", None)\n        if trainable is not None:\n            self.trainable = trainable\n",
          "        trainable = data.get(\"trainable\", None)\n        if trainable is not None and self.get_params() is not None:\n            self.trainable = trainable\n")],
  needs="a frozen module that is copied or saved before it is compiled",
  breaks="a module frozen before compilation comes back trainable",
  demo=PRE + '''
b = Bias(); b.freeze()
assert b.trainable is False
assert b.copy().trainable is False
''')
S["p25-init-seed-zero"] = dict(property="P25",
  edits=[("model.py", "            if initialization_seed is None:\n", "            if initialization_seed is None or (\n                isinstance(initialization_seed, int) and not initialization_seed\n            ):\n")],
  needs="train on a model that is not compiled, with initialization_seed=0",
  breaks="the seed 0 is taken for no seed: the initial parameters differ from run to run",
  demo=PRE + '''
import random
X = jax.random.normal(key, (6, 2)); Y = X[:, :1]
out = []
for s in (1, 2):
    random.seed(s)
    m = SequentialModel([LinearNN(out_features=1)], rng=0)
    m.train(X, Y=Y, epochs=0, initialization_seed=0, batch_rng=0, verbose=False)
    out.append(jax.tree.leaves(m.get_params()))
assert all(np.allclose(a, b) for a, b in zip(*out)), out
''')
S["p03-hyper-separator"] = dict(property="P03",
  edits=[("nonsequentialmodel.py", "        self.separator = hyperparams.get(\"separator\", self.separator)\n",
          "        self.separator = self.separator or hyperparams.get(\n            \"separator\", \".\"\n        )\n")],
  needs="a NonSequentialModel with a separator other than '.', restored",
  breaks="the restored model keeps the default separator and cannot resolve its connections",
  demo=PRE + '''
from parametricmatrixmodels import NonSequentialModel
m = NonSequentialModel({"a": {"x": Bias()}, "b": Bias()}, {"input": "a/x", "a/x": "b", "b": "output"}, separator="/")
m.compile(key, (2,))
X = jax.random.normal(key, (4, 2)); y = m(X)
n = NonSequentialModel({}, {})
n.set_hyperparameters(m.get_hyperparameters())
assert n.separator == "/", n.separator
assert np.allclose(n(X), y)
''')
S["p26-complex64-only"] = dict(property="P26",
  edits=[("modules/basemodule.py", "            if np.iscomplexobj(p):\n                return p.astype(np.complex64 if",
          "            if p.dtype == np.complex64:\n                return p.astype(np.complex64 if")],
  needs="a module with double precision complex parameters that is set to single precision",
  breaks="the imaginary parts of double precision parameters are dropped",
  demo="import jax\njax.config.update('jax_enable_x64', True)\n" + PRE + '''
b = Bias(real=False); b.compile(key, (3,))
b.set_precision(64); v = np.asarray(b.get_params()[0] if isinstance(b.get_params(), (tuple, list)) else jax.tree.leaves(b.get_params())[0])
b.set_precision("single")
w = jax.tree.leaves(b.get_params())[0]
assert w.dtype == np.complex64, w.dtype
assert np.allclose(v, w)
''')
S["p26-cast-complex"] = dict(property="P26",
  edits=[("tree_util.py", "        if np.issubdtype(x.dtype, np.complexfloating) and not np.issubdtype(\n            dtype, np.complexfloating\n        ):",
          "        if x.dtype == np.complex128 and not np.issubdtype(\n            dtype, np.complexfloating\n        ):")],
  needs="single precision complex input data for a model evaluated with a real dtype",
  breaks="the imaginary part of the input is silently dropped instead of being refused",
  demo=PRE + '''
m = SequentialModel([Bias()], rng=0); m.compile(key, (2,))
try:
    m(np.ones((3, 2), dtype=np.complex64) * 1j, dtype=np.float32)
except ValueError:
    pass
else:
    raise AssertionError("imaginary part dropped")
''')
S["p17-func-leafwise"] = dict(property="P17",
  edits=[("modules/funcbase.py", "            return self.f(data), state\n", "            if isinstance(data, list):\n                return [self.f(d) for d in data], state\n            return self.f(data), state\n")],
  needs="a user-written function module whose f combines the leaves of a list",
  breaks="f is applied to every leaf separately instead of to the data",
  demo=PRE + '''
from parametricmatrixmodels.modules import FuncBase
class Pair(FuncBase):
    __version__ = "0.0.0"
    def __init__(self):
        pass
    def f(self, data):
        return jax.tree.map(lambda x: x + sum(l.sum() for l in jax.tree.leaves(data)), data)
    def get_hyperparameters(self):
        return {}
X = [np.ones((1, 2)), 2 * np.ones((1, 3))]
p = Pair(); p.compile(key, [(2,), (3,)])
y, _ = p._get_callable()(p.get_params(), X, False, p.get_state(), key)
assert np.allclose(y[0], 9.0) and np.allclose(y[1], 10.0), y
''')
S["p15-fallback-quartile"] = dict(property="P15",
  edits=[("conformal/conformalizedmodel.py", "                np.array([0.25, 0.75]),\n                axis=0,\n            )\n        else:\n            qs = weighted", "                np.array([0.5, 0.75]),\n                axis=0,\n            )\n        else:\n            qs = weighted")],
  needs="a sensitivity that is equal for more than half of the calibration samples and spread below",
  breaks="the scale of that sensitivity is half the inter-quartile range, or the wider 5-95 range where the upper half is constant",
  demo=PRE + '''
import warnings; warnings.simplefilter("ignore")
from parametricmatrixmodels.conformal.conformalizedmodel import pytree_robust_normalization as n
d = np.array([[1.0], [2], [3], [3], [3], [3], [9]])
assert np.allclose(n(d), 0.5), n(d)
''')
