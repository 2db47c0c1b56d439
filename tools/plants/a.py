S = {}
S["p01-centered-dropped"] = dict(property="P01",
  edits=[("modules/expectationvaluesum.py", """            "centered": self.centered,
        }
""", """        }
""")],
  needs="an ExpectationValueSum with centered=False that is saved and loaded (or its configuration copied)",
  breaks="the centered option reverts to the default on load, so outputs are silently shifted",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels.modules import ExpectationValueSum
m = ExpectationValueSum(2, 3, centered=False)
m.compile(jax.random.key(0), (4, 2))
c = ExpectationValueSum()
c.deserialize(m.serialize())
x = jax.random.normal(jax.random.key(3), (5, 4, 2)).astype(np.complex64)
a, _ = m._get_callable()(m.get_params(), x, False, m.get_state(), jax.random.key(1))
b, _ = c._get_callable()(c.get_params(), x, False, c.get_state(), jax.random.key(1))
assert np.allclose(a, b), (a, b)
''')
S["p02-seed-zero"] = dict(property="P02",
  edits=[("model.py", "        if isinstance(rng, int):\n            self.rng = jax.random.key(rng)\n        elif rng is None:\n            self.rng = jax.random.key(random.randint(0, 2**32 - 1))\n        else:\n            self.rng = rng\n\n    @abstractmethod",
          "        if isinstance(rng, int):\n            self.rng = jax.random.key(rng or random.randint(0, 2**32 - 1))\n        elif rng is None:\n            self.rng = jax.random.key(random.randint(0, 2**32 - 1))\n        else:\n            self.rng = rng\n\n    @abstractmethod")],
  needs="set_rng called with the integer seed 0",
  breaks="the seed 0 gives a random key instead of key(0), so runs are not reproducible",
  demo='''
import jax
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.modules import Bias
m = SequentialModel([Bias()])
m.set_rng(0)
assert (jax.random.key_data(m.get_rng()) == jax.random.key_data(jax.random.key(0))).all()
''')
S["p03-separator"] = dict(property="P03",
  edits=[("nonsequentialmodel.py", """        self.separator = hyperparams.get("separator", self.separator)
""", """        if self.separator is None:
            self.separator = hyperparams.get("separator", self.separator)
""")],
  needs="a NonSequentialModel with a separator other than '.' that is saved and loaded (or copied)",
  breaks="the separator of a non-sequential model is lost on load, so its connections can no longer be resolved",
  demo='''
import os, tempfile
import jax, jax.numpy as np
from parametricmatrixmodels import NonSequentialModel
from parametricmatrixmodels.modules import Bias
m = NonSequentialModel({"a": {"x.1": Bias()}}, {"input": "a/x.1", "a/x.1": "output"}, separator="/", rng=1)
m.compile(jax.random.key(2), (3,))
X = np.ones((4, 3), dtype=np.float32)
y = m(X, dtype=np.float32)
with tempfile.TemporaryDirectory() as d:
    m.save(os.path.join(d, "m.npz"))
    n = NonSequentialModel.from_file(os.path.join(d, "m.npz"))
assert n.separator == "/"
assert np.allclose(y, n(X, dtype=np.float32))
''')
S["p03-strict-older"] = dict(property="P03",
  edits=[("modules/basemodule.py", '''        if current_version != package_version:
            if strict_package_version:
                raise ValueError(
                    "Version mismatch when''', '''        if current_version < package_version:
            if strict_package_version:
                raise ValueError(
                    "Version mismatch when''')],
  needs="module data saved by an older package version loaded with strict_package_version=True",
  breaks="strict version checking accepts module data written by an older package version",
  demo='''
from parametricmatrixmodels.modules import Bias
b = Bias(); d = b.serialize(); d["package_version"] = "0.0.0"
try:
    Bias().deserialize(d, strict_package_version=True)
except ValueError:
    pass
else:
    raise SystemExit("older version accepted in strict mode")
''')
S["p06-stale-grad"] = dict(property="P06",
  edits=[("model.py", "        self.autobatched_grad_callable_inputs = None\n        self.autobatched_grad_callable_inputs_options = None\n", ""),
         ("model.py", "            self.rng = rng\n        self.reset()\n", "            self.rng = rng\n        self.autobatched_grad_callable_inputs = None\n        self.autobatched_grad_callable_inputs_options = None\n        self.reset()\n")],
  needs="grad_input, then a structural edit, recompilation, and grad_input again with the same options",
  breaks="grad_input after an edit keeps differentiating the old structure",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.modules import LinearNN, Flatten
m = SequentialModel([LinearNN(out_features=2)], rng=1)
X = jax.random.normal(jax.random.key(0), (5, 3)).astype(np.float32)
m.compile(jax.random.key(2), (3,))
g1 = m.grad_input(X, dtype=np.float32)
m.append_module(LinearNN(out_features=4))
m.compile(jax.random.key(3), (3,))
try:
    g2 = m.grad_input(X, dtype=np.float32)
except Exception as e:
    raise SystemExit("stale gradient: " + str(e)[:100])
assert g2.shape == (5, 4, 3), g2.shape
''')
S["p09-grad-unchecked"] = dict(property="P09",
  edits=[("model.py", '''                f"\\nReason: {unready_reason}"
            )
        self._verify_input(X)

        def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
            return count + onp.prod(shape)

        if self.grad_callable_params is None and fwd is None:''', '''                f"\\nReason: {unready_reason}"
            )

        def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
            return count + onp.prod(shape)

        if self.grad_callable_params is None and fwd is None:
            self._verify_input(X)''')],
  needs="a second grad_params call with an input of another (broadcastable) shape",
  breaks="once the gradient function is cached (or fwd is given) grad_params no longer rejects inputs of the wrong shape",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.modules import Bias
m = SequentialModel([Bias()], rng=1)
m.compile(jax.random.key(2), (3,))
m.grad_params(np.ones((4, 3), dtype=np.float32), dtype=np.float32)
try:
    m.grad_params(np.ones((4, 1), dtype=np.float32), dtype=np.float32)
except ValueError:
    pass
else:
    raise SystemExit("wrong shape accepted")
''')
S["p12-rng-zero"] = dict(property="P12",
  edits=[("model.py", '''        # safecast input to requested dtype
        X_ = safecast(X, dtype)

        if rng is None:
            rng = self.get_rng()
        elif isinstance(rng, int):
            rng = jax.random.key(rng)

        if self.autobatched_callable is None or (''', '''        # safecast input to requested dtype
        X_ = safecast(X, dtype)

        if isinstance(rng, int):
            rng = jax.random.key(rng) if rng else None
        if rng is None:
            rng = self.get_rng()

        if self.autobatched_callable is None or (''')],
  needs="a module that uses its RNG and a call with rng=0",
  breaks="calling the model with rng=0 uses the model's own key instead of key(0)",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.modules import BaseModule
class Noise(BaseModule):
    __version__ = "0.0.0"
    name = "Noise"
    def __init__(self): pass
    def is_ready(self): return True
    def get_num_trainable_floats(self): return 0
    def _get_callable(self):
        return lambda p, x, t, s, r: (x + jax.random.normal(r, x.shape, dtype=x.dtype), s)
    def compile(self, rng, shape): pass
    def get_output_shape(self, shape): return shape
    def get_hyperparameters(self): return {}
    def set_hyperparameters(self, h): pass
    def get_params(self): return ()
    def set_params(self, p): pass
m = SequentialModel([Noise()], rng=7)
m.compile(jax.random.key(2), (3,))
X = np.zeros((4, 3), dtype=np.float32)
assert np.allclose(m(X, rng=0, dtype=np.float32), m(X, rng=jax.random.key(0), dtype=np.float32))
''')
