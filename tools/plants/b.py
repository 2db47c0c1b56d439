S = {}
S["p22-remainder-state"] = dict(property="P22",
  edits=[("model_util.py", """                            X_rem,
                            training,
                            new_state,
""", """                            X_rem,
                            training,
                            state,
""")],
  needs="evaluation with avoid_recompilation, a batch limit that does not divide the number of samples, and a stateful model",
  breaks="the state threaded through the full batches is dropped at the first remainder sample: the returned state misses them",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels.model_util import autobatch
def fn(params, X, training, state, rng):
    return X * params, state + X.shape[0]
X = np.arange(7.0).reshape(7, 1)
for avoid in (False, True):
    f = autobatch(fn, 3, avoid_recompilation=avoid)
    out, st = f(np.float32(2.0), X, False, np.zeros(()), jax.random.key(0))
    assert np.allclose(out, 2 * X)
    assert float(st) == 7.0, (avoid, st)
''')
S["p10-unc-key"] = dict(property="P10",
  edits=[("training.py", "            random_permute_leaves(Y_unc, epoch_rng, axis=0)\n            if Y_unc is not None",
          "            random_permute_leaves(Y_unc, batch_rng, axis=0)\n            if Y_unc is not None")],
  needs="training with target uncertainties that differ between samples, in more than one batch",
  breaks="the uncertainties are shuffled by another permutation than the inputs and targets of the epoch",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels.training import train
N = 12
X = np.arange(N, dtype=np.float32).reshape(N, 1)
def loss(epoch, X, Y, Y_unc, params, training, state, rng):
    # gradient is zero exactly when the three arrays belong to the same samples
    return params[0][0] * np.mean(np.abs(Y - X) + np.abs(Y_unc - X)), state
def vloss(epoch, X, Y, Y_unc, params, training, state, rng):
    return -np.abs(params[0][0]), state
p, *_ = train(resume=False, adam_state=None, init_params=[np.zeros((1,), dtype=np.float32)], init_state=[()], init_rng=0, loss_fn=loss, val_loss_fn=vloss,
      trainable_flags=[True], X=X, Y=X, Y_unc=X, X_val=X, Y_val=X, Y_val_unc=X, lr=0.1, batch_size=5, epochs=3, batch_rng=3, verbose=False, target_loss=-1e30)
assert float(p[0][0]) == 0.0, p
''')
S["p11-initial-model"] = dict(property="P11",
  edits=[("training.py", "        val_loss,  # best_val_loss starts as the initial validation loss\n",
          "        np.full_like(val_loss, np.inf),  # no best validation loss yet\n")],
  needs="a training in which no epoch is better than the initial model",
  breaks="the initial parameters are thrown away although every epoch has a higher validation loss",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.modules import Bias
m = SequentialModel([Bias()], rng=1)
m.compile(jax.random.key(2), (3,))
X = jax.random.normal(jax.random.key(0), (8, 3), dtype=np.float32)
Y = m(X, dtype=np.float32) + 1e-3
p0 = [np.array(x) for x in jax.tree.leaves(m.get_params())]
m.train(X, Y=Y, lr=10.0, epochs=4, verbose=False)
for a, b in zip(p0, jax.tree.leaves(m.get_params())):
    assert np.array_equal(a, b), (a, b)
''')
S["p07-forward-mode"] = dict(property="P07",
  edits=[("training.py", """        grad_loss_fn = jax.jacfwd(
            loss_fn, argnums=trainable_argnums, has_aux=True
        )""", """        grad_loss_fn = jax.jacfwd(
            loss_fn,
            argnums=tuple(range(7, 7 + len(trainable_flags_flat))),
            has_aux=True,
        )""")],
  needs="forward-mode training of a model in which a frozen parameter precedes a trainable one of the same shape",
  breaks="each trainable parameter is updated with the gradient of an earlier parameter",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels.training import train
def loss(epoch, X, Y, params, training, state, rng):
    return np.mean((params["a"][0] * X + params["b"][0] - Y) ** 2), state
X = np.linspace(-1, 1, 16, dtype=np.float32).reshape(16, 1)
Y = 3 * X - 2
r = {}
for fwd in (False, True):
    p, *_ = train(resume=False, adam_state=None, init_params={"a": [np.ones((1,), dtype=np.float32)], "b": [np.zeros((1,), dtype=np.float32)]}, init_state=[()], init_rng=0,
      loss_fn=loss, val_loss_fn=loss, trainable_flags={"a": [False], "b": [True]}, X=X, Y=Y, lr=0.1, batch_size=16, epochs=30, batch_rng=3, verbose=False, fwd=fwd, real=True)
    assert float(p["a"][0][0]) == 1.0
    r[fwd] = float(p["b"][0][0])
assert abs(r[True] - r[False]) < 1e-4, r
''')
S["p24-schedule-offset"] = dict(property="P24",
  edits=[("training.py", "        x = x - (step_size(i) * m_hat / (np.sqrt(v_hat) + eps))\n\n        return OptimizerState(x, m, v, i + 1)",
          "        i = i + 1\n        x = x - (step_size(i) * m_hat / (np.sqrt(v_hat) + eps))\n\n        return OptimizerState(x, m, v, i)")],
  needs="complex training with a learning-rate schedule (a function of the step)",
  breaks="the schedule is evaluated one step late: the first step already uses the second learning rate",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels.training import complex_adam
seen = []
def lr(i):
    seen.append(i)
    return [0.5, 0.25, 0.125][i]
init, update, get, _, inc = complex_adam(lr)
s = init(np.array([1 + 1j], dtype=np.complex64))
s = update(np.array([2 + 0j], dtype=np.complex64), s)
assert np.allclose(get(s), 0.5 + 1j, atol=1e-4), get(s)
''')
S["p16-mre-unc-eps"] = dict(property="P16",
  edits=[("training.py", """                            pmm_tree_util.mul(
                                pmm_tree_util.scalar_add(Y, 1e-4),
                                Y_unc,
                            ),""", """                            pmm_tree_util.scalar_add(
                                pmm_tree_util.mul(Y, Y_unc),
                                1e-4,
                            ),""")],
  needs="the mre_unc loss with a target close to zero and an uncertainty different from one",
  breaks="the regularising constant is not divided by the uncertainty: the loss of near-zero targets is scaled wrongly",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels.training import make_loss_fn
f = make_loss_fn("mre_unc", lambda X, params, training, state, rng: (X, state))
X = np.array([[1e-4], [2.0]]); Y = np.array([[0.0], [1.0]]); U = np.array([[10.0], [0.5]])
got = f(0, X, Y, U, None, False, (), None)[0]
want = np.mean(np.abs((X - Y) / ((Y + 1e-4) * U)))
assert np.allclose(got, want, rtol=1e-4), (got, want)
''')
S["p12-grad-batch-options"] = dict(property="P12",
  edits=[("model.py", """        if self.autobatched_grad_callable_params is None or (
            self.autobatched_grad_callable_params_options
            != {
                "max_batch_size": max_batch_size,
                "avoid_recompilation": avoid_recompilation,
            }
        ):
""", """        if self.autobatched_grad_callable_params is None or (
            self.autobatched_grad_callable_params_options
            != {
                "max_batch_size": max_batch_size or None,
                "avoid_recompilation": avoid_recompilation,
            }
            and max_batch_size is not None
        ):
""")],
  needs="grad_params called with a batch limit and later without one",
  breaks="the later call silently keeps the batch limit (and recompilation setting) of the earlier one",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.modules import Bias
sizes = []
class B(Bias):
    def _get_callable(self):
        f = super()._get_callable()
        def g(params, X, training, state, rng):
            sizes.append(X.shape[0])
            return f(params, X, training, state, rng)
        return g
m = SequentialModel([B()], rng=1)
m.compile(jax.random.key(2), (3,))
X = np.ones((6, 3), dtype=np.float32)
m.grad_params(X, dtype=np.float32, max_batch_size=2)
del sizes[:]
m.grad_params(X, dtype=np.float32)
assert sizes and min(sizes) == 6, sizes
''')
S["p15-quantile-order"] = dict(property="P15",
  edits=[("conformal/conformalizedmodel.py", "        new_alphas = alpha[new_idxs]\n", "        new_alphas = np.unique(alpha[new_idxs])\n")],
  needs="quantiles of several levels asked at once, not in increasing order",
  breaks="the quantile of one level is returned for (and cached under) another one's position",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.modules import LinearNN
from parametricmatrixmodels.conformal import ConformalizedModel
m = SequentialModel([LinearNN(2)], rng=1)
m.compile(jax.random.key(2), (2,))
X = jax.random.normal(jax.random.key(0), (30, 2), dtype=np.float32)
Y = X + jax.random.normal(jax.random.key(1), (30, 2), dtype=np.float32)
def cal():
    c = ConformalizedModel(m)
    c.calibrate(X_cal=X, Y_cal=Y, X_train=X + 0.1, dtype=np.float32)
    assert np.isfinite(c.scores).all()
    return c
levels = [0.4, 0.1, 0.2]
one = [cal().get_qhat(a) for a in levels]
many = cal().get_qhat(levels)
for a, b in zip(one, many):
    assert np.allclose(a, b), (one, many)
''')
S["p04-iqr-range"] = dict(property="P04",
  edits=[("conformal/conformalizedmodel.py", '        conf_model._iqr_X_train = conf_state["_iqr_X_train"]\n', '        conf_model._iqr_X_train = conf_state["_range_X_train"]\n')],
  needs="a conformalized model calibrated with input sensitivity, saved and loaded",
  breaks="after loading the input sensitivity is scaled by the range instead of the inter-quartile range",
  demo='''
import jax, jax.numpy as np
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.modules import Bias
from parametricmatrixmodels.conformal import ConformalizedModel
m = SequentialModel([Bias()], rng=1)
m.compile(jax.random.key(2), (2,))
X = jax.random.normal(jax.random.key(0), (30, 2), dtype=np.float32)
c = ConformalizedModel(m)
c.calibrate(X_cal=X, Y_cal=X, dtype=np.float32)
c._iqr_X_train, c._range_X_train = np.full((2,), 1.5), np.full((2,), 9.0)
d = ConformalizedModel.deserialize(c.serialize())
assert np.allclose(d._iqr_X_train, c._iqr_X_train)
assert np.allclose(d._range_X_train, c._range_X_train)
''')
S["p05-upper-zero"] = dict(property="P05",
  edits=[("preprocessing/minmax_scaler.py", """                if (min_v is not None and max_v is not None)
                else x_scaled
            ),
            X_scaled,
            self.data_min_,""", """                if (min_v is not None and max_v)
                else x_scaled
            ),
            X_scaled,
            self.data_min_,""")],
  needs="a MinMaxScaler whose feature range ends at zero",
  breaks="inverse_transform returns the scaled data unchanged",
  demo='''
import jax.numpy as np
from parametricmatrixmodels.preprocessing import MinMaxScaler
X = np.array([[1.0, 5.0], [3.0, 9.0], [2.0, 6.0]])
s = MinMaxScaler(feature_range=(-1.0, 0.0)).fit(X)
assert np.allclose(s.inverse_transform(s.transform(X)), X, atol=1e-5)
''')
