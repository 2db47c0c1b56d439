S = {}
PRE = '''
import jax, jax.numpy as np
import parametricmatrixmodels as pmm
from parametricmatrixmodels.sequentialmodel import SequentialModel
from parametricmatrixmodels.modules import *
key = jax.random.key(3)
def fwd(m, params, X): return m._get_callable()(params, X, False, m.get_state(), key)[0]
'''
S["p08-mixed-count"] = dict(property="P08",
  edits=[("modules/basemodule.py", "                lambda s, p: s + (2 if np.iscomplexobj(p) else 1) * p.size,\n",
          "                lambda s, p: s\n                + (2 if np.iscomplexobj(jax.tree.leaves(params)[0]) else 1)\n                * p.size,\n")],
  needs="a parameter tree mixing real and complex leaves",
  breaks="the number of trainable floats counts every leaf like the first one",
  demo=PRE + '''
m = Constant(shape=[(2,), (3,)], real=[True, False], trainable=True)
m.compile(key, (1,))
assert m.get_num_trainable_floats() == 2 + 2 * 3, m.get_num_trainable_floats()
''')
S["p13-bias-complex-leaves"] = dict(property="P13",
  edits=[("modules/bias.py", "                        rkey, ikey = jax.random.split(k)\n", "                        rkey, ikey = jax.random.split(rng)\n")],
  needs="a complex bias for a tree of several arrays",
  breaks="all leaves of a complex bias tree are initialised from the same key and start identical",
  demo=PRE + '''
m = Bias(real=False)
m.compile(key, [(3,), (3,)])
a, b = m.get_params()
assert not np.allclose(a, b)
''')
S["p14-eigensystem-vectors"] = dict(property="P14",
  edits=[("modules/eigensystem.py", '                "eigenvectors": (n, k),', '                "eigenvectors": (k, n),')],
  needs="an Eigensystem keeping fewer eigenpairs than the matrix size, followed by a module compiled for the declared shape",
  breaks="the declared shape of the eigenvectors is transposed",
  demo=PRE + '''
m = Eigensystem(num_eig=1)
m.compile(key, (3, 3))
want = jax.tree.map(lambda x: x.shape[1:], fwd(m, (), np.ones((2, 3, 3))))
assert m.get_output_shape((3, 3)) == want, (m.get_output_shape((3, 3)), want)
''')
S["p17-concat-order"] = dict(property="P17",
  edits=[("modules/concatenateleaves.py", "            else:\n                leaves = jax.tree.leaves(data)\n\n            # need", "            else:\n                leaves = jax.tree.leaves(data)\n            if self.axis is None:\n                leaves = sorted(leaves, key=lambda leaf: leaf.ndim)\n\n            # need")],
  needs="flattened concatenation of leaves of different rank, the higher rank first",
  breaks="the leaves are joined by rank instead of in the documented (tree or path) order",
  demo=PRE + '''
m = ConcatenateLeaves()
m.compile(key, {"a": (2, 2), "b": (1,)})
x = {"a": np.arange(4.0).reshape(1, 2, 2), "b": np.array([[9.0]])}
assert np.allclose(fwd(m, (), x), np.array([[0.0, 1, 2, 3, 9]])), fwd(m, (), x)
''')
S["p18-lowrank-conj"] = dict(property="P18",
  edits=[("modules/lowrankaffinehermitianmatrix.py", '"pr,pnr,pmr->pnm", ls, us, us.conj()', '"pr,pnr,pmr->pmn", ls, us, us.conj()')],
  needs="complex low-rank vectors",
  breaks="the low-rank matrices are the complex conjugates of sum l u u^dagger",
  demo=PRE + '''
m = LowRankAffineHermitianMatrix(matrix_size=2, matrix_rank=1, bias_term=False)
m.compile(key, (1,))
u = np.array([[[1.0], [1j]]], dtype=np.complex64)
l = np.array([[2.0]], dtype=np.float32)
got = fwd(m, (l, u), np.array([[1.0]], dtype=np.float32))[0]
assert np.allclose(got, 2 * u[0] @ u[0].conj().T), got
''')
S["p19-complex-bias-redrawn"] = dict(property="P19",
  edits=[("modules/bias.py", "        if self.bias is None:\n            shape = (1,)", "        if self.bias is None or not (self.real or self.scalar):\n            shape = (1,)")],
  needs="a complex bias that was given or trained, compiled (again)",
  breaks="compiling replaces a given or trained complex bias by new random values",
  demo=PRE + '''
b = np.array([1.0 + 2j, 3.0])
m = Bias(bias=b, real=False)
m.compile(key, (2,))
assert np.allclose(m.get_params(), b), m.get_params()
m = Bias(real=False)
m.compile(key, (2,))
m.set_params(b)
m.compile(jax.random.key(9), (2,))
assert np.allclose(m.get_params(), b), m.get_params()
''')
S["p20-interior-magnitude"] = dict(property="P20",
  edits=[("eigen_util.py", "        n = E.shape[0]\n        n_half = n // 2\n", "        n = E.shape[0]\n        n_half = n // 2 if algebraic else (n + 1) // 2\n")],
  needs="an odd matrix size with an odd number of interior eigenvalues by magnitude",
  breaks="the interior eigenvalues by magnitude are taken off-centre",
  demo=PRE + '''
H = np.diag(np.array([1.0, -2.0, 3.0]))[None]
m = Eigenvalues(num_eig=1, which="IM")
m.compile(key, (3, 3))
assert np.allclose(fwd(m, (), H), -2.0), fwd(m, (), H)
''')
S["p23-transition-hermiticity"] = dict(property="P23",
  edits=[("modules/transitionamplitudesum.py", "            # force Hermiticity\n            Ds = (Ds + Ds.conj().transpose((0, 1, 3, 2))) / 2.0\n", "            # force Hermiticity\n            if np.iscomplexobj(Ds):\n                Ds = (Ds + Ds.conj().transpose((0, 1, 3, 2))) / 2.0\n")],
  needs="real parameters that are not symmetric (after a training step in real arithmetic, or set by the user)",
  breaks="transition amplitudes of real observables use the parameters themselves instead of their Hermitian part",
  demo=PRE + '''
D = np.array([[[[1.0, 5.0], [0.0, 2.0]]]])
H = (D + D.transpose(0, 1, 3, 2)) / 2
m = TransitionAmplitudeSum(num_observables=1, output_size=1, centered=False)
m.compile(key, (2, 2))
v = jax.random.normal(key, (3, 2, 2))
v = v.at[:, :, 1].set(0)
assert np.allclose(fwd(m, D, v), fwd(m, H, v), atol=1e-4)
w = np.stack([np.eye(2), np.ones((2, 2))])
assert np.allclose(fwd(m, D, w), fwd(m, H, w), atol=1e-4), (fwd(m, D, w), fwd(m, H, w))
''')
