"""Step monitor: watches every registered propagation rule while it runs.

Each rule of the registry is re-registered (public API) behind a wrapper that
records the triplets going in and coming out and recomputes the outgoing triplet
from the incoming one with plain JAX: with dense incoming Jacobian rows J_i
  J_out[i] = d/dt f(x + t J_i),  L_out = df(L) + sum_i d2/dt2 f(x + t J_i).
"""

import contextlib

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from folx.wrapped_functions import get_laplacian, register_function
from folx.api import FwdLaplArray

from .oracle import _close, mask_problems

NAMED = {
    'sign': jnp.sign,
    'logaddexp': jnp.logaddexp,
    'sigmoid': jax.nn.sigmoid,
    'softplus': jax.nn.softplus,
    'silu': jax.nn.silu,
}
PRIMS = (
    'neg add sub mul div pow integer_pow abs reduce_sum reduce_max reduce_min reduce_prod '
    'cumsum sqrt rsqrt log log1p exp expm1 tanh logistic acos asin atan atan2 cos sin tan '
    'broadcast_in_dim reshape slice dynamic_slice concatenate select_n gather transpose squeeze '
    'rev max min scatter scatter_add scatter_max scatter_min dot_general conj real imag sign '
    'convert_element_type'
).split()


def prim(name):
    return getattr(jax.lax, name + '_p')


def is_lapl(x):
    return isinstance(x, FwdLaplArray)


def dense_rows(a, n):
    D = np.asarray(a.jacobian.dense_array)
    if D.shape[0] < n:
        D = np.concatenate([D, np.zeros((n - D.shape[0], *D.shape[1:]), D.dtype)])
    return D


class StepMonitor:
    def __init__(self, n):
        self.n = n
        self.problems = []
        self.seen = {}
        self.skipped = {}

    # -- the oracle -------------------------------------------------------
    def judge(self, name, f, args, out):
        flat_in = [a for a in args if is_lapl(a)]
        if not flat_in:
            return
        if any(
            isinstance(l, jax.core.Tracer)
            for l in jtu.tree_leaves((args, out))
        ):
            self.skipped[name] = self.skipped.get(name, 0) + 1
            return
        n = self.n
        sparse_in = any(a.jacobian.weak for a in flat_in)
        for i, a in enumerate(flat_in):
            if a.jacobian.weak:
                for p in mask_problems(a, n):
                    self.problems.append(f'{name}: operand {i}: {p}')
        where = [i for i, a in enumerate(args) if is_lapl(a)]
        consts = [None if is_lapl(a) else a for a in args]
        Js = [dense_rows(args[i], n) for i in where]
        Ls = [np.asarray(args[i].laplacian) for i in where]
        known = {-1}
        for a in flat_in:
            known |= set(np.unique(np.asarray(a.jacobian.x0_idx)).tolist()) if a.jacobian.weak else set(range(n))
        xs = [np.asarray(args[i].x) for i in where]

        def g(*xs):
            full = list(consts)
            for i, x in zip(where, xs):
                full[i] = x
            out = f(*full)
            return tuple(o for o in jtu.tree_leaves(out))

        outs = jtu.tree_leaves(out, is_leaf=is_lapl)
        if not any(map(is_lapl, outs)):
            return
        Js = [j.astype(x.dtype) for j, x in zip(Js, xs)]
        Ls = [l.astype(x.dtype) for l, x in zip(Ls, xs)]

        def second(*v):
            return jax.jvp(lambda *z: jax.jvp(g, z, tuple(v))[1], tuple(xs), tuple(v))[1]

        try:
            y = g(*xs)
            jac = jax.vmap(lambda *v: jax.jvp(g, tuple(xs), tuple(v))[1])(*Js)
            quad = jax.vmap(second)(*Js)
            lin = jax.jvp(g, tuple(xs), tuple(Ls))[1]
        except Exception as e:  # the primitive has no second derivative in JAX
            self.skipped[name] = self.skipped.get(name, 0) + 1
            return
        key = name + ('/sparse' if sparse_in else '/dense')
        self.seen[key] = self.seen.get(key, 0) + 1
        for k, (o, y, J, q, l) in enumerate(zip(outs, y, jac, quad, lin)):
            if not is_lapl(o):
                continue
            if o.jacobian.weak:
                self.problems += [f'{name}: output {k}: {p}' for p in mask_problems(o, n)]
                # no input that none of the operands depends on
                extra = set(np.unique(np.asarray(o.jacobian.x0_idx)).tolist()) - known
                if extra:
                    self.problems.append(f'{name}: output {k}: the pattern names inputs {sorted(extra)[:5]} that no operand has')
            J, q, l = map(np.asarray, (J, q, l))
            L = l + q.sum(0)
            D = dense_rows(o, n)
            scale = np.abs(q).sum(0) + np.abs(l)
            for what, a, b, s in (
                ('value', o.x, y, np.abs(np.asarray(y))),
                ('Jacobian', D, J, np.abs(J)),
                ('Laplacian', o.laplacian, L, scale),
            ):
                a, b = np.asarray(a), np.asarray(b)
                if a.shape != b.shape:
                    self.problems.append(f'{name}: {what} shape {a.shape} != {b.shape}')
                elif np.all(np.isfinite(b)) and _close(a, b, s, 1e-6, 1e-8).any():
                    bad = _close(a, b, s, 1e-6, 1e-8)
                    self.problems.append(
                        f'{name}: {what} differs in {int(bad.sum())} of {bad.size} entries '
                        f'(operands {[(a.x.shape, "sparse%d" % a.jacobian.data.shape[0] if a.jacobian.weak else "dense") for a in flat_in]})'
                    )

    # -- instrumentation --------------------------------------------------
    @contextlib.contextmanager
    def installed(self):
        saved = {}
        try:
            for key, name, f in [(prim(p), p, None) for p in PRIMS] + [
                (s, s, fn) for s, fn in NAMED.items()
            ]:
                rule = get_laplacian(key)
                if rule is None:
                    continue
                saved[key] = rule
                register_function(key, self._wrap(key, name, f, rule))
            yield self
        finally:
            for key, rule in saved.items():
                register_function(key, rule)

    def _wrap(self, key, name, f, rule):
        def wrapped(args, kwargs, sparsity_threshold):
            out = rule(args, kwargs, sparsity_threshold=sparsity_threshold)
            fn = f if f is not None else (lambda *a: key.bind(*a, **kwargs))
            self.judge(name, fn, list(args), out)
            return out

        return wrapped
