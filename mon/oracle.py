"""Reference derivatives (independent of folx) and the comparison against them.

The reference evaluates, for every input coordinate i, the first and second
directional derivative along e_i with nested forward-mode AD of the *original*
function. Nothing of folx is used.
"""

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from folx.api import FwdLaplArray

RTOL = 1e-6
ATOL = 1e-8
HUGE = 1e9


def xla_defect(e):
    """XLA's CPU backend rejects the layout it assigned to some dot products itself."""
    return 'DotThunk requires' in str(e)


def is_inexact(x):
    return jnp.issubdtype(jnp.result_type(x), jnp.inexact)


def flatten_args(args):
    leaves, tree = jtu.tree_flatten(args)
    leaves = [jnp.asarray(l) for l in leaves]
    sizes = [l.size for l in leaves]

    def unravel(z):
        out, o = [], 0
        for l, s in zip(leaves, sizes):
            out.append(z[o : o + s].reshape(l.shape).astype(l.dtype))
            o += s
        return tree.unflatten(out)

    flat = jnp.concatenate([l.ravel().astype(jnp.float64) for l in leaves])
    return flat, unravel, tree, sizes


class Ref:
    """value, jac (n, *shape), second (n, *shape): one entry per output leaf."""

    def __init__(self, tree, leaves, n):
        self.tree, self.leaves, self.n = tree, leaves, n

    def finite(self):
        for y, J, H in self.leaves:
            for a in (y, J, H):
                if a is None or not np.issubdtype(a.dtype, np.inexact):
                    continue
                if not np.all(np.isfinite(a)) or (a.size and np.abs(a).max() > HUGE):
                    return False
        return True


class RefFn:
    """The reference of f, compiled once, at any arguments of the same shapes."""

    def __init__(self, f, args, jit=True, weights=None):
        _, unravel, _, sizes = flatten_args(args)
        n = self.n = int(sum(sizes))
        meta = self.meta = {}

        def g(z):
            out = f(*unravel(z))
            leaves, tree = jtu.tree_flatten(out)
            leaves = [jnp.asarray(l) for l in leaves]
            meta['tree'] = tree
            meta['inexact'] = [bool(is_inexact(l)) for l in leaves]
            return tuple(l for l in leaves if is_inexact(l)), tuple(
                l for l in leaves if not is_inexact(l)
            )

        def full(z):
            fl = lambda z: g(z)[0]
            y, others = g(z)

            def first(v):
                return jax.jvp(fl, (z,), (v,))[1]

            def second(v):
                return jax.jvp(lambda z: jax.jvp(fl, (z,), (v,))[1], (z,), (v,))[1]

            eye = jnp.eye(n, dtype=z.dtype)
            if weights is not None:
                eye = eye * weights[:, None]
            return y, others, jax.vmap(first)(eye), jax.vmap(second)(eye)

        self.full, self.fast = full, (jax.jit(full) if jit else full)

    def at(self, args):
        flat = flatten_args(args)[0]
        try:
            y, others, J, H = self.fast(flat)
        except Exception as e:
            if not xla_defect(e):
                raise
            y, others, J, H = self.full(flat)
        y, others, J, H = jtu.tree_map(np.asarray, (y, others, J, H))
        fi, oi = iter(zip(y, J, H)), iter(others)
        leaves = [next(fi) if m else (next(oi), None, None) for m in self.meta['inexact']]
        return Ref(self.meta['tree'], leaves, self.n)


def reference(f, args, jit=True, weights=None):
    """args: tuple of pytrees of floating arrays, all differentiated."""
    return RefFn(f, args, jit, weights).at(args)


def _close(a, b, scale, rtol=RTOL, atol=ATOL):
    """Elementwise closeness with the scale of the summands of each entry."""
    a, b = np.asarray(a), np.asarray(b)
    top = max(1.0, float(np.max(scale)) if np.size(scale) else 0.0)
    with np.errstate(all='ignore'):
        tol = rtol * np.maximum(np.abs(b), scale) + atol * top
        bad = ~(np.abs(a - b) <= tol)
    return bad


def _where(bad):
    return [int(i) for i in np.argwhere(bad)[0]] if bad.any() and bad.ndim else []


def compare_leaf(out, ref, n, label='out', dense=None, rtol=RTOL, atol=ATOL):
    """Return (list of problems, facts) for one output leaf.

    dense: True if the Jacobian must be dense with n rows.
    """
    y, J, H = ref
    facts = {}
    probs = []
    if not isinstance(out, FwdLaplArray):
        facts['kind'] = 'plain'
        o = np.asarray(out)
        if o.shape != y.shape:
            return [f'{label}: value shape {o.shape} != {y.shape}'], facts
        if o.dtype != y.dtype:
            probs.append(f'{label}: value dtype {o.dtype} != {y.dtype}')
        if np.issubdtype(y.dtype, np.inexact):
            if _close(o, y, np.abs(y), rtol, atol).any():
                probs.append(f'{label}: value differs')
        elif not np.array_equal(o, y):
            probs.append(f'{label}: value differs')
        if J is not None and J.dtype != jax.dtypes.float0:
            if np.abs(J).max(initial=0) > 1e-9 or np.abs(H).max(initial=0) > 1e-9:
                probs.append(f'{label}: derivatives lost (plain array returned)')
        return probs, facts
    x = np.asarray(out.x)
    L = np.asarray(out.laplacian)
    weak = out.jacobian.weak
    facts['kind'] = f'sparse{out.jacobian.data.shape[0]}' if weak else 'dense'
    if J is None:
        return [f'{label}: derivatives on a non-differentiable output'], facts
    if x.shape != y.shape:
        return [f'{label}: value shape {x.shape} != {y.shape}'], facts
    if weak:
        probs += [f'{label}: {p}' for p in mask_problems(out, n)]
    D = np.asarray(out.jacobian.dense_array)
    if D.ndim != J.ndim or D.shape[1:] != J.shape[1:] or D.shape[0] > n:
        return probs + [f'{label}: Jacobian shape {D.shape} != {J.shape}'], facts
    if D.shape[0] < n:
        if dense:
            probs.append(f'{label}: dense Jacobian has {D.shape[0]} of {n} rows')
        D = np.concatenate([D, np.zeros((n - D.shape[0], *D.shape[1:]), D.dtype)])
    if L.shape != y.shape:
        return probs + [f'{label}: Laplacian shape {L.shape} != {y.shape}'], facts
    for name, a in (('value', x), ('Jacobian', D), ('Laplacian', L)):
        if a.dtype != y.dtype:
            probs.append(f'{label}: {name} dtype {a.dtype} != {y.dtype}')
    bad = _close(x, y, np.abs(y), rtol, atol)
    if bad.any():
        probs.append(f'{label}: value differs at {_where(bad)}')
    bad = _close(D, J, np.abs(J), rtol, atol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        probs.append(
            f'{label}: Jacobian differs in {int(bad.sum())} of {bad.size} entries, first at '
            f'{[int(k) for k in i]}: got {D[i]}, expected {J[i]}'
        )
    ref_L = H.sum(0)
    scale = np.abs(H).sum(0) + np.abs(J).max(0, initial=0)
    bad = _close(L, ref_L, scale, rtol, atol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
        probs.append(
            f'{label}: Laplacian differs in {int(bad.sum())} of {bad.size} entries, first at '
            f'{[int(k) for k in i]}: got {L[i]}, expected {ref_L[i]}'
        )
    return probs, facts


def mask_problems(arr, n):
    """Structural invariants of a sparse Jacobian."""
    probs = []
    idx = np.asarray(arr.jacobian.x0_idx)
    data = arr.jacobian.data
    if idx.shape != data.shape:
        probs.append(f'sparse pattern shape {idx.shape} != data shape {data.shape}')
    if data.shape[1:] != arr.x.shape:
        probs.append(f'sparse data shape {data.shape} does not extend {arr.x.shape}')
    if not np.issubdtype(idx.dtype, np.integer):
        probs.append(f'sparse pattern dtype {idx.dtype}')
    if idx.size and (idx.min() < -1 or idx.max() >= n):
        probs.append(f'sparse pattern range [{idx.min()}, {idx.max()}] outside [-1, {n})')
    return probs


def compare(out, ref, n, dense=None, rtol=RTOL, atol=ATOL):
    probs, facts = [], []
    try:
        leaves = ref.tree.flatten_up_to(out)
    except Exception as e:
        return [f'output structure differs: {str(e)[:200]}'], facts
    if jtu.tree_structure(out, is_leaf=lambda x: isinstance(x, FwdLaplArray)) != ref.tree:
        probs.append('output structure differs')
    for i, (o, r) in enumerate(zip(leaves, ref.leaves)):
        p, fct = compare_leaf(o, r, n, f'output {i}', dense, rtol, atol)
        probs += p
        facts.append(fct)
    return probs, facts
