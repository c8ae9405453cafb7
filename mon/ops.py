"""Catalogue of operations the program generator composes.

Every op is total (domain-safe) and smooth at generic inputs. Params are plain
JSON so that a program can be replayed from its recipe.
"""

import functools

import jax
import jax.numpy as jnp
import numpy as np

OPS = {}


class Op:
    def __init__(self, name, fam, arity, params, fn, kinds='f', out='same'):
        self.name, self.fam, self.arity = name, set(fam.split()), arity
        self.params, self.fn = params, fn
        self.kinds = kinds  # accepted kinds of the operands: 'f', 'c' or 'fc'


def _nop(rng, *shapes):
    return {}


def op(name, fam, arity=1, params=_nop, kinds='f'):
    def deco(fn):
        assert name not in OPS, name
        OPS[name] = Op(name, fam, arity, params, fn, kinds)
        return fn

    return deco


def const(seed, shape, lo=None):
    r = np.random.RandomState(seed % (2**31))
    a = r.randn(*shape)
    if lo is not None:
        a = np.abs(a) + lo
    return a


def fit(x, shape, step=1):
    """Turn x into an array of the given shape with static indexing."""
    size = int(np.prod(shape, dtype=int))
    if x.shape == tuple(shape):
        return x
    idx = (np.arange(size) * step) % x.size
    return x.reshape(-1)[idx].reshape(shape)


def rint(rng, a, b):
    return int(rng.randint(a, b + 1))


def choice(rng, seq):
    return seq[int(rng.randint(len(seq)))]


def axes_of(rng, ndim, nonempty=True):
    if ndim == 0:
        return []
    k = rint(rng, 1 if nonempty else 0, ndim)
    return sorted(int(i) for i in rng.choice(ndim, k, replace=False))


def seed(rng):
    return int(rng.randint(1 << 30))


# ------------------------------------------------------------------ elementwise
UNARY = {
    'neg': lambda x: -x,
    'abs': jnp.abs,
    'sqrt': lambda x: jnp.sqrt(x * x + 0.5),
    'rsqrt': lambda x: jax.lax.rsqrt(x * x + 0.5),
    'log': lambda x: jnp.log(x * x + 0.3),
    'log1p': lambda x: jnp.log1p(x * x),
    'log1pexp': lambda x: jnp.log1p(jnp.exp(0.5 * jnp.tanh(x))),
    'exp': lambda x: jnp.exp(0.3 * x),
    'expm1': lambda x: jnp.expm1(0.3 * x),
    'tanh': jnp.tanh,
    'logistic': jax.lax.logistic,
    'sin': jnp.sin,
    'cos': jnp.cos,
    'tan': lambda x: jnp.tan(0.6 * jnp.tanh(x)),
    'asin': lambda x: jnp.arcsin(0.8 * jnp.sin(x)),
    'acos': lambda x: jnp.arccos(0.8 * jnp.sin(x)),
    'atan': jnp.arctan,
    'square': lambda x: x**2,
    'cube': lambda x: 0.3 * x**3,
    'ipow_neg': lambda x: (x * x + 1.2) ** -2,
    'ipow5': lambda x: (0.5 * x) ** 5,
    'pow_frac': lambda x: (x * x + 0.4) ** 1.7,
    'reciprocal': lambda x: 1.0 / (x * x + 0.7),
    'affine': lambda x: 2.5 * x - 0.25,
    'rsub': lambda x: 1.5 - x,
    'sign_mul': lambda x: jnp.sign(x) * x * 0.7,
    'stop': lambda x: x * jax.lax.stop_gradient(x),
    'relu_like': lambda x: jnp.where(x > 0.1, x * x, 0.5 * x),
    'clip': lambda x: jnp.clip(x, -0.8, 0.9),
    'max_const': lambda x: jnp.maximum(x, 0.05),
    'min_const': lambda x: jnp.minimum(x, 0.35) * 1.1,
    'sigmoid': jax.nn.sigmoid,
    'softplus': jax.nn.softplus,
    'silu': jax.nn.silu,
    'relu': jax.nn.relu,
    'isfinite': lambda x: jnp.where(jnp.isfinite(x), x, 0.0) * 1.5,
    'logic': lambda x: jnp.where((x > 0) ^ (x < 0.5) & ~(x == 2.0), x, jnp.sin(x)),
}
UNARY_UNREG = {
    'sinh': lambda x: jnp.sinh(0.5 * x),
    'cosh': lambda x: jnp.cosh(0.5 * x),
    'asinh': jnp.arcsinh,
    'erf': jax.scipy.special.erf,
    'gelu': jax.nn.gelu,
    'cbrt': lambda x: jnp.cbrt(x * x + 0.5),
    'exp2': lambda x: jnp.exp2(0.4 * x),
    'floor_mul': lambda x: x * jnp.floor(2 * x),
}
for _n, _f in UNARY.items():
    op(_n, 'unary reg', 1)(functools.partial(lambda f, p, x: f(x), _f))
for _n, _f in UNARY_UNREG.items():
    op(_n, 'unary unreg', 1)(functools.partial(lambda f, p, x: f(x), _f))


# ------------------------------------------------------------------ binary
def _bshape(rng, s1, s2):
    """How the second operand is matched with the first."""
    mode = choice(rng, ['same', 'same', 'bcast', 'bcast', 'raw'])
    if mode == 'raw':
        try:
            np.broadcast_shapes(s1, s2)
            return {'m': 'raw'}
        except ValueError:
            mode = 'same'
    if mode == 'bcast':
        k = rint(rng, 0, len(s1))
        sh = [int(d) if rng.rand() < 0.6 else 1 for d in s1[len(s1) - k :]]
        return {'m': 'fit', 's': sh, 'k': rint(rng, 1, 3)}
    return {'m': 'fit', 's': [int(d) for d in s1], 'k': rint(rng, 1, 3)}


def bparams(rng, s1, s2):
    p = _bshape(rng, s1, s2)
    p['swap'] = bool(rng.rand() < 0.4)
    p['const'] = int(seed(rng)) if rng.rand() < 0.15 else None
    return p


def _binary(f):
    def fn(p, x, y):
        if p['m'] == 'fit':
            y = fit(y, p['s'], p['k'])
        if p['const'] is not None:
            y = jnp.asarray(const(p['const'], y.shape))
        if p['swap']:
            x, y = y, x
        return f(x, y)

    return fn


BINARY = {
    'add': lambda x, y: x + y,
    'sub': lambda x, y: x - y,
    'mul': lambda x, y: x * y,
    'mul2': lambda x, y: jnp.sin(x) * y,
    'div': lambda x, y: x / (y * y + 0.8),
    'div2': lambda x, y: jnp.cos(x) / (2.5 + jnp.sin(y)),
    'pow': lambda x, y: (x * x + 0.6) ** (0.4 * y),
    'atan2': lambda x, y: jnp.arctan2(x, y + jnp.where(y > 0, 1.0, -1.0)),
    'max': lambda x, y: jnp.maximum(x, y + 0.013),
    'min': lambda x, y: jnp.minimum(x, y - 0.017),
    'logaddexp': jnp.logaddexp,
    'where': lambda x, y: jnp.where(x > y + 0.011, x, y),
    'where2': lambda x, y: jnp.where(y > 0.1, x * x, jnp.sin(y)),
    'hyp': lambda x, y: jnp.sqrt(x * x + y * y + 0.2),
}
for _n, _f in BINARY.items():
    op(_n, 'binary reg', 2, bparams)(_binary(_f))


# ------------------------------------------------------------------ movement
def _mv(name, params, fam='move reg', arity=1, kinds='fc'):
    return op(name, fam, arity, params, kinds)


def _reshape_p(rng, s):
    n = int(np.prod(s, dtype=int))
    divs = [d for d in range(1, n + 1) if n % d == 0]
    a = choice(rng, divs)
    b = choice(rng, [d for d in divs if (n // a) % d == 0] or [1])
    return {'s': choice(rng, [[n], [a, n // a], [a, b, n // a // b], [1, n], [n, 1]])}


@_mv('reshape', _reshape_p)
def _(p, x):
    return x.reshape(p['s'])


@_mv('transpose', lambda r, s: {'p': [int(i) for i in r.permutation(len(s))]})
def _(p, x):
    return x.transpose(p['p'])


def _slice_p(rng, s):
    if not s:
        return None
    out = []
    for d in s:
        a = rint(rng, 0, max(0, d - 1) // 2)
        st = choice(rng, [1, 1, 2])
        out.append([a, rint(rng, a + 1, d), st])
    return {'s': out}


@_mv('slice', _slice_p)
def _(p, x):
    return x[tuple(slice(*s) for s in p['s'])]


@_mv('rev', lambda r, s: {'a': axes_of(r, len(s))} if s else None)
def _(p, x):
    return jax.lax.rev(x, p['a'])


@_mv('expand', lambda r, s: {'a': rint(r, 0, len(s))} if len(s) < 3 else None)
def _(p, x):
    return jnp.expand_dims(x, p['a'])


@_mv('squeeze', lambda r, s: {} if 1 in s else None)
def _(p, x):
    return jnp.squeeze(x)


@_mv(
    'broadcast',
    lambda r, s: {'s': [rint(r, 1, 3), *map(int, s)]}
    if len(s) < 3 and np.prod(s, dtype=int) <= 16
    else None,
)
def _(p, x):
    return jnp.broadcast_to(x, p['s'])


@_mv(
    'bcast_in_dim',
    lambda r, s: {'k': rint(r, 2, 3)}
    if len(s) in (1, 2) and np.prod(s, dtype=int) <= 16
    else None,
)
def _(p, x):
    # new axes in the middle or the back
    shape = (*x.shape, p['k'])
    return jax.lax.broadcast_in_dim(x, shape, tuple(range(x.ndim)))


@_mv(
    'tile',
    lambda r, s: {'r': [rint(r, 1, 2) for _ in s]}
    if s and np.prod(s, dtype=int) <= 12
    else None,
)
def _(p, x):
    return jnp.tile(x, p['r'])


@_mv(
    'repeat',
    lambda r, s: {'a': rint(r, 0, len(s) - 1)}
    if s and np.prod(s, dtype=int) <= 16
    else None,
)
def _(p, x):
    return jnp.repeat(x, 2, p['a'])


@_mv('roll', lambda r, s: {'k': rint(r, -2, 2), 'a': rint(r, 0, len(s) - 1)} if s else None)
def _(p, x):
    return jnp.roll(x, p['k'], p['a'])


def _concat_p(rng, s1, s2):
    if not s1 or np.prod(s1, dtype=int) > 18:
        return None
    a = rint(rng, 0, len(s1) - 1)
    s = [int(d) for d in s1]
    s[a] = rint(rng, 1, 2)
    return {'a': a, 's': s, 'k': rint(rng, 1, 2), 'c': seed(rng) if rng.rand() < 0.4 else None,
            'swap': bool(rng.rand() < 0.5)}


@_mv('concat', _concat_p, arity=2)
def _(p, x, y):
    parts = [x, fit(y, p['s'], p['k'])]
    if p['c'] is not None:
        parts.append(jnp.asarray(const(p['c'], p['s']), parts[0].dtype))
    if p['swap']:
        parts = parts[::-1]
    dt = jnp.result_type(*parts)
    return jnp.concatenate([q.astype(dt) for q in parts], p['a'])


@_mv(
    'stack',
    lambda r, s1, s2: {'a': rint(r, 0, len(s1)), 'k': rint(r, 1, 2)}
    if len(s1) < 3 and np.prod(s1, dtype=int) <= 12
    else None,
    arity=2,
)
def _(p, x, y):
    return jnp.stack([x, fit(y, x.shape, p['k'])], p['a'])


def _take_p(rng, s):
    if not s:
        return None
    a = rint(rng, 0, len(s) - 1)
    m = rint(rng, 1, 4)
    return {'a': a, 'i': [int(i) for i in rng.randint(-s[a], s[a], m)]}


@_mv('take', _take_p)
def _(p, x):
    return jnp.take(x, np.array(p['i']), axis=p['a'])


@_mv('index', lambda r, s: {'i': [rint(r, -d, d - 1) for d in s[: rint(r, 1, len(s))]]} if s else None)
def _(p, x):
    return x[tuple(p['i'])]


@_mv('adv_index', lambda r, s: {'i': [[rint(r, 0, d - 1) for _ in range(3)] for d in s[:2]]} if len(s) >= 2 else None)
def _(p, x):
    return x[tuple(np.array(i) for i in p['i'])]


@_mv('gather_fill', lambda r, s: {'i': [rint(r, 0, s[0] + 2) for _ in range(3)], 'm': choice(r, ['fill', 'clip'])} if s else None)
def _(p, x):
    if p['m'] == 'fill':
        return x.at[np.array(p['i'])].get(mode='fill', fill_value=0)
    return x.at[np.array(p['i'])].get(mode='clip')


def _ds_p(rng, s):
    if not s:
        return None
    sizes = [rint(rng, 1, d) for d in s]
    return {'n': sizes, 's': [rint(rng, 0, d - k + 1) for d, k in zip(s, sizes)]}


@_mv('dyn_slice', _ds_p)
def _(p, x):
    return jax.lax.dynamic_slice(x, p['s'], p['n'])


@_mv('tri', lambda r, s: {'k': rint(r, -1, 1), 'u': bool(r.rand() < 0.5)} if len(s) >= 2 else None)
def _(p, x):
    return (jnp.triu if p['u'] else jnp.tril)(x, p['k'])


@_mv('mask_where', lambda r, s: {'c': seed(r)})
def _(p, x):
    m = const(p['c'], x.shape) > 0
    return jnp.where(m, x, 0.5)


@_mv('select_n', lambda r, s1, s2: {'c': seed(r), 'k': rint(r, 1, 2)}, arity=2)
def _(p, x, y):
    which = (const(p['c'], x.shape) > 0) if p['k'] == 1 else np.array(p['c'] % 2 == 0)
    y = fit(y, x.shape).astype(x.dtype) if x.dtype == y.dtype else x
    return jax.lax.select_n(jnp.asarray(which), x, y)


@_mv('pad', lambda r, s: {'w': [[rint(r, 0, 1), rint(r, 0, 1)] for _ in s]} if s and np.prod(s, dtype=int) <= 12 else None, fam='move unreg')
def _(p, x):
    return jnp.pad(x, p['w'])


@_mv('diag', lambda r, s: {} if len(s) == 2 else None)
def _(p, x):
    return jnp.diagonal(x)


# data dependent movement (dense fallback)
@_mv('dd_index', lambda r, s: {} if len(s) >= 1 and s[0] > 1 else None, fam='datadep reg', kinds='f')
def _(p, x):
    return x[jnp.where(x.ravel()[0] > 0.0, 0, 1)] * 1.5


@_mv('dd_slice', lambda r, s: {} if len(s) >= 1 and s[0] > 1 else None, fam='datadep reg', kinds='f')
def _(p, x):
    i = jnp.where(x.ravel()[-1] > 0.0, 0, 1)
    return jax.lax.dynamic_slice_in_dim(x, i, x.shape[0] - 1, 0)


@_mv('dd_argmax', lambda r, s: {} if len(s) >= 1 else None, fam='datadep reg', kinds='f')
def _(p, x):
    return x[jnp.argmax(x.reshape(x.shape[0], -1)[:, 0])]


@_mv('dd_where_idx', lambda r, s: {} if len(s) >= 1 else None, fam='datadep reg', kinds='f')
def _(p, x):
    return x.at[jnp.argmin(x.reshape(x.shape[0], -1)[:, 0])].set(0.3)


@_mv('sort', lambda r, s: {'a': rint(r, 0, len(s) - 1)} if s else None, fam='datadep unreg', kinds='f')
def _(p, x):
    return jnp.sort(x, p['a'])


# ------------------------------------------------------------------ scatter
def _scat_p(rng, s1, s2):
    if not s1:
        return None
    m = rint(rng, 1, 3)
    return {'i': [rint(rng, 0, s1[0] - 1) for _ in range(m)], 'k': rint(rng, 1, 2),
            'const': choice(rng, ['none', 'none', 'x', 'y'])}


def _unique(idx):
    out = []
    for i in idx:
        if i not in out:
            out.append(i)
    return out


def _scatter(kind):
    def fn(p, x, y):
        idx = p['i'] if kind in ('add', 'max', 'min') else _unique(p['i'])
        y = fit(y, (len(idx), *x.shape[1:]), p['k'])
        if p['const'] == 'x':
            x = jnp.asarray(const(11, x.shape))
        elif p['const'] == 'y':
            y = jnp.asarray(const(12, y.shape))
        if kind in ('max', 'min'):
            y = y + np.arange(len(idx)).reshape(-1, *([1] * (x.ndim - 1))) * 0.0137
        kw = {'unique_indices': True} if kind == 'multiply' else {}
        return getattr(x.at[np.array(idx)], kind)(y, **kw)

    return fn


for _k in ('set', 'add', 'max', 'min'):
    op(f'scatter_{_k}', 'scatter reg', 2, _scat_p)(_scatter(_k))
op('scatter_mul', 'scatter unreg', 2, _scat_p)(_scatter('multiply'))


@op('scatter_const', 'scatter reg', 1, lambda r, s: {'i': rint(r, 0, s[0] - 1)} if s else None)
def _(p, x):
    return x.at[p['i']].set(0.4)


@op('scatter_add_const', 'scatter reg', 1, lambda r, s: {'i': rint(r, 0, s[0] - 1)} if s else None)
def _(p, x):
    return x.at[p['i']].add(0.4)


@op('segment_sum', 'scatter reg', 1, lambda r, s: {'i': [rint(r, 0, 2) for _ in range(s[0])]} if s else None)
def _(p, x):
    return jax.ops.segment_sum(x, np.array(p['i']), 3)


@op('dus', 'scatter unreg', 2, lambda r, s1, s2: {'n': [rint(r, 1, d) for d in s1], 's': [rint(r, 0, d - 1) for d in s1]} if s1 else None)
def _(p, x, y):
    return jax.lax.dynamic_update_slice(x, fit(y, p['n']), p['s'])


# ------------------------------------------------------------------ reductions
def _red_p(rng, s):
    if not s:
        return None
    return {'a': axes_of(rng, len(s)), 'k': bool(rng.rand() < 0.3)}


REDUCE = {
    'sum': jnp.sum,
    'mean': jnp.mean,
    'max': jnp.max,
    'min': jnp.min,
    'prod': lambda x, axis, keepdims: jnp.prod(x, axis=axis, keepdims=keepdims),
    'var': jnp.var,
    'std': lambda x, axis, keepdims: jnp.sqrt(jnp.var(x, axis=axis, keepdims=keepdims) + 0.1),
    'logsumexp': lambda x, axis, keepdims: jax.nn.logsumexp(x, axis=axis, keepdims=keepdims),
    'norm': lambda x, axis, keepdims: jnp.sqrt((x * x).sum(axis, keepdims=keepdims) + 0.1),
}
for _n, _f in REDUCE.items():
    op(f'red_{_n}', 'reduce reg', 1, _red_p)(
        functools.partial(lambda f, p, x: f(x, axis=tuple(p['a']), keepdims=p['k']), _f)
    )


@op('softmax', 'reduce reg', 1, lambda r, s: {'a': rint(r, 0, len(s) - 1)} if s else None)
def _(p, x):
    return jax.nn.softmax(x, p['a'])


@op('layernorm', 'reduce reg', 1, lambda r, s: {'a': rint(r, 0, len(s) - 1)} if s else None)
def _(p, x):
    m = x.mean(p['a'], keepdims=True)
    v = x.var(p['a'], keepdims=True)
    return (x - m) * jax.lax.rsqrt(v + 0.3)


def _cum_p(rng, s):
    if not s:
        return None
    return {'a': rint(rng, 0, len(s) - 1), 'r': bool(rng.rand() < 0.4)}


@op('cumsum', 'cumulative reg', 1, _cum_p)
def _(p, x):
    return jax.lax.cumsum(x, axis=p['a'], reverse=p['r'])


@op('cumprod', 'cumulative unreg', 1, _cum_p)
def _(p, x):
    return jax.lax.cumprod(x, axis=p['a'], reverse=p['r'])


@op('cummax', 'cumulative unreg', 1, _cum_p)
def _(p, x):
    return jax.lax.cummax(x, axis=p['a'], reverse=p['r'])


@op('cumlogsumexp', 'cumulative unreg', 1, _cum_p)
def _(p, x):
    return jax.lax.cumlogsumexp(x, axis=p['a'], reverse=p['r'])


# ------------------------------------------------------------------ contractions
@op('dense_layer', 'contract reg', 1, lambda r, s: {'d': rint(r, 1, 4), 'c': seed(r)} if s else None)
def _(p, x):
    return x @ (const(p['c'], (x.shape[-1], p['d'])) / np.sqrt(x.shape[-1]))


@op('left_layer', 'contract reg', 1, lambda r, s: {'d': rint(r, 1, 4), 'c': seed(r)} if s else None)
def _(p, x):
    w = const(p['c'], (p['d'], x.shape[0])) / np.sqrt(x.shape[0])
    return jnp.tensordot(w, x, axes=1)


def _dg_p(rng, s1, s2):
    """Random dot_general: batch, contracting and free dims in random order."""
    if int(np.prod(s1, dtype=int)) == 0:
        return None
    nb, nc = rint(rng, 0, 1), rint(rng, 0, 2)
    nl, nr = rint(rng, 0, 1 if nb + nc else 2), rint(rng, 0, 1)
    dims = lambda k: [rint(rng, 1, 3) for _ in range(k)]
    b, c, l, rr = dims(nb), dims(nc), dims(nl), dims(nr)
    if np.prod(b + l + rr, dtype=int) > 18:
        return None
    lp = [int(i) for i in rng.permutation(nb + nc + nl)]
    rp = [int(i) for i in rng.permutation(nb + nc + nr)]
    return {'b': b, 'c': c, 'l': l, 'r': rr, 'lp': lp, 'rp': rp, 'k': rint(rng, 1, 2),
            'const': choice(rng, [None, None, None, seed(rng)]), 'side': rint(rng, 0, 1)}


@op('dot_general', 'contract reg', 2, _dg_p, 'fc')
def _(p, x, y):
    nb, nc = len(p['b']), len(p['c'])
    ls, rs = p['b'] + p['c'] + p['l'], p['b'] + p['c'] + p['r']
    lhs = fit(x, [ls[i] for i in p['lp']])
    rhs = fit(y, [rs[i] for i in p['rp']], p['k'])
    if p['const'] is not None:
        if p['side']:
            rhs = jnp.asarray(const(p['const'], rhs.shape), rhs.dtype)
        else:
            lhs = jnp.asarray(const(p['const'], lhs.shape), lhs.dtype)
    dt = jnp.result_type(lhs, rhs)
    lpos, rpos = list(np.argsort(p['lp'])), list(np.argsort(p['rp']))
    pos = lambda q, a, b: tuple(int(i) for i in q[a:b])
    dn = (
        (pos(lpos, nb, nb + nc), pos(rpos, nb, nb + nc)),
        (pos(lpos, 0, nb), pos(rpos, 0, nb)),
    )
    return jax.lax.dot_general(lhs.astype(dt), rhs.astype(dt), dn)


EINSUM = ['ij,jk->ik', 'ij,kj->ik', 'ij,ij->i', 'ij,ij->', 'ij,j->i', 'i,i->', 'i,j->ij',
          'bij,bjk->bik', 'bij,bkj->bik', 'bi,bi->b', 'ij,ik->jk', 'ij,jk->ki', 'bij,bij->bj',
          'bij,bj->bi', 'ij,ji->', 'ij,ik->i']


@op('einsum', 'contract reg', 2, lambda r, s1, s2: {'e': choice(r, EINSUM), 'd': {c: rint(r, 1, 3) for c in 'bijk'}, 'k': rint(r, 1, 2)}, 'fc')
def _(p, x, y):
    ins = p['e'].split('->')[0].split(',')
    a = fit(x, [p['d'][c] for c in ins[0]])
    b = fit(y, [p['d'][c] for c in ins[1]], p['k'])
    return jnp.einsum(p['e'], a, b)


@op('gram', 'contract reg', 1, lambda r, s: {'t': bool(r.rand() < 0.5)} if len(s) == 2 else None)
def _(p, x):
    return (x @ x.T if p['t'] else x.T @ x) * 0.5


@op('attention', 'contract reduce reg', 1, lambda r, s: {'c': seed(r)} if len(s) == 2 else None)
def _(p, x):
    d = x.shape[1]
    q, k, v = (x @ (const(p['c'] + i, (d, d)) / np.sqrt(d)) for i in range(3))
    return jax.nn.softmax(q @ k.T, -1) @ v


@op('pairwise', 'contract reduce reg', 1, lambda r, s: {} if len(s) == 2 and s[0] <= 4 else None)
def _(p, x):
    d = x[:, None] - x[None]
    return jnp.sqrt((d * d).sum(-1) + 0.4)


# ------------------------------------------------------------------ determinants
def _mat(x, n, batch, k=1):
    a = fit(x, (*batch, n, n), k)
    return 0.5 * a + 1.5 * np.eye(n) + 0.3 * const(5, (n, n))


def _det_p(rng, s):
    return {'n': rint(rng, 1, 3), 'b': [rint(rng, 1, 2) for _ in range(rint(rng, 0, 2))], 'k': rint(rng, 1, 2)}


@op('logdet', 'det reg', 1, _det_p)
def _(p, x):
    return jnp.linalg.slogdet(_mat(x, p['n'], p['b'], p['k']))[1]


@op('signdet', 'det reg', 1, _det_p)
def _(p, x):
    s, l = jnp.linalg.slogdet(_mat(x, p['n'], p['b'], p['k']))
    return s * jnp.exp(l)


# ------------------------------------------------------------------ complex
@op('to_complex', 'complex reg', 1)
def _(p, x):
    return x + 1j * jnp.sin(x)


@op('to_complex2', 'complex reg', 2, lambda r, a, b: {'k': rint(r, 1, 2)})
def _(p, x, y):
    return jax.lax.complex(x, fit(y, x.shape, p['k']))


@op('cis', 'complex reg', 1)
def _(p, x):
    return jnp.exp(1j * x)


CUNARY = {
    'c_exp': lambda z: jnp.exp(0.3 * z),
    'c_sin': lambda z: jnp.sin(0.4 * z),
    'c_cos': lambda z: jnp.cos(0.4 * z),
    'c_tanh': lambda z: jnp.tanh(0.3 * z),
    'c_sq': lambda z: z**2,
    'c_cube': lambda z: 0.3 * z**3,
    'c_log': lambda z: jnp.log(z * z.conj() + 0.5 + 0.2j),
    'c_sqrt': lambda z: jnp.sqrt(z * z.conj() + 0.5 + 0.2j),
    'c_conj': jnp.conj,
    'c_neg': lambda z: -z,
    'c_inv': lambda z: 1.0 / (2.5 + 0.4j + jnp.tanh(z.real)),
    'c_scale': lambda z: (0.7 - 0.4j) * z,
    'c_logistic': lambda z: jax.lax.logistic(0.3 * z),
}
for _n, _f in CUNARY.items():
    op(_n, 'cunary complex', 1, kinds='c')(functools.partial(lambda f, p, x: f(x), _f))
CREAL = {
    'c_real': jnp.real,
    'c_imag': jnp.imag,
    'c_abs': lambda z: jnp.abs(z + 0.3j + 0.2),
    'c_abs2': lambda z: (z * z.conj()).real,
    'c_angle': lambda z: jnp.arctan2(z.imag, 1.5 + jnp.abs(z.real)),
    'c_logabs': lambda z: jnp.log(jnp.abs(z - 0.37j + 0.21) + 0.6),
}
for _n, _f in CREAL.items():
    op(_n, 'creal complex', 1, kinds='c')(functools.partial(lambda f, p, x: f(x), _f))
CBIN = {
    'c_add': lambda x, y: x + y,
    'c_sub': lambda x, y: x - y,
    'c_mul': lambda x, y: x * y,
    'c_div': lambda x, y: x / (y * y.conj() + 1.0 + 0.2j),
}
for _n, _f in CBIN.items():
    op(_n, 'cbinary complex', 2, bparams, 'fc')(_binary(_f))


@op('c_sum', 'creduce complex', 1, _red_p, 'c')
def _(p, x):
    return x.sum(tuple(p['a']), keepdims=p['k'])


@op('c_prod', 'creduce complex', 1, _red_p, 'c')
def _(p, x):
    return x.prod(tuple(p['a']), keepdims=p['k'])


@op('c_mean', 'creduce complex', 1, _red_p, 'c')
def _(p, x):
    return x.mean(tuple(p['a']), keepdims=p['k'])


@op('c_cumsum', 'creduce complex', 1, _cum_p, 'c')
def _(p, x):
    return jax.lax.cumsum(x, axis=p['a'], reverse=p['r'])


@op('c_layer', 'creduce complex', 1, lambda r, s: {'d': rint(r, 1, 3), 'c': seed(r)} if s else None, 'c')
def _(p, x):
    w = const(p['c'], (x.shape[-1], p['d'])) + 1j * const(p['c'] + 1, (x.shape[-1], p['d']))
    return x @ (w / np.sqrt(2 * x.shape[-1]))


@op('c_slogdet', 'cdet complex', 1, _det_p, 'c')
def _(p, x):
    m = 0.4 * fit(x, (*p['b'], p['n'], p['n']), p['k']) + (1.4 + 0.2j) * np.eye(p['n'])
    s, l = jnp.linalg.slogdet(m)
    return s * jnp.exp(0.5 * l)


@op('c_logdet', 'cdet complex', 1, _det_p, 'c')
def _(p, x):
    m = 0.4 * fit(x, (*p['b'], p['n'], p['n']), p['k']) + (1.4 + 0.2j) * np.eye(p['n'])
    return jnp.linalg.slogdet(m)[1]


# functions of complex numbers that are not holomorphic, with few numbers of many inputs
def _own_rule(f):
    g = jax.custom_jvp(f)
    g.defjvp(lambda p, t: jax.jvp(f, p, t))
    return g


NONHOLO = {
    'abs2': _own_rule(lambda z: (z * z.conj()).sum()),
    'cube': _own_rule(lambda z: z**2 * z.conj() + 1j * z),
    'cross': _own_rule(lambda z: z[..., 0] * z[..., -1].conj()),
    'parts': _own_rule(lambda z: jnp.sin(z.real) * z.imag**2),
    'pair': _own_rule(lambda z: (jnp.exp(0.3 * z.conj()), (z.real * z).sum())),
}
HERM = ['cholesky', 'eigh', 'eigvecs', 'qr', 'solve']


def _few(p, x):
    w = const(p['c'], (x.size, p['d'])) + 1j * const(p['c'] + 1, (x.size, p['d']))
    return jnp.tanh((x.ravel() @ w / np.sqrt(2 * x.size)).real) + 1j * jnp.sin((x.ravel() @ w[:, ::-1] / np.sqrt(2 * x.size)).imag)


@op('c_nonholo', 'cfew complex', 1, lambda r, s: {'d': rint(r, 1, 3), 'c': seed(r), 'f': choice(r, sorted(NONHOLO)), 'e': bool(r.rand() < 0.2)}, 'c')
def _(p, x):
    y = NONHOLO[p['f']](x if p['e'] and x.ndim else _few(p, x))
    return y[0] * y[1] if isinstance(y, tuple) else y


@op('c_mixed_rule', 'cfew complex', 2, lambda r, a, b: {'d': rint(r, 1, 3), 'c': seed(r), 's': bool(r.rand() < 0.5)}, 'c')
def _(p, x, y):
    f = _own_rule(lambda a, b: (a * b.conj()).sum() * jnp.cos(b.real))
    a, b = _few(p, x), _few({**p, 'c': p['c'] + 7}, y)
    return f(a, b.real if p['s'] else b)


@op('c_hermitian', 'cfew complex', 1, lambda r, s: {'n': 2, 'd': 4, 'c': seed(r), 'f': choice(r, HERM)}, 'c')
def _(p, x):
    m = _few(p, x).reshape(2, 2)
    h = 0.5 * m @ m.conj().T + np.diag([1.0, 2.5])
    if p['f'] == 'cholesky':
        return jnp.linalg.cholesky(h)
    if p['f'] == 'eigh':
        return jnp.linalg.eigh(h)[0]
    if p['f'] == 'eigvecs':
        return jnp.abs(jnp.linalg.eigh(h)[1]) ** 2
    if p['f'] == 'qr':
        return jnp.linalg.qr(m + 1.5 * np.eye(2))[1]
    return jax.scipy.linalg.solve_triangular(jnp.tril(m) + 2 * np.eye(2), h[0], lower=True)


# ------------------------------------------------------------------ control flow
@jax.custom_jvp
def _cj(x, y):
    return jnp.sin(x) * y


@_cj.defjvp
def _cj_jvp(primals, tangents):
    (x, y), (dx, dy) = primals, tangents
    return _cj(x, y), jnp.cos(x) * y * dx + jnp.sin(x) * dy


@jax.custom_jvp
def _cj2(x):
    return jnp.tanh(x), x.sum()


@_cj2.defjvp
def _cj2_jvp(primals, tangents):
    (x,), (dx,) = primals, tangents
    y = jnp.tanh(x)
    return (y, x.sum()), ((1 - y * y) * dx, dx.sum())


@jax.jit
def _inner_jit(x, w):
    h = jnp.tanh(x * w)
    return h * x, h.sum()


@jax.jit
def _outer_jit(x):
    a, b = _inner_jit(x, 0.7)
    c = jax.jit(lambda u, v: u * v + jnp.cos(u))(a, b)
    return c, a


@op('custom_jvp', 'control reg', 2, lambda r, a, b: {'k': rint(r, 1, 2)})
def _(p, x, y):
    return _cj(x, fit(y, x.shape, p['k']))


@op('custom_jvp_const', 'control reg', 1)
def _(p, x):
    return _cj(x, 0.7)


@op('custom_jvp_multi', 'control reg', 1)
def _(p, x):
    a, b = _cj2(x)
    return a * b


@op('nested_jit', 'control reg', 1)
def _(p, x):
    a, b = _outer_jit(x)
    return a + 0.5 * b


@op('cond_dyn', 'control unreg', 1)
def _(p, x):
    return jax.lax.cond(x.ravel()[0] > 0.0, lambda v: jnp.sin(v) * v, lambda v: v**2, x)


@op('cond_static', 'control unreg', 1, lambda r, s: {'b': bool(r.rand() < 0.5)})
def _(p, x):
    return jax.lax.cond(p['b'], lambda v: jnp.sin(v) * v, lambda v: v**2, x)


@op('switch', 'control unreg', 1, lambda r, s: {'i': rint(r, 0, 2)})
def _(p, x):
    fs = [jnp.sin, lambda v: v**2, lambda v: v * v.sum()]
    return jax.lax.switch(p['i'], fs, x)


@op('remat', 'control unreg', 1)
def _(p, x):
    return jax.checkpoint(lambda v: jnp.sin(v) * v.sum())(x)


@op('inner_vmap', 'control reg', 1, lambda r, s: {'a': rint(r, 0, len(s) - 1)} if s else None)
def _(p, x):
    return jax.vmap(lambda v: jnp.tanh(v).sum() * v, in_axes=p['a'], out_axes=p['a'])(x)


@op('inner_grad', 'control reg', 1)
def _(p, x):
    return jax.grad(lambda v: (jnp.sin(v) * v.sum()).sum())(x)


@jax.jit
def _pass_jit(x, y, c):
    # passes an input through, returns constants, ignores an argument
    return x, jnp.full((2,), 0.3), y * 2.0, (x > 0).sum()


@op('jit_pass', 'control reg', 2, lambda r, a, b: {'k': rint(r, 1, 2)})
def _(p, x, y):
    a, c, b, k = _pass_jit(x, fit(y, x.shape, p['k']), 3.0)
    return a * b + c.sum() * k


@jax.jit
def _twice(x, y):
    return jnp.where(x > 0.05, x * y, jnp.sin(y))


@op('jit_twice', 'control reg', 2, lambda r, a, b: {'k': rint(r, 1, 2)})
def _(p, x, y):
    # one cached jaxpr evaluated with operands of different dependencies
    y = fit(y, x.shape, p['k'])
    return _twice(x, y) + _twice(y, x) * _twice(x, jnp.asarray(const(3, x.shape)))


@op('jit_captured', 'control reg', 2, lambda r, a, b: {'k': rint(r, 1, 2), 'c': seed(r)})
def _(p, x, y):
    y = fit(y, x.shape, p['k'])
    c = const(p['c'], x.shape)

    @jax.jit
    def inner(v):
        @jax.jit
        def innermost(u):
            return u * c + y

        return innermost(v) * v

    return inner(x)


@jax.custom_jvp
def _cj3(x, n, y):
    return {'a': x * y, 'b': (jnp.exp(0.3 * y), n)}


@_cj3.defjvp
def _cj3_jvp(primals, tangents):
    (x, n, y), (dx, dn, dy) = primals, tangents
    e = jnp.exp(0.3 * y)
    return {'a': x * y, 'b': (e, n)}, {'a': x * dy + dx * y, 'b': (0.3 * e * dy, dn)}


@op('custom_jvp_tree', 'control reg', 2, lambda r, a, b: {'k': rint(r, 1, 2), 'c': bool(r.rand() < 0.3)})
def _(p, x, y):
    y = jnp.asarray(const(4, x.shape)) if p['c'] else fit(y, x.shape, p['k'])
    o = _cj3(x, 0.5, y)
    return o['a'] + o['b'][0] * o['b'][1] * x


# rules with three operands that are neither elementwise nor symmetric in them
@jax.custom_jvp
def _cj6(a, b, c):
    return (a * b**2).sum() * jnp.sin(c), (a + 0.3 * b).ravel()[:1] * jnp.tanh(c)[..., None]


@_cj6.defjvp
def _cj6_jvp(primals, tangents):
    (a, b, c), (da, db, dc) = primals, tangents
    s, h = (a * b**2).sum(), (a + 0.3 * b).ravel()[:1]
    ds, dh = (da * b**2 + 2 * a * b * db).sum(), (da + 0.3 * db).ravel()[:1]
    t = jnp.tanh(c)[..., None]
    return _cj6(a, b, c), (ds * jnp.sin(c) + s * jnp.cos(c) * dc, dh * t + h * (1 - t * t) * dc[..., None])


@op('custom_jvp_three', 'control reg', 2, lambda r, a, b: {'k': rint(r, 1, 2), 'o': rint(r, 0, 5), 'm': choice(r, [7, 7, 7, 3, 5, 6]), 'h': bool(r.rand() < 0.5)} if np.prod(a, dtype=int) > 1 else None)
def _(p, x, y):
    v, y = x.ravel(), fit(y, x.shape, p['k'])
    n = v.shape[0] // 2
    parts = [v[:n], y.ravel()[-n:], v[-n:][::-1]] if p['h'] else [x, y, jnp.flip(x)]
    parts = [q if p['m'] >> i & 1 else jnp.asarray(const(5 + i, q.shape)).astype(x.dtype) for i, q in enumerate(parts)]
    i = p['o']
    u, w = _cj6(parts[i % 3], parts[(i + 1) % 3], parts[(i + 2) % 3]) if i < 3 else _cj6(parts[i % 3], parts[(i + 2) % 3], parts[(i + 1) % 3])
    return u + w[..., 0]


@op('custom_jvp_stop', 'control reg', 1)
def _(p, x):
    # a rule that is not the derivative of the primal computation
    @jax.custom_jvp
    def straight(v):
        return jnp.round(v * 2) / 2 + 0.0 * v

    @straight.defjvp
    def _(primals, tangents):
        (v,), (dv,) = primals, tangents
        return straight(v), dv * v

    return straight(x) * x


@op('jit_vmap', 'control reg', 1, lambda r, s: {'a': rint(r, 0, len(s) - 1)} if s else None)
def _(p, x):
    g = jax.jit(jax.vmap(jax.jit(lambda v: jnp.tanh(v) * (v * v).sum())))
    return jnp.moveaxis(g(jnp.moveaxis(x, p['a'], 0)), 0, p['a'])


@op('inner_jvp', 'control reg', 1, lambda r, s: {'c': seed(r)})
def _(p, x):
    t = jnp.asarray(const(p['c'], x.shape)).astype(x.dtype)
    y, dy = jax.jvp(lambda v: jnp.sin(v) * v.sum(), (x,), (t,))
    return y * 0.5 + dy


@op('inner_hess', 'control reg', 1, lambda r, s: {} if np.prod(s, dtype=int) <= 6 else None)
def _(p, x):
    h = jax.hessian(lambda v: (jnp.sin(v) * v.sum()).sum())(x.ravel())
    return jnp.trace(h) * x


@op('named_call', 'control reg', 1)
def _(p, x):
    with jax.named_scope('scope'):
        return jax.named_call(lambda v: jnp.cos(v) * v, name='block')(x)


@op('cond_nested', 'control unreg', 2, lambda r, a, b: {'k': rint(r, 1, 2)})
def _(p, x, y):
    y = fit(y, x.shape, p['k'])
    return jax.lax.cond(
        x.sum() > 0.1,
        lambda u, v: jax.lax.cond(v.sum() > 0, lambda u, v: u * v, lambda u, v: u - v * v, u, v),
        lambda u, v: jnp.sin(u) + v,
        x, y,
    )  # fmt: skip


# scans: carries of input dependent arrays in dense mode, static xs
@op('fori', 'loop reg', 1, lambda r, s: {'n': rint(r, 1, 3)})
def _(p, x):
    return jax.lax.fori_loop(0, p['n'], lambda i, c: jnp.sin(c) + 0.1 * i, x)


@op('scan_xs', 'loop reg', 1, lambda r, s: {'n': rint(r, 1, 3), 'c': seed(r), 'rev': bool(r.rand() < 0.4), 'u': rint(r, 1, 2)})
def _(p, x):
    xs = const(p['c'], (p['n'],))

    def body(c, w):
        c = jnp.tanh(c * w) + c
        return c, c * w

    c, ys = jax.lax.scan(body, x, xs, reverse=p['rev'], unroll=p['u'])
    return c + (ys**2).sum(0)


OUT_KIND = {}


# ------------------------------------------------------------------ chosen dependency patterns
def _pat(rng, n, cap):
    """Indices into a flat operand of n entries that vary along some axes only."""
    while True:
        s = [rint(rng, 1, 5) for _ in range(rint(rng, 1, 4))]
        if np.prod(s) <= cap:
            break
    vary = [bool(rng.rand() < 0.6) for _ in s]
    sub = [d if v else 1 for d, v in zip(s, vary)]
    m = int(np.prod(sub))
    how = choice(rng, ['any', 'perm', 'perm', 'run', 'window'])
    if how == 'any':
        i = rng.randint(0, n, m)
    elif how == 'perm':
        i = np.resize(rng.permutation(n), m)
    elif how == 'run':
        i = (rng.randint(n) + choice(rng, [1, -1, 2]) * np.arange(m)) % n
    else:
        lo = rng.randint(n)
        i = (lo + rng.randint(0, max(1, n // 2), m)) % n
    return {'s': s, 'sub': sub, 'i': [int(v) for v in i], 'c': seed(rng) if rng.rand() < 0.7 else None}


def _take_pat(p, x):
    i = np.broadcast_to(np.array(p['i'], int).reshape(p['sub']), p['s'])
    y = x.reshape(-1)[i]
    return y if p['c'] is None else y * const(p['c'], p['s'])


@op('pattern', 'pattern', 1, lambda r, s: _pat(r, int(np.prod(s, dtype=int)), 30), 'fc')
def _(p, x):
    return _take_pat(p, x)


@op('pattern_big', 'pattern', 1, lambda r, s: _pat(r, int(np.prod(s, dtype=int)), 120), 'fc')
def _(p, x):
    return _take_pat(p, x)


def _patdot_p(rng, s1):
    """Two factors over chosen, partly overlapping entries, contracted in some layout."""
    n = int(np.prod(s1, dtype=int))
    b, m, k, q = rint(rng, 1, 2), rint(rng, 1, 4), rint(rng, 1, 3), rint(rng, 1, 7)
    if b * m * q > 36:
        return None
    split = rint(rng, 1, n)
    how = choice(rng, ['any', 'split', 'shift', 'shift'])
    if how == 'any':
        L, R = rng.randint(0, n, (b, m, k)), rng.randint(0, n, (b, q, k))
    elif how == 'split':
        L, R = rng.randint(0, split, (b, m, k)), rng.randint(max(0, split - 2), n, (b, q, k))
    else:  # sliding windows: neighbours share several entries, the others none
        L = (rint(rng, 0, n) + choice(rng, [1, k, 2]) * np.arange(m)[:, None] + np.arange(k)) % n + np.zeros((b, 1, 1), int)
        R = (rint(rng, 0, n) + choice(rng, [1, k, 2]) * np.arange(q)[:, None] + np.arange(k)[:: choice(rng, [1, -1])]) % n + np.zeros((b, 1, 1), int)
    return {'L': L.tolist(), 'R': R.tolist(), 'l': [int(i) for i in rng.permutation(3)], 'r': [int(i) for i in rng.permutation(3)], 'c': seed(rng),
            'sin': bool(rng.rand() < 0.3), 'two': bool(rng.rand() < 0.5)}


@op('pattern_dot', 'pattern', 1, _patdot_p, 'fc')
def _(p, x):
    v = x.reshape(-1)
    L, R = np.array(p['L']), np.array(p['R'])
    a, b = v[L], v[R]
    if p['two']:
        a = a * const(p['c'], a.shape)
        b = jnp.sin(b) if p['sin'] else b * const(p['c'] + 1, b.shape)
    pl, pr = p['l'], p['r']
    il, ir = [pl.index(i) for i in range(3)], [pr.index(i) for i in range(3)]
    a, b = a.transpose(pl), b.transpose(pr)
    return jax.lax.dot_general(a, b, (((il[2],), (ir[2],)), ((il[0],), (ir[0],))))


def _patsum_p(rng, s1):
    n = int(np.prod(s1, dtype=int))
    parts = []
    for _ in range(3):
        while True:
            s = [rint(rng, 1, 5) for _ in range(4)]
            if np.prod(s) <= 150:
                break
        vary = [bool(rng.rand() < 0.6) for _ in s]
        sub = [d if v else 1 for d, v in zip(s, vary)]
        m = int(np.prod(sub))
        i = np.resize(rng.permutation(n), m) if rng.rand() < 0.7 else rng.randint(0, n, m)
        axes = [3] if rng.rand() < 0.4 else axes_of(rng, 4)
        parts.append({'s': s, 'sub': sub, 'i': [int(v) for v in i], 'c': seed(rng), 'a': axes})
    return {'p': parts}


@op('pattern_sum', 'pattern', 1, _patsum_p, 'f')
def _(p, x):
    # sums over some axes of weighted copies; the dependencies repeat along other axes
    return jnp.concatenate([_take_pat(q, x).sum(tuple(q['a'])).reshape(-1)[:60] for q in p['p']])


@op('pattern_mul', 'pattern', 1, lambda r, s: {'a': _pat(r, int(np.prod(s, dtype=int)), 30), 'o': choice(r, ['mul', 'div', 'pow', 'atan2', 'max', 'add', 'where']), 'c': seed(r)}, 'f')
def _(p, x):
    a = _take_pat(p['a'], x)
    r = np.random.RandomState(p['c'])
    # the other operand: other entries, varying along other axes
    sub = [d if r.rand() < 0.5 else 1 for d in a.shape]
    i = r.randint(0, x.size, sub)
    b = x.reshape(-1)[np.broadcast_to(i, a.shape)] if r.rand() < 0.5 else x.reshape(-1)[i]
    o = p['o']
    if o == 'mul':
        return a * b
    if o == 'div':
        return a / (1.3 + b * b)
    if o == 'pow':
        return (a * a + 0.5) ** (0.4 * b)
    if o == 'atan2':
        return jnp.arctan2(a, 1.5 + b * b)
    if o == 'max':
        return jnp.maximum(a, b + 0.013)
    if o == 'where':
        return jnp.where(a > b + 0.017, a * a, b)
    return a + b


# a surrogate rule, several outputs: not the derivative of the body
@jax.custom_jvp
def _cj4(x, y):
    return jnp.round(2 * x) / 2 + 0.1 * y, y * jnp.sign(x), 0.2 * x


@_cj4.defjvp
def _cj4_jvp(primals, tangents):
    (x, y), (dx, dy) = primals, tangents
    return _cj4(x, y), (jnp.cos(x) * dx * y, dy * jnp.tanh(x) + dx, 0.3 * x * dx)


@op('custom_jvp_surrogate', 'control reg', 2, lambda r, a, b: {'k': rint(r, 1, 2), 'i': rint(r, 0, 3)})
def _(p, x, y):
    o = _cj4(x, fit(y, x.shape, p['k']))
    return o[p['i']] * 1.0 if p['i'] < 3 else o[0] * o[1] + o[2]


# constants that look like numbers of inputs
INT_CONST = ['concat', 'select', 'pad', 'set', 'fill', 'max', 'dus']


def _intc_p(rng, s, kind=None):
    if not s or np.prod(s, dtype=int) > 12:
        return None
    return {'o': kind or choice(rng, INT_CONST), 'a': rint(rng, 0, len(s) - 1), 'k': rint(rng, 1, 3),
            'v': [choice(rng, [0.0, 1.0, 2.0, 3.0]), choice(rng, [57.0, 1e3]), -1.0][:: choice(rng, [1, -1, 2])] * 2, 'm': seed(rng), 'swap': bool(rng.rand() < 0.5)}


def _int_const(p, x):
    a, o = p['a'], p['o']
    xm = jnp.moveaxis(x, a, 0)
    c = np.broadcast_to(np.array(p['v'])[np.arange(p['k']) % 3].reshape(-1, *[1] * (x.ndim - 1)), (p['k'], *xm.shape[1:])).astype(x.dtype)
    if o == 'concat':
        xm = jnp.concatenate([c, xm] if p['swap'] else [xm, c])
    elif o == 'select':
        full = np.resize(np.array(p['v']), xm.shape).astype(x.dtype)
        mask = np.random.RandomState(p['m']).rand(*xm.shape) < 0.5
        xm = jnp.where(mask, full, xm) if p['swap'] else jnp.where(mask, xm, full)
    elif o == 'pad':
        xm = jax.lax.pad(xm, x.dtype.type(p['v'][0]), [(p['k'] % 2, 1, 0)] + [(0, 0, 0)] * (x.ndim - 1))
    elif o == 'set':
        xm = xm.at[p['m'] % xm.shape[0]].set(p['v'][0])
    elif o == 'fill':
        i = np.random.RandomState(p['m']).randint(0, xm.shape[0] + 2, 3)
        xm = xm.at[i].get(mode='fill', fill_value=p['v'][1])
    elif o == 'max':
        xm = jnp.maximum(xm, p['v'][2])
    else:
        xm = jax.lax.dynamic_update_slice_in_dim(xm, jnp.asarray(c[:1]), p['m'] % xm.shape[0], 0)
    return jnp.moveaxis(xm, 0, a)


op('int_const', 'pattern', 1, _intc_p, 'f')(_int_const)
for _n in INT_CONST:
    op('int_' + _n, 'pattern', 1, functools.partial(_intc_p, kind=_n), 'f')(_int_const)


# ------------------------------------------------------------------ arrays without entries
@op('empty_concat', 'move reg', 1, lambda r, s: {'a': rint(r, 0, len(s) - 1)} if s else None)
def _(p, x):
    none = jax.lax.slice_in_dim(x, 0, 0, axis=p['a'])
    return jnp.concatenate([x * 1.1, jnp.sin(none), x], p['a'])


@op('empty_dot', 'contract reg', 2, lambda r, s1, s2: {'k': rint(r, 0, 2)} if s1 and s2 else None)
def _(p, x, y):
    a, b = x.reshape(-1, 1)[:, :0], y.reshape(1, -1)[:0]
    if p['k'] == 1:
        b = jnp.zeros(b.shape)
    if p['k'] == 2:
        a = jnp.ones(a.shape)
    return (a @ b).sum(1).reshape(x.shape) + x * x


@op('empty_reduce', 'reduce reg', 1, lambda r, s: {'k': rint(r, 0, 2)} if s else None)
def _(p, x):
    none = x[:0] * x[:1]
    e = [jnp.sum(none, 0), jnp.prod(none, 0), jnp.max(none, 0, initial=-0.4)][p['k']]
    return x * e + jnp.tanh(x)
