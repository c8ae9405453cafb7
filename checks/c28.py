from mon import std

RULE = (
    'Random trees (dicts, tuples, lists, None, single arrays) of arrays of random shapes and types: every tree helper '
    'compared with an evaluation leaf by leaf in numpy, plus algebraic laws (splitting inverts concatenation, '
    'arguments stay as they are). Non-trivial: at least one leaf.'
)
MIN_OK = 60
MIN_EVENTS = {'evals': 800}


def cases(tier, seed):
    n = 120 if tier == 'quick' else 4000
    return [{'seed': seed, 'i': i} for i in range(n)]


def tree(r, leaf, depth=0):
    k = int(r.randint(7)) if depth < 2 else 6
    if k == 0:
        return {'b': tree(r, leaf, depth + 1), 'a': tree(r, leaf, depth + 1)}
    if k == 1:
        return (tree(r, leaf, depth + 1),)
    if k == 2:
        return [tree(r, leaf, depth + 1), None, tree(r, leaf, depth + 1)]
    if k == 3:
        return (tree(r, leaf, depth + 1), {'x': tree(r, leaf, depth + 1)})
    return leaf()


def run(case):
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    from folx import tree_utils as t

    r = std.rng_of('C28', case['seed'], case['i'])
    ev, probs = {'evals': 0, 'leaves': 0}, []
    nd = int(r.randint(1, 4))
    lead = int(r.randint(1, 5))
    wrap = [np.asarray, jnp.asarray][r.randint(2)]
    kinds = [np.float64, np.float64, np.float32, np.complex128, np.int64]
    dt = kinds[r.randint(len(kinds))]

    def leaf(shape=None):
        shape = shape if shape is not None else (lead,) + tuple(int(x) for x in r.randint(1, 4, nd - 1))
        a = r.randn(*shape) * 3
        if dt == np.complex128:
            a = a + 1j * r.randn(*shape)
        return wrap(a.astype(dt))

    a = tree(r, leaf)
    b = jtu.tree_map(lambda x: leaf(x.shape), a)
    leaves_a, td = jtu.tree_flatten(a)
    leaves_b = td.flatten_up_to(b)
    na, nb = [np.asarray(x) for x in leaves_a], [np.asarray(x) for x in leaves_b]
    ev['leaves'] = len(na)

    def same(name, got, want, same_tree=True):
        """want: list of numpy arrays or one scalar."""
        ev['evals'] += 1
        if same_tree:
            g, gt = jtu.tree_flatten(got)
            if gt != td:
                probs.append(f'{name}: structure {gt}, expected {td}')
                return
        else:
            g, want = [got], [want]
        for i, (u, v) in enumerate(zip(g, want)):
            u, v = np.asarray(u), np.asarray(v)
            tol = (1e-4 if dt == np.float32 else 1e-9) * max(1.0, np.abs(v).max(initial=0))
            if u.shape != v.shape:
                probs.append(f'{name}: leaf {i} has shape {u.shape}, expected {v.shape}')
            elif not np.all(np.abs(u - v) <= tol):
                probs.append(f'{name}: leaf {i}: {u.ravel()[:4]}, expected {v.ravel()[:4]}')
            elif u.dtype.kind != v.dtype.kind:
                probs.append(f'{name}: leaf {i} has type {u.dtype}, expected {v.dtype}')

    def attempt(name, call, want, same_tree=True):
        try:
            for how in (call, jax.jit(call)) if r.rand() < 0.3 else (call,):
                same(name, how(a, b), want, same_tree)
        except Exception as e:
            probs.append(f'{name}: raised {type(e).__name__}: {str(e)[:200]}')

    s = [2, 1.5, np.float32(0.5), jnp.asarray(2.5), -1][r.randint(5)]
    sn = np.asarray(s) if not isinstance(s, (int, float)) else s
    attempt('scale', lambda a, b: t.tree_scale(a, s), [x * sn for x in na])
    attempt('product with a number', lambda a, b: t.tree_mul(a, s), [x * sn for x in na])
    attempt('product', lambda a, b: t.tree_mul(a, b), [x * y for x, y in zip(na, nb)])
    attempt('shift', lambda a, b: t.tree_shift(a, s), [x + sn for x in na])
    attempt('sum with a number', lambda a, b: t.tree_add(a, s), [x + sn for x in na])
    attempt('sum', lambda a, b: t.tree_add(a, b), [x + y for x, y in zip(na, nb)])
    attempt('difference', lambda a, b: t.tree_sub(a, b), [x - y for x, y in zip(na, nb)])
    attempt('dot', lambda a, b: t.tree_dot(a, b), sum((x * y).sum() for x, y in zip(na, nb)), False)
    attempt('total', lambda a, b: t.tree_sum(a), sum(x.sum() for x in na), False)
    if dt != np.complex128:
        attempt('squared norm', lambda a, b: t.tree_squared_norm(a), sum((x * x).sum() for x in na), False)
    ax = int(r.randint(-nd, nd))
    m = int(r.randint(1, 4))
    attempt('concatenation', lambda a, b: t.tree_concat([a, b] * m, axis=ax), [np.concatenate([x, y] * m, axis=ax) for x, y in zip(na, nb)])
    i = int(r.randint(lead))
    attempt('index', lambda a, b: t.tree_idx(a, i), [x[i] for x in na])
    attempt('slice', lambda a, b: t.tree_idx(a, slice(i, None, 2)), [x[i::2] for x in na])
    idx = r.randint(0, lead, int(r.randint(1, 5)))
    attempt('index array', lambda a, b: t.tree_idx(a, idx), [x[idx] for x in na])
    ea = int(r.randint(-nd - 1, nd + 1))
    attempt('new axis', lambda a, b: t.tree_expand(a, ea), [np.expand_dims(x, ea) for x in na])
    sl = [slice(None, -1), slice(1, None), slice(None, 2), slice(-1, None)][r.randint(4)]

    def sliced(x):
        ix = [slice(None)] * x.ndim
        ix[ax] = sl
        return x[tuple(ix)]

    attempt('take a slice', lambda a, b: t.tree_take(a, sl, ax), [sliced(x) for x in na])
    ax0 = [0, -nd][r.randint(2)]
    attempt('take an entry', lambda a, b: t.tree_take(a, i, ax0), [np.take(x, i, ax0) for x in na])
    attempt('take entries', lambda a, b: t.tree_take(a, idx, ax0), [np.take(x, idx, ax0) for x in na])
    # splitting
    cuts, left = [], lead
    while left > 0 and r.rand() < 0.6:
        cuts.append(int(r.randint(0, left + 1)))
        left -= cuts[-1]
    try:
        parts = t.tree_split(a, tuple(cuts))
        ev['evals'] += 1
        if len(parts) != len(cuts) + 1:
            probs.append(f'split: {len(parts)} parts for {len(cuts)} sizes')
        at = 0
        for k, p in enumerate(parts):
            end = at + cuts[k] if k < len(cuts) else lead
            same(f'split part {k}', p, [x[at:end] for x in na])
            at = end
        same('concatenation of a split', t.tree_concat(parts), na)
    except Exception as e:
        probs.append(f'split: raised {type(e).__name__}: {str(e)[:200]}')
    if [x.tobytes() for x in na] != [np.asarray(x).tobytes() for x in leaves_a]:
        probs.append('arguments changed')
    return {
        'status': 'violation' if probs else ('ok' if na else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': ev['evals'],
        'tags': [np.dtype(dt).name], 'detail': {'structure': str(td)[:200], 'shapes': [str(x.shape) for x in na], 'axis': ax, 'cuts': cuts},
        'key': [str(td), [x.shape for x in na], str(dt), ax, cuts],
    }  # fmt: skip
