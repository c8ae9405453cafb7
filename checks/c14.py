from mon import std

RULE = (
    'Functions of 1-3 positional pytrees (dicts, lists, tuples, named tuples, registered dataclasses, None, numpy '
    'scalars, numpy and jax arrays, mixed float32/float64 leaves) and 0-2 keyword arguments (pytrees of float, integer '
    'and boolean constants) returning pytrees that mix dependent outputs, passed-through and repeated inputs, '
    'constants, keyword arguments, integers, booleans and empty containers; threshold 0 and a sparse one, jitted or '
    'not. Non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 50
MIN_EVENTS = {'evals': 100, 'plain_out': 60, 'sparse_out': 30, 'dense_out': 50, 'kwargs': 20}


def cases(tier, seed):
    n = 150 if tier == 'quick' else 3000
    return [{'seed': seed, 'i': i} for i in range(n)]


_types = {}


def types():
    if _types:
        return _types
    import collections
    import dataclasses

    import jax

    Pair = collections.namedtuple('Pair', ['left', 'right'])

    @dataclasses.dataclass
    class Box:
        a: object
        b: object

    jax.tree_util.register_pytree_node(Box, lambda v: ((v.a, v.b), None), lambda _, c: Box(*c))
    _types.update(Pair=Pair, Box=Box)
    return _types


def wrap(r, leaves, depth=0):
    """A random container holding the leaves in order."""
    t = types()
    if len(leaves) == 1 and (depth or r.rand() < 0.4):
        return leaves[0]
    k = r.randint(6)
    cut = int(r.randint(1, len(leaves))) if len(leaves) > 1 else 1
    parts = [leaves[:cut], leaves[cut:]] if len(leaves) > 1 else [leaves]
    parts = [wrap(r, p, depth + 1) for p in parts]
    if k == 0:
        return {('k%d' % i): p for i, p in enumerate(parts)}
    if k == 1:
        return list(parts)
    if k == 2:
        return tuple(parts)
    if k == 3:
        return t['Pair'](parts[0], parts[1] if len(parts) > 1 else None)
    if k == 4:
        return t['Box'](parts[0], parts[1] if len(parts) > 1 else ())
    return {'z': parts, 'a': None, 'e': {}}


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd

    r = std.rng_of('C14', case['seed'], case['i'])
    n_leaf = int(r.randint(1, 5))
    mixed = bool(r.rand() < 0.25)
    leaves = []
    for _ in range(n_leaf):
        s = [(2,), (3,), (), (2, 2), (1,), (1, 2)][r.randint(6)]
        a = np.asarray(0.8 * r.randn(*s))
        if mixed and r.rand() < 0.5:
            a = a.astype(np.float32)
        leaves.append(jnp.asarray(a) if r.rand() < 0.5 else a)
    n_args = int(r.randint(1, min(3, n_leaf) + 1))
    cuts = sorted(r.choice(np.arange(1, n_leaf), n_args - 1, replace=False)) if n_args > 1 else []
    groups = [g for g in np.split(np.arange(n_leaf), cuts)]
    args = tuple(wrap(r, [leaves[i] for i in g]) for g in groups)
    kw = {}
    if r.rand() < 0.6:
        kw['scale'] = [np.float64(0.7), jnp.asarray(r.randn(2)), {'u': 1.5, 'v': np.arange(3)}, jnp.arange(2)][r.randint(4)]
    if r.rand() < 0.4:
        kw['flag'] = [np.array([True, False]), jnp.int32(3), [np.ones(2), ()], np.array(False)][r.randint(4)]
    n = sum(int(np.size(l)) for l in leaves)
    picks = [int(r.randint(9)) for _ in range(int(r.randint(1, 6)))]
    oseed = int(r.randint(1 << 30))
    cidx = [int(r.randint(n_leaf)) for _ in picks]

    def f(*args, **kw):
        xs = [jnp.asarray(l) for l in jax.tree_util.tree_leaves(args)]
        ks = [jnp.asarray(l) for l in jax.tree_util.tree_leaves(kw)]
        k = sum((jnp.sum(v) * 1.0 for v in ks), 0.5) * 0.3 if ks else 0.5
        outs = []
        for p, i in zip(picks, cidx):
            x = xs[i]
            if p == 0:
                outs.append(jnp.sin(x) * k)
            elif p == 1:
                outs.append(x)
            elif p == 2:
                outs.append(jnp.arange(3.0))
            elif p == 3:
                outs.append((x > 0).sum())
            elif p == 4:
                outs.append(x > 0.1)
            elif p == 5:
                outs.append(sum((v**2).sum() for v in xs) * k)
            elif p == 6:
                outs.append(ks[0] if ks else jnp.float32(2.0))
            elif p == 7:
                y = jnp.tanh(x) * xs[-1].sum()
                outs += [y, y]
            else:
                outs.append(jnp.concatenate([v.ravel().astype(jnp.float64) for v in xs]) * 2.0)
        # the structure of the results depends on the keyword arguments
        if len(ks) % 2:
            outs.append(xs[0] * k)
        return wrap(np.random.RandomState(oseed + len(ks)), outs)

    detail = {'args': str(jax.tree_util.tree_structure(args)), 'kwargs': sorted(kw), 'outputs': picks, 'dtypes': [str(np.asarray(l).dtype) for l in leaves]}
    # the reference differentiates in the dtype of every leaf
    j = fwd.Judge(lambda *a: f(*a, **kw), args, n=n)
    probs = []
    rtol = 2e-4 if mixed else None
    T2 = fwd.thresholds(r, n, 1)[0]
    for T, e in ((0, bool(r.rand() < 0.15)), (T2, bool(r.rand() < 0.15))):
        g = folx.forward_laplacian(f, T, disable_jit=e)
        p, facts, out = j.check(lambda *a: g(*a, **kw), args, dense=(T == 0), eager=e, rtol=rtol)
        probs += [f'T={T} eager={e}: {q}' for q in p]
    if kw:
        j.ev['kwargs'] = 1
    return j.result(probs, evaluations=j.ev['evals'], detail=detail, tags=[f'out{p}' for p in picks])
