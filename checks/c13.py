from mon import std

RULE = (
    'Random programs on 1-3 array arguments or a nested pytree, with weights given as a scalar, per argument, per '
    'leaf, as a prefix of the pytree, as arrays of the shape of the argument or broadcast to it, traced, integer, negative, zero or one; threshold '
    '0 and sparse thresholds, jitted or not; other weights in a second call and a vector of weights under vmap. Reference: derivatives along w_i e_i. '
    'Non-trivial: the weighted reference Jacobian is not zero.'
)
MIN_OK = 40
MIN_EVENTS = {'evals': 100, 'sparse_out': 20, 'dense_out': 40, 'curved': 20}
FAMS = {'unary': 2, 'binary': 3, 'move': 1, 'reduce': 1, 'contract': 1}
ST = [[[3]], [[2, 2]], [[3], [3]], [[2, 2], [2]], [[3], []], [[2], [3], [1]], [[2, 3], [3]], [[4]]]


def cases(tier, seed):
    n = 130 if tier == 'quick' else 2500
    return [{'seed': seed, 'i': i} for i in range(n)]


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd, gen

    r = std.rng_of('C13', case['seed'], case['i'])
    rec = gen.gen_program(r, FAMS, gen.rint(r, 2, 4), styles=ST, n_out=2)
    if not rec['steps']:
        return {'status': 'trivial', 'events': {}}
    f0, xs, n = gen.build(rec), gen.inputs_of(rec), gen.n_inputs(rec)
    sizes = [int(np.size(x)) for x in xs]
    nest = bool(r.rand() < 0.4)
    if nest:  # f({'a': x0, 'b': [x1, ...]}) or f((x0, x1), x2)
        if r.rand() < 0.5:
            args = ({'a': xs[0], 'b': list(xs[1:])},)
            f = lambda t: f0(t['a'], *t['b'])
        else:
            args = (tuple(xs[:2]), *xs[2:])
            f = lambda t, *rest: f0(*t, *rest)
    else:
        args, f = xs, f0
    wv = lambda: float([1.0, 0.5, 2.0, -1.5, 0.0, 0.3, 0.0][r.randint(7)])
    kind = ['scalar', 'arg', 'leaf', 'prefix', 'array', 'traced', 'flat', 'array', 'lower'][case['i'] % 9]
    leaves, tree = jax.tree_util.tree_flatten(args)
    per_leaf = [wv() for _ in leaves]
    if kind == 'scalar':
        w = wv()
        per_leaf = [w] * len(leaves)
    elif kind in ('arg', 'prefix'):
        ws, per_leaf = [], []
        for a in args:
            v = wv()
            ws.append(v)
            per_leaf += [v] * len(jax.tree_util.tree_leaves(a))
        w = tuple(ws)
        if kind == 'prefix' and nest and isinstance(args[0], dict):
            va, vb = wv(), wv()
            w = ({'a': va, 'b': vb},)
            per_leaf = [va] + [vb] * len(args[0]['b'])
    elif kind == 'leaf':
        w = tree.unflatten(per_leaf)
    elif kind == 'flat':
        w = tuple(per_leaf)
    elif kind == 'array':
        per_leaf = [np.asarray(r.randn(*np.shape(l))) for l in leaves]
        w = tree.unflatten(per_leaf)
    elif kind == 'lower':  # one weight for each position along some axes, broadcast like arrays
        per_leaf = []
        for l in leaves:
            shape = [s if r.rand() < 0.7 else 1 for s in np.shape(l)]
            per_leaf.append(np.asarray(r.randn(*shape[r.randint(len(shape) + 1) if shape else 0:])))
        w = tree.unflatten(per_leaf)
    else:
        w = tree.unflatten([jnp.float64(v) for v in per_leaf])
    if kind == 'flat' and nest and len(leaves) > 1 and len(args) == len(leaves):
        w = tree.unflatten(per_leaf)
    vec = np.concatenate([np.broadcast_to(np.asarray(v, float), np.shape(l)).ravel() for v, l in zip(per_leaf, leaves)])
    j = fwd.Judge(f, args, n=n, weights=vec)
    detail = {'program': gen.describe(rec), 'kind': kind, 'weights': [np.asarray(v).tolist() for v in per_leaf], 'nest': nest, 'recipe': rec}
    if not j.ref.finite():
        return {'status': 'trivial', 'events': j.ev}
    probs = []
    T2 = fwd.thresholds(r, n, 1)[0]
    eager = bool(r.rand() < (0.4 if 0.0 in [v for v in per_leaf if np.ndim(v) == 0] else 0.1))
    for T, e in ((0, eager and case['i'] % 2 == 0), (T2, eager)):
        g = folx.forward_laplacian(f, T, disable_jit=e)
        p, _, _ = j.check(lambda *a: g(*a, weights=w), args, dense=(T == 0), eager=e)
        probs += [f'{kind} weights, T={T}: {q}' for q in p]
    how = case['i'] % 4
    if how == 1:  # other weights of the same structure with the function compiled before
        k = fwd.Judge(f, args, n=n, weights=-2.0 * vec)
        g = folx.forward_laplacian(f, T2)
        g(*args, weights=w)
        p, _, _ = k.check(lambda *a: g(*a, weights=jax.tree_util.tree_map(lambda v: v * -2.0, w)), args)
        probs += [f'{kind} weights changed between calls, T={T2}: {q}' for q in p]
    elif how == 2:  # vectorised over the weights
        k = fwd.Judge(f, args, n=n, weights=-2.0 * vec)
        g = folx.forward_laplacian(f, T2)
        ws = jax.tree_util.tree_map(lambda v: jnp.stack([jnp.asarray(v, float), -2.0 * jnp.asarray(v, float)]), w)

        def second(*a):
            out = jax.vmap(lambda v: g(*a, weights=v))(ws)
            return jax.tree_util.tree_map(lambda o: o[1], out)

        p, _, _ = k.check(second, args)
        probs += [f'{kind} weights vectorised, T={T2}: {q}' for q in p]
    elif how == 3 and kind in ('scalar', 'arg', 'leaf', 'prefix', 'flat'):  # integers as weights
        i = lambda v: int(np.round(2 * v))
        vec = np.concatenate([np.full(np.size(l), float(i(v))) for v, l in zip(per_leaf, leaves)])
        k = fwd.Judge(f, args, n=n, weights=vec)
        g = folx.forward_laplacian(f, T2)
        p, _, _ = k.check(lambda *a: g(*a, weights=jax.tree_util.tree_map(i, w)), args)
        probs += [f'{kind} integer weights, T={T2}: {q}' for q in p]
    return j.result(probs, evaluations=j.ev['evals'], detail=detail, tags=[kind, 'nested' if nest else 'flat'])
