from mon import std

RULE = (
    'Functions of 1-3 arguments (arrays, dicts, tuples, constants with axis None, keyword arguments) with any mapped '
    'axes (negative, nested, lists), output axes and output trees, batch sizes 1-13 and chunk sizes 1-15 (remainders, '
    'exact multiples, larger than the batch), jitted, differentiated, nested and around the forward Laplacian. '
    'Monitored: equality with jax.vmap, and the number of batch entries every evaluation of the function processes at '
    'once (a probe primitive reports it). Also results with axis None, empty results, arguments that hold no arrays and keys. Non-trivial: more than one chunk.'
)
MIN_OK = 35
MIN_EVENTS = {'evals': 100, 'chunks': 100, 'remainders': 30}


def cases(tier, seed):
    n = 160 if tier == 'quick' else 4000
    edge = [{'seed': seed, 'i': i, 'stratum': 'edge'} for i in range(n // 5)]
    return edge + [{'seed': seed, 'i': i} for i in range(n)]


def edge(case):
    """Results that are the same for all entries (axis None), empty results, arguments that hold no arrays, keys."""
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import folx

    r = std.rng_of('C20e', case['seed'], case['i'])
    bind, seen = probe()
    B, size = int(r.randint(2, 10)), int(r.randint(1, 6))
    x, w = r.randn(B, 3, 2), r.randn(3)
    keys = [jax.random.split(jax.random.key(3), B), jax.random.split(jax.random.PRNGKey(3), B)][r.randint(2)]
    empty = [None, (), {'e': []}][r.randint(3)]
    pool = {
        'shared': (lambda x, w, k: w * 2, None),
        'shared tree': (lambda x, w, k: {'p': w + 1, 'q': (w.sum(), w[:0])}, None),
        'entry': (lambda x, w, k: bind(jnp.sin(x).sum()) * w, [0, 1, -1][r.randint(3)]),
        'matrix': (lambda x, w, k: x * bind((x * w[:, None]).sum()), [0, 1, 2, -1, -2][r.randint(5)]),
        'empty': (lambda x, w, k: x[:0] * bind(x.sum()), [0, 1, 2][r.randint(3)]),
        'empty inside': (lambda x, w, k: {'u': x[:, :0], 'v': bind(x.sum())}, 0),
        'flags': (lambda x, w, k: x > bind(w.sum()), 0),
        'no result': (lambda x, w, k: empty, 0),
        'draws': (lambda x, w, k: jax.random.normal(k, (2,)) * bind(x.sum()), 0),
    }  # fmt: skip
    names = [sorted(pool)[i] for i in r.permutation(len(pool))[: r.randint(1, 4)]]
    if all(pool[n][1] is None for n in names) and r.rand() < 0.5:
        names.append('entry')
    single = len(names) == 1 and r.rand() < 0.7
    wrong = r.rand() < 0.1  # an axis of None for a result that differs between the entries

    def fn(none, x, w, k):
        out = tuple(pool[n][0](x, w, k) for n in names)
        out = out[0] if single else out
        return (out, x.sum()) if wrong else out

    out_axes = tuple(pool[n][1] for n in names)
    out_axes = out_axes[0] if single else out_axes
    out_axes = (out_axes, None) if wrong else out_axes
    first = [0, None][r.randint(2)]
    axis = int(r.randint(-3, 3))
    args = (empty, np.moveaxis(x, 0, axis), w, keys)
    in_axes = (first, axis, None, 0)
    detail = {'batch': B, 'max_batch_size': size, 'results': names, 'out_axes': str(out_axes), 'in_axes': str(in_axes), 'wrong': bool(wrong)}
    ref = jax.vmap(fn, in_axes=in_axes, out_axes=out_axes)
    mine = folx.batched_vmap(fn, max_batch_size=size, in_axes=in_axes, out_axes=out_axes)
    mode = ['plain', 'jit'][r.randint(2)]
    probs, ev = [], {'edge calls': 1}
    want = exc = None
    try:
        want = ref(*args)
    except ValueError as e:
        exc = e
    del seen[:]
    try:
        got = (jax.jit(mine) if mode == 'jit' else mine)(*args)
    except Exception as e:
        if exc is None:
            probs.append(f'raised {type(e).__name__}: {str(e)[:200]}')
        ev['both raised'] = int(exc is not None)
    else:
        if exc is not None:
            probs.append(f'no error where jax.vmap raises {str(exc)[:100]}')
        elif jtu.tree_structure(got) != jtu.tree_structure(want):
            probs.append(f'structure {jtu.tree_structure(got)}, jax.vmap gives {jtu.tree_structure(want)}')
        else:
            for a, b in zip(jtu.tree_leaves(got), jtu.tree_leaves(want)):
                a, b = np.asarray(a), np.asarray(b)
                ev['edge results'] = ev.get('edge results', 0) + 1
                if a.shape != b.shape or a.dtype != b.dtype or not np.allclose(a, b, rtol=1e-9, atol=1e-12):
                    probs.append(f'{a.dtype}{a.shape} differs from the result {b.dtype}{b.shape} of jax.vmap')
    if [s for s in seen if s > size]:
        probs.append(f'{max(seen)} entries processed at once, at most {size} allowed')
    ev['probe_reports'] = len(seen)
    return {
        'status': 'violation' if probs else ('ok' if B > size else 'trivial'),
        'problems': [f'batch {B} in chunks of {size}, {names}: {p}' for p in probs[:5]], 'events': ev, 'evaluations': 1,
        'detail': detail, 'tags': ['edge', mode, *names],
    }  # fmt: skip


_probe = {}


def probe():
    """Identity primitive whose batching rule reports the batch size."""
    if _probe:
        return _probe['bind'], _probe['seen']
    import jax
    from jax.interpreters import ad, batching, mlir

    p = jax.core.Primitive('batch_probe')
    seen = []
    p.def_impl(lambda x: x)
    p.def_abstract_eval(lambda x: x)
    mlir.register_lowering(p, lambda ctx, x: [x])
    ad.deflinear2(p, lambda ct, x: [p.bind(ct)])

    def batch(args, dims):
        (x,), (d,) = args, dims
        seen.append(x.shape[d])
        return p.bind(x), d

    batching.primitive_batchers[p] = batch
    _probe.update(bind=p.bind, seen=seen)
    return p.bind, seen


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd

    if case.get('stratum') == 'edge':
        return edge(case)
    r = std.rng_of('C20', case['seed'], case['i'])
    bind, seen = probe()
    B = int([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13][r.randint(11)])
    size = int([1, 2, 3, 4, 5, 6, 7, 12, 15, B, max(1, B - 1), B + 1][r.randint(12)])
    n_arg = int(r.randint(1, 4))
    shapes = [[(2,), (3, 2), (), (2, 2)][r.randint(4)] for _ in range(n_arg)]
    args, axes, plain_axis = [], [], bool(r.rand() < 0.25)
    mapped_any = False

    def leaf(s, ax):
        a = r.randn(*s)
        if ax is None:
            return a if r.rand() < 0.7 else jnp.asarray(a)
        full = tuple(np.insert(np.asarray(s, int), ax if ax >= 0 else ax + len(s) + 1, B))
        a = r.randn(*full)
        kind = r.rand()
        if kind < 0.15:
            return (a * 3).astype(np.int32)
        return a if kind < 0.5 else jnp.asarray(a)

    for s in shapes:
        if plain_axis:
            ax = 0
        elif r.rand() < 0.25:
            ax = None
        else:
            ax = int(r.randint(-len(s) - 1, len(s) + 1))
        kind = r.randint(4)
        if kind == 0 and not plain_axis:
            # a tree with its own axes
            ax2 = [None, 0, -1][r.randint(3)]
            args.append({'a': leaf(s, ax), 'b': [leaf(s, ax2)]})
            axes.append({'a': ax, 'b': [ax2]})
            mapped_any |= ax is not None or ax2 is not None
            continue
        if kind == 1:
            args.append((leaf(s, ax), {'z': leaf(s, ax)}))
        else:
            args.append(leaf(s, ax))
        axes.append(ax)
        mapped_any |= ax is not None
    if not mapped_any:
        args[0], axes[0] = leaf(shapes[0], 0), 0
    if plain_axis:
        in_axes = 0
    else:
        in_axes = list(axes) if r.rand() < 0.2 else tuple(axes)
    kw = {}
    if r.rand() < 0.4:
        kw['scale'] = [2.0, np.float64(0.3), jnp.arange(B) * 1.0, {'u': np.ones(2)}][r.randint(4)]
    out_kind = int(r.randint(5))
    mode = ['plain', 'jit', 'grad', 'lapl', 'vmap', 'plain', 'default'][r.randint(7)]
    if mode == 'default' and not plain_axis:
        mode = 'plain'

    def core(*args, **kw):
        tot = 0.0
        first = None
        for a in jax.tree_util.tree_leaves(args):
            a = jnp.asarray(a) * 1.0
            if first is None:
                first = a
            tot = tot + jnp.sin(a).sum() * (1 + a.sum())
        for v in jax.tree_util.tree_leaves(kw):
            tot = tot * (1 + jnp.sum(jnp.asarray(v)))
        return bind(tot), jnp.outer(jnp.ones(2), jnp.atleast_1d(first).ravel()[:2]) * tot

    def fn(*args, **kw):
        s, m = core(*args, **kw)
        if mode == 'lapl':
            o = folx.forward_laplacian(lambda v: jnp.tanh(v).sum() * s, 0)(jnp.arange(3.0) * 0.3)
            s = o.laplacian
        if out_kind == 0:
            return s
        if out_kind == 1:
            return m
        if out_kind == 2:
            return s, m
        if out_kind == 3:
            return {'s': s, 'm': (m, jnp.float32(2.0) * s), 'n': jnp.int32(3) * jnp.sign(s).astype(jnp.int32)}
        return [m, {'q': s}]

    out_axes = 0
    if out_kind == 1:
        out_axes = [0, 1, 2, -1][r.randint(4)]
    elif out_kind == 2 and r.rand() < 0.6:
        out_axes = (0, [0, 1, 2, -1][r.randint(4)])
    elif out_kind == 3 and r.rand() < 0.5:
        out_axes = {'s': 0, 'm': (1, 0), 'n': 0}
    elif out_kind == 4 and r.rand() < 0.5:
        out_axes = [2, {'q': 0}]
    if mode == 'default':
        out_axes = 0

    def both(v):
        if mode == 'default':
            return v(fn)
        return v(fn, in_axes=in_axes, out_axes=out_axes)

    ref = jax.vmap(lambda *a: fn(*a, **kw), in_axes=tuple(in_axes) if isinstance(in_axes, list) else in_axes, out_axes=out_axes)
    mine = both(lambda *a, **k: folx.batched_vmap(*a, max_batch_size=size, **k))
    call = lambda *a: mine(*a, **kw)
    if mode == 'jit':
        call = jax.jit(call)
    elif mode == 'vmap':
        call, ref = (jax.vmap(c, in_axes=None, axis_size=2) for c in (call, ref))
    elif mode == 'grad':
        # derivative by a factor on every floating leaf
        def total(c):
            def g(t):
                xs = jax.tree_util.tree_map(lambda a: a * t if jnp.issubdtype(jnp.asarray(a).dtype, jnp.floating) else a, tuple(args))
                return sum(jnp.sum(o * 1.0) for o in jax.tree_util.tree_leaves(c(*xs)) if jnp.issubdtype(o.dtype, jnp.floating))

            return lambda *_: jax.value_and_grad(g)(jnp.float64(0.7))

        call, ref = total(call), total(ref)
    detail = {'batch': B, 'max_batch_size': size, 'in_axes': str(in_axes), 'out_axes': str(out_axes), 'mode': mode, 'args': str(jax.tree_util.tree_map(np.shape, tuple(args)))}
    ev = {}
    probs = []
    want = ref(*args)
    del seen[:]
    try:
        got = call(*args)
    except Exception as e:
        probs.append(f'raised {type(e).__name__}: {str(e)[:300]}')
    else:
        sizes = [s for s in seen]
        q, _ = fwd.agree(call, lambda *a: want, tuple(args), ev, rtol=1e-9)
        probs += q or []
        for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
            if a.dtype != b.dtype:
                probs.append(f'dtype {a.dtype}, jax.vmap gives {b.dtype}')
        over = [s for s in sizes if s > size and s != 2] if mode in ('vmap',) else [s for s in sizes if s > size]
        if over:
            probs.append(f'{max(over)} entries processed at once, at most {size} allowed')
        ev['probe_reports'] = len(sizes)
        ev['chunks'] = -(-B // size)
        ev['remainders'] = int(B > size and B % size > 0)
        if not sizes and out_kind != 1:
            probs.append('the probe reported nothing')
    probs = [f'batch {B} in chunks of {size}: {p}' for p in probs]
    return {
        'status': 'violation' if probs else ('ok' if B > size else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': max(1, ev.get('evals', 1)),
        'detail': detail, 'tags': [mode, f'out{out_kind}', 'remainder' if B % size else 'exact'],
    }  # fmt: skip
