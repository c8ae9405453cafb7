from mon import std

RULE = (
    'Random scalar functions of one array of any shape (catalogue programs reduced to a scalar, functions that ignore '
    'some or all inputs, constants, complex values for the forward operator), the forward operator with several '
    'thresholds, the loop and the parallel operator: Laplacian and gradient compared with the reference and with each '
    'other, alone and under jit, vmap, scan, parameter gradients and in single precision; array-valued functions for '
    'the forward operator; functions of 136 to 304 inputs. Non-trivial: the reference gradient is not zero.'
)
MIN_OK = 30
MIN_EVENTS = {'evals': 100, 'forward': 80, 'loop': 30, 'parallel': 30}
FAMS = {'unary': 2, 'binary': 3, 'move': 1.5, 'contract': 1.5, 'reduce': 1.5, 'det': 0.5, 'control': 0.5}
ST = [[[3]], [[2, 2]], [[4]], [[3, 2]], [[1]], [[]], [[2, 3]], [[2, 2, 2]], [[1, 3]], [[5]]]
REV_BAD = {'loop_fori'}
KINDS = ['plain', 'jit', 'vmap', 'plain', 'param', 'f32', 'partial', 'map', 'array', 'constant']


def cases(tier, seed):
    n = 80 if tier == 'quick' else 2000
    big = [{'seed': seed, 'i': i, 'kind': 'large'} for i in range(6 if tier == 'quick' else 120)]
    return big + [{'seed': seed, 'i': i, 'kind': KINDS[i % len(KINDS)]} for i in range(n)]


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd, gen, large

    kind = case['kind']
    r = std.rng_of('C21', case['seed'], case['i'])
    rec = gen.gen_program(r, FAMS, gen.rint(r, 1, 4), styles=ST, n_out=1, max_elems=20)
    if not rec['steps']:
        return {'status': 'trivial', 'events': {}}
    f0 = gen.build(rec)
    (x,) = gen.inputs_of(rec, 0.7)
    x = np.asarray(x)
    n = max(1, x.size)
    w = 0.5 + float(r.rand())

    def scalar(p, x):
        y = f0(x)
        y = y.real if jnp.iscomplexobj(y) else y
        out = jnp.tanh(p * y).mean() * w + 0.1 * (p * x.ravel()[0]) ** 2
        return out.astype(x.dtype)

    if kind == 'partial':
        keep = int(r.randint(n))
        f = lambda x: jnp.cos(x.ravel()[keep]) * w + x.ravel()[keep] ** 3
    elif kind == 'constant':
        c = float(r.randn())
        f = [lambda x: jnp.asarray(c), lambda x: jnp.sin(jax.lax.stop_gradient(x)).sum(), lambda x: (x > 0).sum() * 1.0][r.randint(3)]
    elif kind == 'large':
        big, x, _ = large.program(r, int(r.randint(1, 3)))
        n = x.size
        scale = r.randn(n)
        f = lambda x: (jnp.sin(big(x)) * scale).sum() + 0.1 * (x.ravel() @ scale) ** 2
    elif kind == 'array':
        f = lambda x: f0(x) * w
    else:
        f = lambda x: scalar(1.0, x)
    ops = {f'forward({T})': folx.ForwardLaplacianOperator(T) for T in {0, fwd.thresholds(r, n, 1)[0], int(r.randint(1, n + 2))}}
    if kind != 'array':
        ops['loop'] = folx.LoopLaplacianOperator()
        ops['parallel'] = folx.ParallelLaplacianOperator()
    ev = {'evals': 0}
    j = fwd.Judge(f, (jnp.asarray(x),))
    if not j.ref.finite():
        return {'status': 'trivial', 'events': ev}
    if j.ref.leaves[0][1] is None:
        return {'status': 'trivial', 'events': ev}
    probs = []
    rtol = 1e-6

    def ref_at(f):
        def g(x):
            (y, J, L), = fwd.plain_triplet(f)(x)
            return L, J

        return g

    batch = jnp.asarray(r.randn(3, *x.shape) * 0.7)
    p = jnp.float64(0.8)
    args = (jnp.asarray(x),)
    if kind == 'f32':
        args = (jnp.asarray(x, jnp.float32),)
    lift = lambda op: lambda x: op(f)(x)
    ref = ref_at(f)
    if kind == 'jit':
        lift = lambda op: jax.jit(op(f))
    elif kind == 'vmap':
        lift, ref, args = lambda op: jax.jit(jax.vmap(op(f))), jax.vmap(ref), (batch,)
    elif kind == 'map':
        lift, ref, args = lambda op: lambda b: jax.lax.map(op(f), b), jax.vmap(ref), (batch,)
    elif kind == 'param':
        # derivative of the Laplacian with respect to a parameter of f
        lift = lambda op: lambda x: jax.value_and_grad(lambda p: op(lambda x: scalar(p, x))(x)[0])(p)
        ref = lambda x: jax.value_and_grad(lambda p: ref_at(lambda x: scalar(p, x))(x)[0])(p)
    tol = {'f32': 3e-4}.get(kind, rtol)
    if kind == 'f32':
        want = ref(jnp.asarray(np.asarray(args[0], np.float64)))
        low = fwd.finite(want) and fwd.tree_diff(ref(args[0]), want, 3e-5, 0)
        if low or not fwd.finite(want):
            return {'status': 'trivial', 'events': ev}
        ref = lambda x: want
    for name, op in sorted(ops.items()):
        q, want = fwd.agree(lift(op), ref, args, ev, rtol=tol)
        if q is None:
            return {'status': 'trivial', 'events': ev}
        ev[name.split('(')[0]] = ev.get(name.split('(')[0], 0) + 1
        probs += [f'{kind} {name}: {v}' for v in q]
        if kind == 'f32' and not q and f(args[0]).dtype == args[0].dtype:
            ev['types'] = ev.get('types', 0) + 1
            got = lift(op)(*args)
            bad = [str(a.dtype) for a in jax.tree_util.tree_leaves(got) if a.dtype != f(args[0]).dtype]
            if bad:
                probs.append(f'{name}: results of type {bad}, the function gives {f(args[0]).dtype}')
    moved = j.moved() or kind == 'constant'
    return {
        'status': 'violation' if probs else ('ok' if moved else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': ev['evals'],
        'tags': [kind], 'detail': {'program': gen.describe(rec), 'kind': kind, 'operators': sorted(ops), 'shape': x.shape, 'recipe': rec},
    }  # fmt: skip
