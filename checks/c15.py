from mon import std

RULE = (
    'Random smooth programs whose transformed function is placed under jit, vmap (different axes, shared parameters), '
    'lax.map, scan, gradients and Jacobians with respect to inputs and parameters, rematerialisation and a second '
    'forward Laplacian; compared with the same transformation of plain nested forward-mode derivatives. The number of '
    'times the function is traced on repeated calls is recorded too. Non-trivial: the reference result is not zero.'
)
MIN_OK = 40
MIN_EVENTS = {'evals': 60, 'traces': 2}
KINDS = ['jit', 'vmap', 'vmap_axis', 'vmap_param', 'map', 'scan', 'grad', 'grad_param', 'jacfwd', 'jacrev_param', 'remat', 'twice', 'vmap_grad', 'traced_once', 'eager_equal', 'jvp', 'hessian_param', 'vmap_vmap', 'grad_jac']
FAMS = {'unary': 2, 'binary': 3, 'move': 1, 'contract': 1, 'reduce': 1}
SMOOTH = {'neg', 'sqrt', 'rsqrt', 'log', 'log1p', 'exp', 'expm1', 'tanh', 'logistic', 'sin', 'cos', 'atan', 'square', 'cube', 'ipow_neg', 'pow_frac',
          'reciprocal', 'affine', 'rsub', 'sigmoid', 'softplus', 'silu', 'add', 'sub', 'mul', 'mul2', 'div', 'div2', 'pow', 'hyp', 'logaddexp',
          'reshape', 'transpose', 'slice', 'rev', 'concat', 'stack', 'take', 'index', 'roll', 'tile', 'broadcast', 'expand',
          'dense_layer', 'left_layer', 'einsum', 'dot_general', 'gram', 'attention', 'pairwise',
          'red_sum', 'red_mean', 'red_prod', 'red_var', 'red_std', 'red_logsumexp', 'red_norm', 'softmax', 'layernorm'}  # fmt: skip
ST = [[[3]], [[2, 2]], [[4]], [[3, 2]], [[2]], [[5]]]


# the other families take turns in every second case
TURN = ['logdet', ['to_complex', 'c_logdet'], 'cumsum', 'scatter_set', 'custom_jvp', 'nested_jit', 'scatter_add', 'red_max', 'dyn_slice', ['cis', 'c_abs2'],
        'dot_general', 'logdet', 'jit_vmap', 'mask_where', 'pattern_dot', ['to_complex2', 'c_logdet'], 'abs', 'fori', 'cond_dyn', 'atan', 'relu', 'max']

# calls of these are recognised by name only, see named_derivative
NAMED = ['silu', 'softplus', 'logaddexp', 'slogdet']


def cases(tier, seed):
    n = 95 if tier == 'quick' else 2500
    out = [{'seed': seed, 'i': i, 'kind': KINDS[i % len(KINDS)]} for i in range(n)]
    return [{'seed': seed, 'i': 0, 'kind': 'named_derivative', 'name': k} for k in NAMED] + out


def named_derivative(case):
    """The forward Laplacian of the gradient of a function known by its name."""
    import jax
    import jax.numpy as jnp
    import folx
    from mon import fwd

    name = case['name']
    fn = {
        'silu': jax.nn.silu,
        'softplus': jax.nn.softplus,
        'logaddexp': lambda x: jnp.logaddexp(x, x**2),
        'slogdet': lambda x: jnp.linalg.slogdet(jnp.outer(x, x) + 2 * jnp.eye(3))[1],
    }[name]
    g = jax.grad(lambda x: fn(x).sum())
    x = (jnp.asarray(std.rng_of('C15', case['seed'], name).randn(3)),)
    j = fwd.Judge(g, x)
    probs, _, _ = j.check(folx.forward_laplacian(g), x, dense=True)
    return j.result([f'gradient of {name}: {p}' for p in probs], known=f'named-derivative-{name}', tags=['named_derivative'])


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd, gen

    kind = case['kind']
    if kind == 'named_derivative':
        return named_derivative(case)
    r = std.rng_of('C15', case['seed'], case['i'])
    first = TURN[(case['i'] // 2 + 5 * case['seed']) % len(TURN)] if case['i'] % 2 else None
    first = [first] if isinstance(first, str) else list(first or [])
    if kind == 'twice' and any('det' in s for s in first):
        first = ['cumsum']
    rec = gen.gen_program(r, FAMS, gen.rint(r, 2, 3), first=first, styles=ST, n_out=1, pred=lambda o: o.name in SMOOTH and not (kind == 'twice' and o.name in NAMED), max_elems=12)
    if not rec['steps']:
        return {'status': 'trivial', 'events': {}}
    f0 = gen.build(rec)
    (x,) = gen.inputs_of(rec)
    n = x.size
    T = 0 if r.rand() < 0.5 else fwd.thresholds(r, n, 1)[0]
    eager = bool(r.rand() < 0.3) and kind not in ('traced_once', 'eager_equal') or kind == 'grad_jac'
    ev = {}
    traces = []

    def f(p, x):
        traces.append(1)
        return jnp.tanh(f0(x * p[0]) * p[1]) + p[2] * f0(x) ** 2

    p0 = jnp.asarray([0.8, 0.6, 0.3])

    def folx_x(p, x, full=False):
        o = folx.forward_laplacian(lambda x: f(p, x), T, disable_jit=eager or full)(x)
        if not isinstance(o, folx.api.FwdLaplArray):
            return o, jnp.zeros((n, *o.shape)), jnp.zeros_like(o)
        if T and not (eager or full):
            return o.x, o.laplacian  # the pattern of a jitted result is not static any more
        J = o.jacobian.dense_array
        return o.x, jnp.concatenate([J, jnp.zeros((n - J.shape[0], *J.shape[1:]))]), o.laplacian

    def ref_x(p, x):
        y, J, L = fwd.plain_triplet(lambda x: f(p, x))(x)[0]
        return (y, J, L) if not T or eager else (y, L)

    def lap(tr):
        return lambda p, x: tr(p, x)[-1]

    batch = jnp.asarray(r.randn(3, *x.shape) * 0.8)
    if kind == 'jit':
        tf = lambda t: jax.jit(t)
        args = (p0, x)
    elif kind == 'vmap':
        tf = lambda t: jax.vmap(t, (None, 0))
        args = (p0, batch)
    elif kind == 'vmap_axis':
        ax = int(r.randint(x.ndim + 1))
        oax = int(r.randint(2))
        tf = lambda t: jax.jit(jax.vmap(lambda p, x: jnp.atleast_1d(t(p, x)[-1]), (None, ax), oax))
        args = (p0, jnp.moveaxis(batch, 0, ax))
    elif kind == 'vmap_param':
        tf = lambda t: jax.vmap(t, (0, None))
        args = (p0 * jnp.asarray([[1.0], [0.5], [-0.7]]), x)
    elif kind == 'vmap_vmap':
        tf = lambda t: jax.vmap(jax.vmap(lap(t), (None, 0)), (0, None))
        args = (p0 * jnp.asarray([[1.0], [0.5]]), batch)
    elif kind == 'map':
        tf = lambda t: lambda p, xs: jax.lax.map(lambda v: t(p, v), xs)
        args = (p0, batch)
    elif kind == 'scan':
        tf = lambda t: lambda p, xs: jax.lax.scan(lambda c, v: (c + t(p, v)[-1].sum(), t(p, v)), 0.0, xs)
        args = (p0, batch)
    elif kind == 'grad':
        tf = lambda t: jax.grad(lambda x: (lap(t)(p0, x) ** 2).sum())
        args = (x,)
    elif kind == 'grad_param':
        tf = lambda t: jax.value_and_grad(lambda p, x: lap(t)(p, x).sum() + (t(p, x)[0] ** 2).sum())
        args = (p0, x)
    elif kind == 'jacfwd':
        tf = lambda t: jax.jacfwd(lap(t), argnums=1)
        args = (p0, x)
    elif kind == 'jvp':
        tf = lambda t: lambda p, x, v: jax.jvp(lambda p, x: t(p, x), (p, x), (p * 0.3, v))
        args = (p0, x, jnp.asarray(r.randn(*x.shape)))
    elif kind == 'jacrev_param':
        tf = lambda t: jax.jit(jax.jacrev(lap(t)))
        args = (p0, x)
    elif kind == 'hessian_param':
        tf = lambda t: jax.hessian(lambda p, x: lap(t)(p, x).sum())
        args = (p0, x)
    elif kind == 'remat':
        tf = lambda t: jax.grad(lambda p, x: jax.checkpoint(lap(t))(p, x).sum(), argnums=(0, 1))
        args = (p0, x)
    elif kind == 'grad_jac':
        # the propagated Jacobian depends on the parameters like the true one
        tf = lambda t: jax.value_and_grad(lambda p, x: (jnp.sin(t(p, x)[1]) ** 2).sum() + lap(t)(p, x).sum(), argnums=(0, 1))
        args = (p0, x)
    elif kind == 'vmap_grad':
        tf = lambda t: jax.jit(jax.vmap(jax.grad(lambda p, x: lap(t)(p, x).sum(), argnums=(0, 1)), (None, 0)))
        args = (p0, batch)
    elif kind == 'twice':
        # the Laplacian of the Laplacian
        def tf(t):
            if t is ref_x:
                return lambda p, x: fwd.plain_triplet(lambda x: ref_x(p, x)[-1])(x)[0]
            return lambda p, x: (lambda o: (o.x, o.jacobian.dense_array, o.laplacian))(
                folx.forward_laplacian(lambda x: folx_x(p, x)[-1], 0)(x)
            )

        # no threshold-dependent row count in the outer call
        args = (p0, x)
    detail = {'program': gen.describe(rec), 'T': T, 'kind': kind, 'eager': eager, 'recipe': rec}
    if kind == 'traced_once':
        fl = folx.forward_laplacian(lambda x: f(p0, x), T)
        probs = []
        others = jax.block_until_ready([batch[i] for i in range(3)])
        fl(x)
        k1 = len(traces)
        with compilations() as seen:
            for z in others:
                out = fl(z)
        ev['traces'] = 1
        if len(traces) != k1:
            probs.append(f'the function was traced again on calls with the same shapes ({len(traces) - k1} more times)')
        if seen:
            probs.append(f'calls with the same shapes were compiled again ({len(seen)} compiler events, {sorted(set(seen))})')
        q, want = fwd.agree(lambda x: _xl(fl(x)), lambda x: ref_x(p0, x)[:: 2 if not T else 1], (batch[1],), ev)
        if q is None:
            return {'status': 'trivial', 'events': ev}
        probs += q
    elif kind == 'eager_equal':
        a, b = (folx.forward_laplacian(lambda x: f(p0, x), T, disable_jit=e) for e in (False, True))
        q, want = fwd.agree(lambda x: _flat(a(x), n), lambda x: _flat(b(x), n), (x,), ev)
        if q is None:
            return {'status': 'trivial', 'events': ev}
        probs = q
    else:
        probs, want = fwd.agree(tf(folx_x), tf(ref_x), args, ev, rtol=1e-6)
        if probs is None:
            return {'status': 'trivial', 'events': ev}
        if kind == 'twice' and any('Type mismatch in scan' in q for q in probs):
            # the Laplacian of a loop's start is constant and not that of its end; such loops are refused
            return {'status': 'trivial', 'events': {**ev, 'loops refused': 1}}
    probs = [f'{kind} T={T} eager={eager}: {q}' for q in probs]
    moved = any(np.abs(np.asarray(l)).max(initial=0) > 1e-9 for l in jax.tree_util.tree_leaves(want))
    return {
        'status': 'violation' if probs else ('ok' if moved else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': ev.get('evals', 1),
        'detail': detail, 'tags': [kind, 'dense' if T == 0 else 'sparse'],
    }  # fmt: skip


class compilations:
    """Events of the tracer and the compiler inside a block."""

    active = None

    def __enter__(self):
        import jax

        cls = compilations
        if cls.active is None:
            jax.monitoring.register_event_duration_secs_listener(lambda name, *a, **k: cls.active.append(name) if name.startswith('/jax/core/compile/') else None)
        cls.active = self.seen = []
        return self.seen

    def __exit__(self, *exc):
        compilations.active = []


def _xl(o):
    import jax.numpy as jnp

    return (o.x, o.laplacian) if hasattr(o, 'laplacian') else (o, jnp.zeros_like(o))


def _flat(o, n):
    """Value, Jacobian data, pattern and Laplacian as arrays."""
    if not hasattr(o, 'laplacian'):
        return (o,)
    j = o.jacobian
    return (o.x, o.laplacian, j.data) + ((j.x0_idx * 1.0,) if j.weak else ())
