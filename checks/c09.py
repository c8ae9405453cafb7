from mon import std

RULE = (
    'Log-determinants, determinant signs and determinants of (batches of) 1x1 to 4x4 matrices that are inputs, affine '
    'or nonlinear functions of the inputs, products, or mostly constant with dependent rows or entries; real matrices '
    'of either sign and complex ones; plus the many-determinant log-sum pattern of wave functions; threshold 0 and two '
    'sparse thresholds; non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 40
MIN_EVENTS = {'evals': 100, 'dense_out': 60, 'neg_sign': 5, 'complex': 10}


def cases(tier, seed):
    n = 130 if tier == 'quick' else 3000
    deep = [{'seed': seed, 'i': i, 'deep': True} for i in range(n // 10)]  # several leading axes
    return deep + [{'seed': seed, 'i': i} for i in range(n)]


def build(r, deep=False):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from mon.ops import const, rint, choice, fit

    n = choice(r, [1, 2, 2, 3, 3, 4])
    batch = choice(r, [[], [], [2], [1], [2, 1]]) if n < 4 else []
    if deep:
        n, batch = choice(r, [(2, [2, 2]), (2, [2, 1, 2]), (1, [2, 3, 2]), (2, [2, 2, 1]), (1, [3, 2]), (2, [1, 2, 2])])
    kind = choice(r, ['input', 'affine', 'nonlin', 'outer', 'row', 'entry', 'complex', 'cphase', 'orbitals', 'product', 'hermitian'])
    outk = choice(r, ['log', 'both', 'det', 'multi', 'sign_log', 'fn'])
    cs = int(r.randint(1 << 30))
    shape = (*batch, n, n)
    size = int(np.prod(shape))
    n_x = size if kind in ('input', 'affine', 'nonlin', 'complex', 'product', 'hermitian') and size <= (16 if deep else 12) else rint(r, 2, 6)
    if kind == 'orbitals':
        n_x = n * 2
    base = const(cs, shape) + (2.0 * np.eye(n) if r.rand() < 0.5 else 0.0)

    def mat(x):
        if kind == 'input':
            return fit(x, shape) * 0.4 + base
        if kind == 'affine':
            return jnp.tensordot(const(cs + 1, (n, n)), fit(x, shape), axes=(1, len(shape) - 2)).reshape(shape) * 0.4 + base
        if kind == 'nonlin':
            return jnp.tanh(fit(x, shape, 2)) * 0.6 + jnp.sin(fit(x, shape)) * 0.3 + base
        if kind == 'outer':
            u = fit(jnp.sin(x), (*batch, n, 1))
            return u * fit(x, (*batch, 1, n), 3) + base
        if kind == 'row':
            return jnp.asarray(base).at[..., 0, :].set(fit(jnp.exp(0.3 * x), (*batch, n)))
        if kind == 'entry':
            return jnp.asarray(base).at[..., n - 1, 0].add(fit(x, tuple(batch)) ** 2 + 0.3)
        if kind == 'complex':
            return fit(x, shape) * (0.4 + 0.3j) + 1j * 0.3 * jnp.sin(fit(x, shape, 2)) + base + 0.4j * const(cs + 2, shape)
        if kind == 'cphase':
            return jnp.exp(1j * fit(x, shape, 2)) * base + 0.5j * np.eye(n)
        if kind == 'orbitals':
            pos = x.reshape(n, 2)
            phi = jnp.tanh(pos @ const(cs + 3, (2, n))) * jnp.exp(-0.2 * (pos**2).sum(-1, keepdims=True))
            return jnp.broadcast_to(phi, shape) * (1 + 0.2 * const(cs + 4, (*batch, 1, 1))) + 0.4 * base
        if kind == 'product':
            a = fit(x, shape) * 0.5 + base
            return a @ jnp.swapaxes(a, -1, -2) * 0.5 + np.eye(n)
        a = fit(x, shape) + 1j * fit(jnp.sin(x), shape, 2)
        return 0.3 * (a + jnp.swapaxes(a, -1, -2).conj()) + 1.5 * np.eye(n) + 0.1j * base

    def f(x):
        m = mat(x)
        if outk == 'det':
            return jnp.linalg.det(m)
        s, l = jnp.linalg.slogdet(m)
        if outk == 'log':
            return l
        if outk == 'both':
            return s, l
        if outk == 'sign_log':
            return s * l
        if outk == 'fn':
            return jnp.sin(l) * s, x * l.sum()
        top = jax.lax.stop_gradient(l.max())
        tot = (s * jnp.exp(l - top)).sum() * 1.0
        return jnp.log(jnp.abs(tot)) + top

    x = 0.8 * r.randn(n_x)
    m = np.asarray(mat(jnp.asarray(x)))
    about = dict(n=n, batch=batch, kind=kind, out=outk, inputs=n_x)
    return f, x, m, about


def run(case):
    import folx
    import numpy as np
    from mon import fwd

    r = std.rng_of('C09', case['seed'], case['i'])
    f, x, m, about = build(r, case.get('deep', False))
    cond = np.linalg.cond(m).max()
    if cond > 1e3:
        return {'status': 'trivial', 'events': {}}
    j = fwd.Judge(f, (x,), n=x.size)
    if not j.ref.finite():
        return {'status': 'trivial', 'events': j.ev}
    probs = []
    lo, hi = [1, 2, 3, 0.3, 0.5][r.randint(5)], [x.size - 1, x.size, x.size + 1, 1000, 0.99][r.randint(5)]
    for T in (0, lo, max(hi, 1) if hi != 0.99 else hi):
        p, _, _ = j.check(folx.forward_laplacian(f, T), (x,), dense=(T == 0), rtol=1e-5)
        probs += [f'T={T}: {q}' for q in p]
    if m.dtype.kind == 'c':
        j.ev['complex'] = 1
    else:
        j.ev['neg_sign'] = int((np.linalg.det(m) < 0).any())
    return j.result(probs, evaluations=j.ev['evals'], detail=about, tags=[about['kind'], about['out'], f'n{about["n"]}'])
