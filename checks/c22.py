from mon import std

RULE = (
    'Functions between real, complex and mixed arrays (polynomials, exponentials, products with complex constants, '
    'conjugates, moduli, pytrees of outputs, several arguments): vector-Jacobian products, reverse and forward '
    'Jacobians and Hessians of the differentiation helpers compared with derivatives assembled from real directional '
    'derivatives of real and imaginary parts. Complex inputs: holomorphic functions. '
    'Non-trivial: the reference derivative is not zero.'
)
MIN_OK = 40
MIN_EVENTS = {'evals': 150}
KINDS = ['rr', 'rc', 'cc', 'cr', 'rc', 'tree', 'args']


def cases(tier, seed):
    n = 112 if tier == 'quick' else 3000
    return [{'seed': seed, 'i': i, 'kind': KINDS[i % len(KINDS)]} for i in range(n)]


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from folx import ad
    from mon import fwd

    kind = case['kind']
    r = std.rng_of('C22', case['seed'], case['i'])
    shape = [(3,), (2,), (4,), (1,)][r.randint(4)] if kind not in ('tree', 'args') else [(3,), (2,)][r.randint(2)]
    n = int(np.prod(shape))
    m = int(r.randint(1, 4))
    A = r.randn(m, n)
    C = A + 1j * r.randn(m, n)
    b = r.randn(n) + 1j * r.randn(n)
    real_fs = [
        lambda x: jnp.sin(A @ x) * x[0], lambda x: (A @ (x**2)) ** 2, lambda x: jnp.tanh(x) * x.sum(), lambda x: jnp.exp(-(x**2).sum())[None], lambda x: jnp.sqrt(1 + x**2).sum(),
    ]  # fmt: skip
    cplx_fs = [
        lambda x: jnp.exp(1j * (A @ x)), lambda x: (C @ x) ** 2, lambda x: jnp.sin(C @ x) * x[0], lambda x: jnp.conj(C @ x) * x.sum(),
        lambda x: jnp.abs(C @ x + 0.1) * (1 + 2j), lambda x: (C @ x).real * 1j + x[0] ** 3, lambda x: jnp.log(2.5 + b @ x),
    ]  # fmt: skip
    holo_fs = [lambda z: jnp.exp(C @ z), lambda z: (C @ z) ** 2 + z[0], lambda z: jnp.sin(z) * (b @ z), lambda z: jnp.prod(z), lambda z: 1.0 / (3.0 + z)]
    to_real = [lambda z: jnp.abs(z) ** 2, lambda z: (C @ z).real, lambda z: (z * jnp.conj(z)).real.sum(), lambda z: jnp.imag(z**2)]
    ev, probs = {'evals': 0}, []
    # probes act on small random inputs
    xr = jnp.asarray(r.randn(*shape) * 0.7)
    xc = jnp.asarray(r.randn(*shape) * 0.7 + 1j * r.randn(*shape) * 0.7)
    detail = {'kind': kind, 'shape': shape}

    def close(name, got, want):
        ev['evals'] += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            probs.append(f'{name}: shape {got.shape}, expected {want.shape}')
            return
        if np.iscomplexobj(got) != np.iscomplexobj(want) and np.abs(np.imag(want)).max(initial=0) > 1e-9:
            probs.append(f'{name}: type {got.dtype}, expected {want.dtype}')
        bad = ~(np.abs(got - want) <= 1e-7 * max(1.0, np.abs(want).max(initial=0)))
        if bad.any():
            i = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
            probs.append(f'{name}: differs in {int(bad.sum())} of {bad.size} entries at {[int(k) for k in i]}: got {got[i]}, expected {want[i]}')

    def flat(f, template):
        """f as a function of one flat vector, flat output."""
        from jax.flatten_util import ravel_pytree

        z, unravel = ravel_pytree(template)
        return z, (lambda v: ravel_pytree(f(*unravel(v)))[0])

    def jac(g, z):
        """Rows: outputs. Directional derivatives along real unit vectors."""
        return jax.vmap(lambda t: jax.jvp(g, (z,), (t,))[1], out_axes=-1)(jnp.eye(z.size, dtype=z.dtype))

    def hess(g, z):
        eye = jnp.eye(z.size, dtype=z.dtype)
        d2 = lambda s, t: jax.jvp(lambda y: jax.jvp(g, (y,), (s,))[1], (z,), (t,))[1]
        return jax.vmap(jax.vmap(d2, (None, 0), -1), (0, None), -2)(eye, eye)

    def jac_vjp(f, z):
        """Rows of the Jacobian from vector-Jacobian products."""
        g = lambda v: jnp.ravel(f(v))
        out = g(z)
        pull = ad.vjp(g, z)
        return jnp.stack([pull(jnp.eye(out.size, dtype=out.dtype)[i])[0] for i in range(out.size)])

    if kind in ('rr', 'rc'):
        fs = real_fs if kind == 'rr' else cplx_fs
        k = int(r.randint(len(fs)))
        f, x = fs[k], xr
    elif kind in ('cc', 'cr'):
        fs = holo_fs if kind == 'cc' else to_real
        k = int(r.randint(len(fs)))
        f, x = fs[k], xc
    else:
        k = int(r.randint(len(cplx_fs)))
    detail['f'] = k
    moved = True
    if kind in ('rr', 'rc', 'cc'):
        g = lambda v: jnp.ravel(f(v))
        J, H = jac(g, x), hess(g, x)
        close('vjp', jac_vjp(f, x), J)
        # linear in the cotangent
        ct = r.randn(J.shape[0]) + (1j * r.randn(J.shape[0]) if jnp.iscomplexobj(J) else 0)
        close('vjp of a general cotangent', ad.vjp(g, x)(jnp.asarray(ct, g(x).dtype))[0], ct @ np.asarray(J))
        close('jacrev', ad.jacrev(f)(x), J)
        close('jacfwd', np.asarray(ad.jacfwd(f)(x)).reshape(J.shape), J)
        close('hessian', np.asarray(ad.hessian(f)(x)), H)
        close('hessian under jit', np.asarray(jax.jit(ad.hessian(f))(x)), H)
        xs = jnp.stack([x, 0.5 * x, -x])
        close('jacrev under vmap', jax.vmap(ad.jacrev(f))(xs), jax.vmap(lambda v: jac(g, v))(xs))
        moved = bool(np.abs(J).max() > 1e-9)
    elif kind == 'cr':
        # real output of complex input: JAX convention, the conjugate of the gradient
        g = lambda v: jnp.ravel(f(v))
        ct = jnp.asarray(r.randn(g(x).size))
        dre = jax.vmap(lambda t: jax.jvp(g, (x,), (t,))[1], out_axes=-1)(jnp.eye(n, dtype=x.dtype))
        dim = jax.vmap(lambda t: jax.jvp(g, (x,), (t,))[1], out_axes=-1)(1j * jnp.eye(n, dtype=x.dtype))
        close('vjp', ad.vjp(g, x)(ct)[0], ct @ (dre - 1j * dim))
    elif kind == 'tree':
        f = lambda t: {'a': cplx_fs[k](t['p']) * t['q'], 'b': (real_fs[1](t['p']), t['q'] ** 2)}
        t = {'p': xr, 'q': jnp.asarray(r.randn())}
        z, g = flat(f, (t,))
        J = jac(g, z)
        got = ad.jacrev(f)(t)
        close('jacrev of a tree', jnp.concatenate([got['p'].reshape(J.shape[0], -1), got['q'].reshape(J.shape[0], -1)], -1), J)
        got = ad.jacfwd(f)(t)
        lead = lambda v: v.reshape(-1, z.size)
        close('jacfwd of a tree', jnp.concatenate([lead(got['a']), lead(got['b'][0]), lead(got['b'][1])]), J)
    else:
        f = lambda u, v: cplx_fs[k](u) * v.sum() + real_fs[0](v)[0]
        u, v = xr, jnp.asarray(r.randn(*shape))
        z, g = flat(f, (u, v))
        J = jac(g, z)
        got = ad.jacrev(f)(u, v)
        close('jacrev of two arguments', jnp.concatenate([got[0].reshape(J.shape[0], -1), got[1].reshape(J.shape[0], -1)], -1), J)
        close('jacfwd of two arguments', ad.jacfwd(f)(u, v).reshape(-1, z.size), J)
        pull = ad.vjp(lambda u, v: jnp.ravel(f(u, v)), u, v)
        ct = jnp.asarray(r.randn(J.shape[0]) + 1j * r.randn(J.shape[0]), g(z).dtype)
        gu, gv = pull(ct)
        close('vjp of two arguments', jnp.concatenate([gu, gv]), ct @ J)
    for tree, want in (({'a': xr}, False), ((xr, [xc]), True), ([1.0, 2], False), ((), False)):
        if ad.is_tree_complex(tree) != want:
            probs.append(f'is_tree_complex is {not want} for {jax.tree_util.tree_map(lambda a: str(jnp.asarray(a).dtype), tree)}')
    probs = [f'{kind} f{k}: {p}' for p in probs]
    return {
        'status': 'violation' if probs else ('ok' if moved else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': max(1, ev['evals']),
        'tags': [kind], 'detail': detail, 'key': [kind, k, shape, case['i']],
    }  # fmt: skip
