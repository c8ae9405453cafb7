"""Random networks in the style of electronic wave functions, the programs the library is written for."""

from mon import std


def cases(seed, n):
    return [{'stratum': 'model', 'seed': seed, 'i': i} for i in range(n)]


def model(r):
    """A function of electron positions and a description of it."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from jax import nn

    n, m, d = int(r.randint(3, 6)), int(r.randint(1, 3)), int(r.randint(2, 5))
    up = int(r.randint(1, n))
    R = r.randn(m, 3) * 1.5
    flat_input = bool(r.rand() < 0.5)
    act = {'tanh': jnp.tanh, 'silu': nn.silu, 'gelu': nn.gelu, 'softplus': nn.softplus, 'sigmoid': nn.sigmoid}
    names = sorted(act)
    desc = {'electrons': n, 'spin up': up, 'nuclei': m, 'width': d, 'flat': flat_input, 'blocks': []}
    seeds = iter(r.randint(0, 2**31 - 1, size=200))

    def dense(y, out, bias=True):
        q = np.random.RandomState(next(ws))
        W = q.randn(y.shape[-1], out) / y.shape[-1] ** 0.5
        return y @ W + (q.randn(out) * 0.3 if bias else 0)

    def norms(v, eps=0.0):
        return jnp.linalg.norm(v, axis=-1, keepdims=True) if not eps else jnp.sqrt((v**2).sum(-1, keepdims=True) + eps)

    kinds = ['dense', 'residual', 'means', 'attention', 'messages', 'layernorm', 'heads', 'gate', 'cutoff']
    plan = [kinds[r.randint(len(kinds))] for _ in range(r.randint(1, 4))]
    a = [names[r.randint(len(names))] for _ in plan]
    feature = ['vectors', 'distances', 'both', 'log', 'rescaled'][r.randint(5)]
    head = ['slogdet', 'slogdet', 'determinants', 'jastrow', 'sum', 'both spins', 'complex'][r.randint(7)]
    cusp, masked = bool(r.rand() < 0.5), bool(r.rand() < 0.5)
    desc.update(blocks=list(zip(plan, a)), feature=feature, head=head, cusp=cusp, masked=masked)
    fixed = [int(s) for s in seeds]

    def pairs(x):
        if masked:  # add the identity below the root, mask the diagonal
            diff = x[:, None] - x[None]
            eye = jnp.eye(n)
            return diff, norms(diff + eye[..., None]) * (1 - eye)[..., None]
        return x[:, None] - x[None], norms(x[:, None] - x[None], 1e-2)

    def f(x):
        nonlocal ws
        ws = iter(fixed)
        x = x.reshape(n, 3)
        ae = x[:, None] - R
        rae = norms(ae)
        if feature == 'vectors':
            h = ae.reshape(n, -1)
        elif feature == 'distances':
            h = rae.reshape(n, -1)
        elif feature == 'log':
            h = (ae * jnp.log1p(rae) / rae).reshape(n, -1)
        elif feature == 'rescaled':
            h = jnp.concatenate([ae / (1 + rae), rae / (1 + rae)], -1).reshape(n, -1)
        else:
            h = jnp.concatenate([ae, rae], axis=-1).reshape(n, -1)
        h = jnp.tanh(dense(h, d))
        ee, ree = pairs(x)
        for kind, g in zip(plan, a):
            g = act[g]
            if kind == 'dense':
                h = g(dense(h, d))
            elif kind == 'residual':
                h = (h + g(dense(h, d))) / 2**0.5
            elif kind == 'means':
                u, v = h[:up].mean(0, keepdims=True), h[up:].mean(0, keepdims=True)
                h = g(dense(jnp.concatenate([h, jnp.tile(u, (n, 1)), jnp.broadcast_to(v, (n, d))], -1), d))
            elif kind == 'attention':
                q, k, v = dense(h, d, False), dense(h, d, False), dense(h, d, False)
                h = h + nn.softmax(q @ k.T / d**0.5, -1) @ v
            elif kind == 'heads':
                q, k, v = (dense(h, 2 * d, False).reshape(n, 2, d) for _ in range(3))
                w = nn.softmax(jnp.einsum('ihd,jhd->hij', q, k) / d**0.5)
                h = h + dense(jnp.einsum('hij,jhd->ihd', w, v).reshape(n, -1), d)
            elif kind == 'messages':
                e = g(dense(jnp.concatenate([ee, ree], -1), d))
                h = h + jnp.einsum('ijd,jd->id', e, h) / n
            elif kind == 'cutoff':
                e = jnp.exp(-ree) * dense(ree, d)
                h = jnp.tanh(h + (e * dense(h, d)[None]).sum(1))
            elif kind == 'layernorm':
                mu, var = h.mean(-1, keepdims=True), h.var(-1, keepdims=True)
                h = (h - mu) / jnp.sqrt(var + 1e-1)
            elif kind == 'gate':
                h = dense(h, d) * nn.sigmoid(dense(h, d))
        out = 0.0
        if cusp:
            i, k = np.triu_indices(n, 1)
            out = -(0.5 / (1 + norms(x[i] - x[k]))).sum()
        env = lambda o: jnp.exp(-rae[..., 0] @ np.abs(np.random.RandomState(7).randn(m, o)) * 0.5)
        if head == 'jastrow':
            return out + dense(g_last(h), 1).sum()
        if head == 'sum':
            return out + nn.logsumexp(dense(h, 3).sum(0))
        if head == 'slogdet':
            s, l = jnp.linalg.slogdet(dense(h, n) * env(n))
            return l + out
        if head == 'complex':
            s, l = jnp.linalg.slogdet((dense(h, n) + 1j * dense(h, n)) * env(n))
            return l + out
        if head == 'both spins':
            o = dense(h, n)
            _, l1 = jnp.linalg.slogdet(o[:up, :up])
            _, l2 = jnp.linalg.slogdet(o[up:, up:])
            return l1 + l2 + out
        o = jnp.moveaxis((dense(h, 2 * n) * env(2 * n)).reshape(n, 2, n), 1, 0)
        s, l = jnp.linalg.slogdet(o)
        top = jax.lax.stop_gradient(l.max())
        return jnp.log(jnp.abs((s * jnp.exp(l - top)).sum())) + top + out

    g_last = act[names[r.randint(len(names))]]
    ws = iter(fixed)
    x = r.randn(n, 3)
    return f, (x.reshape(-1) if flat_input else x), desc


def run(prop, case, dense=False):
    import jax
    import numpy as np
    import folx
    from mon import fwd

    r = std.rng_of(prop, 'model', case['seed'], case['i'])
    f, x, desc = model(r)
    n = x.size
    j = fwd.Judge(f, (x,), n=n)
    if not j.ref.finite():
        return {'status': 'trivial', 'events': j.ev}
    probs = []
    thresholds = [0] if dense else [[3, 6][r.randint(2)], [1, 9, n, 0.6, 1000][r.randint(5)]]
    for T in thresholds:
        fn = folx.forward_laplacian(f, T)
        p, _, _ = j.check(fn, (x,), dense=dense)
        probs += [f'T={T}: {q}' for q in p]
    if case['i'] % 3 == 0:  # the usage of the documentation: operators under vmap
        batch = np.stack([x, 0.9 * x + 0.1, x[::-1]])
        T = thresholds[0]
        got = jax.jit(jax.vmap(folx.ForwardLaplacianOperator(T)(f)))(batch)
        loop = jax.jit(jax.vmap(folx.LoopLaplacianOperator()(f)))(batch)
        for k, (a, b) in enumerate(zip(got, loop)):
            a, b = np.asarray(a).reshape(3, -1), np.asarray(b).reshape(3, -1)
            ok = np.isfinite(b).all(1)
            if not np.allclose(a[ok], b[ok], rtol=1e-5, atol=1e-5 * (1 + np.abs(b[ok]).max(initial=0))):
                probs.append(f'T={T}: {"Laplacian gradient".split()[k]} of a batch differs from the loop operator')
        j.ev['evals'] += 2
    j.ev['models'] = 1
    return j.result(probs, evaluations=j.ev['evals'], detail=desc, tags=['model', desc['head'], *{k for k, _ in desc['blocks']}], key=[str(desc), case['i']])
