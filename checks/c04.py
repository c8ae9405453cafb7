from mon import std

RULE = (
    'Row-local functions (elementwise maps, matrix products over features, reductions and softmax over features, '
    'reshapes, transposes, selections, concatenations and constants) of an (n, d) input (one or several arguments) with thresholds around d and '
    'around n*d; pooled functions of them; the same threshold as integer and as fraction. Observed: whether every '
    'returned Jacobian is sparse, how many entries it stores per output, and its exactness. '
    'Non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 50
MIN_EVENTS = {'kept': 40, 'dropped': 20, 'fraction': 15, 'dense0': 15}


def cases(tier, seed):
    n = 130 if tier == 'quick' else 2500
    return [{'seed': seed, 'i': i} for i in range(n)]


def build(r):
    """A function of x (n, d) acting on each row independently."""
    import jax
    import jax.numpy as jnp
    from mon.ops import const, choice, rint

    n, d = rint(r, 2, 5), rint(r, 1, 4)
    steps = []
    elementwise = bool(r.rand() < 0.35)  # no mixing of features: one entry per output
    pool = ['tanh', 'sin', 'sq', 'scale', 'addc', 'selfmul', 'div', 'stop', 'where', 'max', 'cond_jit', 'logaddexp', 'exp', 'pow', 'neg', 'silu']
    move = ['flip', 'perm', 'sliceT', 'dup', 'expand', 'tile', 'concat_self', 'dyn', 'pad']
    mixing = ['mat', 'softmax', 'norm', 'ln', 'feat_sum', 'pairprod', 'silu_mat', 'attn_row', 'feat_max', 'einsum', 'dotself']
    for _ in range(rint(r, 1, 4)):
        p = r.rand()
        steps.append(choice(r, pool if p < 0.35 else (move if p < 0.6 or elementwise else mixing)))
    cs = int(r.randint(1 << 30))
    perm = r.permutation(n)

    def f(x):
        h = x
        for k, s in enumerate(steps):
            w = h.shape[-1]
            C = lambda *sh: const(cs + k, sh)
            if s == 'tanh': h = jnp.tanh(h)
            elif s == 'sin': h = jnp.sin(h)
            elif s == 'sq': h = h**2
            elif s == 'scale': h = 1.7 * h
            elif s == 'addc': h = h + C(w)
            elif s == 'selfmul': h = h * jnp.cos(h)
            elif s == 'div': h = h / (1.5 + h * h)
            elif s == 'stop': h = h * jax.lax.stop_gradient(h)
            elif s == 'where': h = jnp.where(C(*h.shape) > 0, h, 0.3 * h)
            elif s == 'max': h = jnp.maximum(h, 0.1 * h)
            elif s == 'cond_jit': h = jax.jit(lambda u: u * 0.5 + jnp.sin(u))(h)
            elif s == 'logaddexp': h = jnp.logaddexp(h, 0.2)
            elif s == 'exp': h = jnp.exp(0.3 * h)
            elif s == 'pow': h = (h * h + 0.5) ** 1.5
            elif s == 'neg': h = -h
            elif s == 'silu': h = jax.nn.silu(h)
            elif s == 'flip': h = h[::-1]
            elif s == 'perm': h = h[perm % h.shape[0]]
            elif s == 'sliceT': h = h.T[:, : max(h.shape[0] - 1, 1)].T
            elif s == 'dup': h = jnp.repeat(h, 2, 0) if h.shape[0] <= 5 else h
            elif s == 'expand': h = h[:, None, :].reshape(-1, w)
            elif s == 'tile': h = jnp.tile(h, (1, 2)) if w <= 4 else h
            elif s == 'concat_self': h = jnp.concatenate([h, 2 * h], 0) if h.shape[0] <= 5 else h
            elif s == 'dyn': h = jax.lax.dynamic_slice_in_dim(h, 0, max(h.shape[0] - 1, 1), 0)
            elif s == 'pad': h = jnp.concatenate([h, C(1, w)], 0)
            elif s == 'mat': h = h @ C(w, 3)
            elif s == 'softmax': h = jax.nn.softmax(h, -1)
            elif s == 'norm': h = h / jnp.sqrt((h * h).sum(-1, keepdims=True) + 0.3)
            elif s == 'ln': h = (h - h.mean(-1, keepdims=True)) * jax.lax.rsqrt(h.var(-1, keepdims=True) + 0.5)
            elif s == 'feat_sum': h = h.sum(-1, keepdims=True) * C(2)
            elif s == 'pairprod': h = (h[:, :, None] * h[:, None, :]).reshape(h.shape[0], -1)[:, :6]
            elif s == 'silu_mat': h = jax.nn.silu(h @ C(w, 2) + 0.1)
            elif s == 'attn_row': h = jnp.tanh(h @ C(w, w)) @ const(cs + k + 50, (w, 2))
            elif s == 'feat_max': h = h.max(-1, keepdims=True) * C(2)
            elif s == 'einsum': h = jnp.einsum('nd,de->ne', h, C(w, 2))
            elif s == 'dotself': h = jnp.einsum('nd,nd->n', h, h)[:, None] * 0.5
        return h

    return f, n, d, steps, elementwise


def run(case):
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd

    r = std.rng_of('C04', case['seed'], case['i'])
    f, n, d, steps, elementwise = build(r)
    x = 0.8 * r.randn(n, d)
    N = n * d
    detail = {'n': n, 'd': d, 'steps': steps}
    j = fwd.Judge(f, (x,), n=N)
    if not j.ref.finite():
        return {'status': 'trivial', 'events': j.ev}
    probs = []
    ev = j.ev

    def kinds(facts):
        return [fc['kind'] for fc in facts if fc.get('kind', 'plain') != 'plain']

    def go(fn, T, what=''):
        p, facts, out = j.check(fn, (x,))
        probs.extend(f'T={T} {what}: {q}' for q in p)
        return kinds(facts), out

    lim = 1 if elementwise else d
    # (a) the threshold admits what one row depends on: nothing becomes dense
    T = int([lim, lim, d, d + 1, N, N + 3][r.randint(6)])
    T = max(T, 1)
    ks, out = go(folx.forward_laplacian(f, T), T)
    for k in ks:
        ev['kept'] = ev.get('kept', 0) + 1
        if not k.startswith('sparse'):
            probs.append(f'T={T}: row-local function of {d} features became dense')
        # normalised features mix an entry with an aggregate of its row: stored separately
        elif int(k[6:]) > lim and not {'softmax', 'norm', 'ln'} & set(steps):
            probs.append(f'T={T}: {k[6:]} entries stored, every output depends on at most {lim} inputs')
    # (b) threshold 0 never stores patterns
    ks, _ = go(folx.forward_laplacian(f, 0), 0)
    for k in ks:
        ev['dense0'] = ev.get('dense0', 0) + 1
        if k != 'dense':
            probs.append('sparse Jacobian although the threshold is 0')
    # (c) a pooled output depends on more inputs than admitted: dense
    ref_n = int(max((np.abs(J) > 1e-12).reshape(N, -1).sum(0).max() for _, J, _ in j.ref.leaves if J is not None))
    pool = [lambda h: h.sum(0), lambda h: h.sum(), lambda h: jnp.prod(1 + 0.1 * h, 0), lambda h: np.ones((1, h.shape[0])) @ h, lambda h: h.max(0)]
    g = pool[r.randint(len(pool))]
    jp = fwd.Judge(lambda x: g(f(x)), (x,), n=N)
    if jp.ref.finite():
        J = jp.ref.leaves[0][1]
        deps = int((np.abs(J) > 1e-12).reshape(N, -1).sum(0).max()) if J is not None else 0
        if deps > lim:
            # as integer and as the fraction that rounds down to it
            T = int(r.randint(lim, deps))
            fr = (T + 0.5) / N
            p, facts, o1 = jp.check(folx.forward_laplacian(lambda x: g(f(x)), T), (x,))
            probs += [f'pooled T={T}: {q}' for q in p]
            for k in kinds(facts):
                ev['dropped'] = ev.get('dropped', 0) + 1
                if k != 'dense':
                    probs.append(f'pooled T={T}: {k} although an output depends on {deps} inputs')
    # (d) fraction and integer are the same threshold
    T = int(r.randint(0, N))
    # of all inputs together, however they are split into arguments
    cuts = sorted(set(int(c) for c in r.randint(1, n, r.randint(0, 3))))
    parts = np.split(x, cuts)
    g = f if len(parts) == 1 else lambda *p: f(jnp.concatenate(p))
    detail['parts'] = [len(p) for p in parts]
    for fr in ((T + 0.5) / N,):
        if 0 < fr < 1:
            a, b = (folx.forward_laplacian(g, t)(*parts) for t in (T, fr))
            ev['fraction'] = ev.get('fraction', 0) + 1
            ja, jb = getattr(a, 'jacobian', None), getattr(b, 'jacobian', None)
            if (ja is None) != (jb is None):
                probs.append(f'fraction {fr} and integer {T} return different kinds of outputs')
            elif ja is not None:
                if ja.weak != jb.weak or ja.data.shape != jb.data.shape:
                    probs.append(f'fraction {fr} of {N} stores {jb.data.shape} (sparse {jb.weak}), threshold {T} stores {ja.data.shape} (sparse {ja.weak})')
                elif ja.weak and not np.array_equal(np.asarray(ja.x0_idx), np.asarray(jb.x0_idx)):
                    probs.append(f'fraction {fr} and integer {T} differ in their pattern')
                elif not np.allclose(ja.data, jb.data, rtol=1e-9, atol=1e-12):
                    probs.append(f'fraction {fr} and integer {T} differ in their data')
    detail['deps'] = ref_n
    return j.result(probs, evaluations=ev['evals'] + 2, detail=detail, tags=steps)
