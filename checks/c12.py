from mon import std

RULE = (
    'Loops over carries of 1-3 input dependent arrays of different shapes and optionally an integer counter, with '
    'input dependent and constant captured values, constant scanned pytrees, stacked outputs, both directions, '
    'unrolling, nesting, fori loops, loops inside jit, bodies that swap carries or change what they depend on; threshold 0 always, sparse thresholds exact or refused; '
    'non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 40
MIN_EVENTS = {'evals': 100, 'dense_out': 100, 'sparse_out': 10, 'trips': 100}
REFUSALS = ('ValueError', 'TypeError', 'AssertionError')


def cases(tier, seed):
    n = 130 if tier == 'quick' else 3000
    return [{'seed': seed, 'i': i} for i in range(n)]


def build(r):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from mon.ops import const, rint, choice

    n_carry = rint(r, 1, 3)
    shapes = [choice(r, [[3], [2, 2], [], [4], [1, 3], [2, 3]]) for _ in range(n_carry)]
    drift = bool(r.rand() < 0.3)  # the body only moves entries: the dependencies wander
    if drift and r.rand() < 0.5:
        shapes = [shapes[0]] * n_carry
    length = rint(r, 1, 4)
    reverse = bool(r.rand() < 0.4)
    unroll = choice(r, [1, 1, 1, 2])
    counter = bool(r.rand() < 0.5)
    dyn_const = bool(r.rand() < 0.5)
    kind = choice(r, ['scan', 'scan', 'scan', 'fori', 'nested', 'jit', 'noxs', 'scan2'])
    local = bool(r.rand() < 0.4)  # body elementwise and per carry: patterns stay put
    use_dict = bool(r.rand() < 0.5)
    cseed = int(r.randint(1 << 30))
    mix = [choice(r, ['tanh', 'mat', 'roll', 'softmax', 'sin', 'prodsum', 'static']) for _ in range(n_carry)]
    if local:
        mix = [choice(r, ['tanh', 'sin', 'scale', 'cube']) for _ in range(n_carry)]
        dyn_const = False
    if drift:
        mix = [choice(r, ['roll1', 'rev', 'perm', 'tanh', 'roll1']) for _ in range(n_carry)]
        mix[0] = choice(r, ['roll1', 'rev', 'perm'])
        dyn_const, local = False, False
    swap = drift and bool(r.rand() < 0.5)
    ys_kind = [choice(r, ['sq', 'sum', 'const', 'pair', 'row']) for _ in range(n_carry)]
    if local:
        ys_kind = [choice(r, ['sq', 'const', 'pair']) for _ in range(n_carry)]

    def step(k, c, w, z):
        m = mix[k]
        s = c.shape
        if m == 'tanh':
            o = jnp.tanh(c * w) + c
        elif m == 'sin':
            o = jnp.sin(c) * (1 + 0.1 * w)
        elif m == 'scale':
            o = c * w
        elif m == 'cube':
            o = 0.2 * c**3 + w * c
        elif m == 'mat':
            W = const(cseed + k, (c.size, c.size)) / max(c.size, 1) ** 0.5
            o = jnp.tanh((c.reshape(-1) @ W).reshape(s)) * w + c
        elif m == 'roll':
            o = c * 0.8 + (jnp.roll(c, 1, -1) if c.ndim else c * c) * w * 0.3
        elif m == 'softmax':
            o = (jax.nn.softmax(c, -1) if c.ndim else jnp.cos(c)) * w + c * 0.5
        elif m == 'roll1':
            o = jnp.roll(c, 1, 0) * (1 + 0.2 * w) if c.ndim else jnp.sin(c)
        elif m == 'rev':
            o = jnp.flip(c, 0) + 0.1 * w if c.ndim else c * w
        elif m == 'perm':
            o = c.reshape(-1)[np.random.RandomState(cseed).permutation(c.size)].reshape(s) ** 2
        elif m == 'static':
            o = c + w * 0.1
        else:
            o = 0.5 * c + 0.2 * c * c.sum() * w
        return o + (0.3 * z * c if z is not None else 0.0)

    def y_of(k, c, w):
        y = ys_kind[k]
        if y == 'sq':
            return c**2
        if y == 'sum':
            return c.sum() * w
        if y == 'const':
            return c, w * 2.0
        if y == 'pair':
            return {'a': c * w, 'b': -c}
        return c[..., None] * jnp.arange(1.0, 3.0)

    sizes = [int(np.prod(s, dtype=int)) for s in shapes]
    n_in = sum(sizes) + (1 if dyn_const else 0)

    def f(*xs):
        carry0 = [x.reshape(s) for x, s in zip(xs, shapes)]
        z = xs[-1].reshape(()) if dyn_const else None
        ws = const(cseed, (length,)) * 0.5
        wtree = {'w': ws, 'm': const(cseed + 9, (length, 2))} if use_dict else (ws, const(cseed + 9, (length, 2)))

        def body(c, x):
            i, cs = c
            if x is None:
                w = 0.7
            elif kind == 'fori':
                w = 0.3 + 0.1 * x
            else:
                a, b = (x['w'], x['m']) if use_dict else x
                w = a + 0.1 * b.sum()
            if i is not None:
                w = w + 0.05 * i
                i = i + 1
            new = [step(k, v, w, z) for k, v in enumerate(cs)]
            if swap:
                new = [u if u.shape == v.shape else v for u, v in zip(new[1:] + new[:1], new)]
            if kind == 'nested':
                new = list(jax.lax.fori_loop(0, 2, lambda j, t: tuple(jnp.sin(v) + 0.1 * j for v in t), tuple(new)))
            return (i, new), [y_of(k, v, w) for k, v in enumerate(new)]

        init = (jnp.int32(0) if counter else None, carry0)
        if kind == 'fori':
            i, cs = jax.lax.fori_loop(0, length, lambda j, c: body(c, j * 1.0)[0], init)
            ys = ()
        else:
            def loop(init):
                xs_ = None if kind == 'noxs' else wtree
                return jax.lax.scan(body, init, xs_, length=length, reverse=reverse, unroll=min(unroll, length))

            (i, cs), ys = (jax.jit(loop) if kind == 'jit' else loop)(init)
            if kind == 'scan2':
                (i, cs), ys2 = loop((i, cs))
                ys = (ys, ys2)
        return (cs, ys) + ((i,) if counter else ())

    args = tuple(0.7 * r.randn(*([int(np.prod(s, dtype=int))])) for s in shapes)
    if dyn_const:
        args += (r.randn(1) * 0.5,)
    about = dict(kind=kind, shapes=shapes, length=length, reverse=reverse, unroll=unroll, counter=counter, dyn_const=dyn_const, mix=mix, ys=ys_kind, local=local, drift=drift, swap=swap)
    return f, args, n_in, about


def run(case):
    import folx
    from mon import fwd

    r = std.rng_of('C12', case['seed'], case['i'])
    f, args, n, about = build(r)
    j = fwd.Judge(f, args, n=n)
    if not j.ref.finite():
        return {'status': 'trivial', 'events': j.ev}
    probs = []
    for T, eager in [(0, bool(r.rand() < 0.1)), (1000 if about['drift'] else fwd.thresholds(r, n, 1)[0], False)]:
        p, facts, _ = j.check(folx.forward_laplacian(f, T, disable_jit=eager), args, dense=(T == 0), eager=eager)
        if T == 0 and any(fc.get('kind', '').startswith('sparse') for fc in facts):
            p.append('sparse Jacobian although the threshold is 0')
        keeps = about['local'] and about['kind'] != 'nested' or n == 1
        if T and p and p[0].startswith('raised') and p[0].split()[1].rstrip(':') in REFUSALS and not keeps:
            j.ev['refused'] = j.ev.get('refused', 0) + 1
            continue
        probs += [f'T={T} eager={eager}: {q}' for q in p]
    j.ev['trips'] = about['length']
    return j.result(probs, evaluations=j.ev['evals'], detail=about, tags=[about['kind']] + about['mix'])
