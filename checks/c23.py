from mon import std

RULE = (
    'Stratum estimate: random programs (catalogue operations, loops, nested calls, forward Laplacians, random keys, '
    'mixed precisions, keyword and static arguments) whose memory estimate is compared with a liveness analysis of the '
    'traced program written independently (exact without nested calls, bounds with them); a callback and the standard '
    'output are watched. Stratum auto: automatically chunked functions under simulated memory limits from bytes to '
    'petabytes, compared with jax.vmap, recording the chosen chunk sizes. Non-trivial: at least two operations, or more than one chunk size tried.'
)
MIN_OK = 50
MIN_EVENTS = {'estimates': 80, 'exact': 20, 'bounded': 10, 'auto': 30}
FAMS = {'unary': 2, 'binary': 3, 'move': 2, 'contract': 1.5, 'reduce': 1, 'scatter': 0.5, 'control': 0.6, 'complex': 0.3, 'loop': 0.5}
KINDS = ['program', 'program', 'auto', 'structured', 'program', 'auto', 'lapl']


def cases(tier, seed):
    n = 140 if tier == 'quick' else 3500
    return [{'seed': seed, 'i': i, 'kind': KINDS[i % len(KINDS)]} for i in range(n)]


def bounds(jaxpr):
    """Smallest and largest number of bytes alive while the operations run in order."""
    import jax

    Literal = jax.core.Literal

    def size(v):
        a = v.aval
        return int(a.size) * a.dtype.itemsize

    def sub_jaxprs(eqn):
        if eqn.primitive.name in ('pjit', 'scan') and eqn.params.get('length', 1) > 0:
            return [eqn.params['jaxpr'].jaxpr]
        return []

    def go(j, with_inputs):
        args = list(j.invars) + list(j.constvars)
        last = {}
        for i, e in enumerate(j.eqns):
            for v in e.invars:
                if not isinstance(v, Literal):
                    last[v] = i
        for v in list(j.outvars) + args:
            if not isinstance(v, Literal):
                last[v] = len(j.eqns)
        base = sum(size(v) for v in args)
        live_hi = base
        live_lo = base if with_inputs else 0  # a call need not copy its operands
        lo, hi = (live_lo, base) if j.eqns else (0, 0)
        nested = False
        for i, e in enumerate(j.eqns):
            before = live_lo
            for v in e.outvars:
                if v in last:
                    live_lo += size(v)
                    live_hi += size(v)
            s_lo = s_hi = 0
            for s in sub_jaxprs(e):
                nested = True
                a, b, base_s, _ = go(s, False)
                s_lo, s_hi = a, b
            lo, hi = max(lo, live_lo, before + s_lo), max(hi, live_hi + s_hi)
            for v in {v for v in e.invars if not isinstance(v, Literal)}:
                if last[v] == i:
                    live_lo -= size(v)
                    live_hi -= size(v)
        return lo, hi, base, nested

    lo, hi, base, nested = go(jaxpr, True)
    return lo, hi, nested, len(jaxpr.eqns)


def run(case):
    r = std.rng_of('C23', case['seed'], case['i'], case['kind'])
    return auto(case, r) if case['kind'] == 'auto' else estimate(case, r)


def structured(r):
    import jax
    import jax.numpy as jnp
    from jax import lax

    k = 1 + int(r.randint(4))
    d = int(r.randint(1, 5))
    fs = [
        lambda x: lax.scan(lambda c, v: (c + v, c * v), x[0], x),
        lambda x: lax.scan(lambda c, _: (jnp.sin(c), c), x, None, length=k),
        lambda x: lax.fori_loop(0, k, lambda i, c: c * 2 + i, x),
        lambda x: jax.jit(lambda y: y @ y.T)(x) * jax.jit(jnp.sin)(x).sum(),
        lambda x: x * jax.random.normal(jax.random.PRNGKey(k), x.shape),
        lambda x: x * jax.random.normal(jax.random.key(k), x.shape),
        lambda x: ((x > 0) & (x < 2)).astype(jnp.bfloat16) * x.astype(jnp.float32),
        lambda x: lax.cond(x.sum() > 0, jnp.sin, jnp.cos, x) + jax.nn.relu(x),
        lambda x: lax.while_loop(lambda c: c.sum() < 3, lambda c: c * 1.5 + 1, x),
        lambda x: (lambda y: y * y)(jnp.sin(x)) + (lambda z: jnp.outer(z, z))(x.ravel())[: x.shape[0], : x.shape[1]],
        lambda x: jax.grad(lambda y: jnp.tanh(y @ y.T).sum())(x),
        lambda x: (x, 1.0, jnp.arange(5)),
        lambda x: jnp.sort(x + 1j * x).real,
        lambda x: lax.scan(lambda c, v: (c + jnp.outer(v, v).sum(), c), 0.0, jnp.tile(x, (1, 4))),
        lambda x: lax.scan(lambda c, v: (c + (jnp.ones((9, 9)) * v.sum()).max(), None), 0.0, x)[0],
        lambda x: jax.jit(lambda y: (y[:, None] * y[None]).sum())(x) * x,
        lambda x: jax.jit(lambda y: lax.fori_loop(0, 3, lambda i, c: c + jnp.outer(y, jnp.sin(c * y)).sum(), 0.0))(x),
        lambda x: jax.checkpoint(lambda y: jnp.sin(y).sum())(x),
        lambda x: lax.scan(lambda c, v: (c + v, jnp.outer(v, v)), x[0], x[:0]),
        lambda x: lax.scan(lambda c, _: (jnp.sin(c), jnp.outer(c, c)), x[0], None, length=0),
    ]
    i = int(r.randint(len(fs)))
    return fs[i], [r.randn(int(r.randint(2, 5)), d)], f'structured{i}'


def estimate(case, r):
    import contextlib
    import io

    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from folx.experimental.memory import compute_memory
    from mon import fwd, gen

    kind = case['kind']
    kw, static = {}, ()
    if kind == 'structured':
        f, xs, name = structured(r)
    else:
        rec = gen.gen_program(r, FAMS, gen.rint(r, 2, 8), n_out=3)
        if not rec['steps']:
            return {'status': 'trivial', 'events': {}}
        f, xs, name = gen.build(rec), list(gen.inputs_of(rec)), gen.describe(rec)
        if r.rand() < 0.3:
            xs = [np.asarray(x, np.float32) for x in xs]
            try:
                jax.eval_shape(f, *xs)
            except TypeError:  # loops whose carries change dtype
                xs = [np.asarray(x, np.float64) for x in xs]
    ran = []

    def note(_):
        ran.append(1)

    g = f
    if kind == 'lapl':
        T = [0, fwd.thresholds(r, sum(np.size(x) for x in xs), 1)[0]][r.randint(2)]
        h = folx.forward_laplacian(f, T)
        g = lambda *a: jax.tree_util.tree_map(lambda o: o, h(*a))
    form = int(r.randint(4))
    if form == 1 and kind != 'lapl':
        inner = g
        g = lambda *a, k, t: (inner(*a), k * 2.0, t['u'] + 1)
        kw = {'k': r.randn(3), 't': {'u': np.float32(2.0)}}
    if form == 2:
        inner2 = g
        pos = int(r.randint(len(xs) + 1))
        g = lambda *a: (inner2(*(a[:pos] + a[pos + 1 :])), a[0] if False else 0)
        xs = xs[:pos] + [7] + xs[pos:]
        static = pos if r.rand() < 0.5 else (pos,)
        if r.rand() < 0.4:  # counted from the end
            static = pos - len(xs) if r.rand() < 0.5 else (pos - len(xs),)
    if kind == 'program':
        g0 = g

        def g(*a, **k):
            o = g0(*a, **k)
            jax.debug.callback(note, jax.tree_util.tree_leaves(o)[0])
            return o

    probs, ev = [], {'estimates': 1}
    detail = {'program': name, 'keywords': sorted(kw), 'static': str(static), 'kind': kind}
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            got = compute_memory(g, *xs, static_argnums=static, **kw)
    except Exception as e:
        return {'status': 'violation', 'problems': [f'raised {fwd.short_tb(e)}'], 'events': ev, 'detail': detail}
    jax.effects_barrier()
    closed = jax.make_jaxpr(g, static_argnums=static)(*xs, **kw)
    lo, hi, nested, n_eqn = bounds(closed.jaxpr)
    if ran:
        probs.append('the function was executed')
    if buf.getvalue():
        probs.append(f'text was printed: {buf.getvalue()[:100]!r}')
    if not isinstance(got, int):
        probs.append(f'returned a {type(got).__name__}')
    elif not nested and got != hi:
        probs.append(f'estimate {got}, the operations keep up to {hi} bytes alive')
    elif not lo <= got <= hi:
        probs.append(f'estimate {got}, the operations keep between {lo} and {hi} bytes alive')
    ev['bounded' if nested else 'exact'] = 1
    with contextlib.redirect_stdout(io.StringIO()) as top:
        again = compute_memory(g, *xs, static_argnums=static, print_top_tensors=True, **kw)
    if again != got:
        probs.append(f'estimate {again} when the largest tensors are printed, {got} otherwise')
    if n_eqn and not nested and 'Largest Tensors' not in top.getvalue():
        probs.append('the largest tensors are not printed')
    return {
        'status': 'violation' if probs else ('ok' if n_eqn > 1 else 'trivial'), 'problems': [f'{kind}: {p}' for p in probs], 'events': ev,
        'evaluations': 2, 'tags': [kind, 'nested' if nested else 'flat'], 'detail': {**detail, 'bytes': got},
    }  # fmt: skip


class FakeDevice:
    def __init__(self, limit):
        self.limit = limit

    def memory_stats(self):
        return {'bytes_limit': self.limit}


def auto(case, r):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx.experimental.vmap as ev_mod
    from mon import fwd

    B = int(r.randint(1, 14))
    d = int(r.randint(1, 5))
    k = int(r.randint(6))
    fns = [
        lambda x: jnp.outer(x, x).sum() * jnp.sin(x),
        lambda x: jnp.tanh(x).sum(),
        lambda x: (x[0], {'s': (x @ x) ** 2}),
        lambda x: jax.lax.scan(lambda c, _: (jnp.sin(c), c.sum()), x, None, length=2),
        lambda x: x + jax.random.normal(jax.random.PRNGKey(0), x.shape),
        lambda x: jnp.sort(x) * x.sum(),
    ]
    fn = fns[k]
    axis = int(r.randint(2))
    x = r.randn(*((B, d) if axis == 0 else (d, B)))
    args, in_axes, kw = (x,), axis, {}
    if r.rand() < 0.4:
        w = r.randn(d)
        base = fn
        fn = lambda x, w: base(x * w)
        args, in_axes = (x, w), (axis, None)
    if r.rand() < 0.3:
        base2 = fn
        fn = lambda *a, scale: jax.tree_util.tree_map(lambda o: o * scale, base2(*a))
        kw = {'scale': [2.0, np.float64(0.5)][r.randint(2)]}
    ref = jax.vmap(lambda *a: fn(*a, **kw), in_axes=in_axes)
    sizes, broken = [], {'now': False}
    ev, probs = {'auto': 0}, []
    saved = jax.devices, ev_mod.batched_vmap, ev_mod.compute_memory

    def spy(f, *a, **k):
        out = saved[1](f, *a, **k)
        m = k.get('max_batch_size', a[0] if a else None)

        def call(*a, **k):
            sizes.append(m)
            return out(*a, **k)

        return call

    def estimate(*a, **k):
        if broken['now']:
            raise RuntimeError('injected fault')
        if model:  # a function that needs `base` bytes and `each` more per entry processed at once
            model['calls'] += 1
            return model['base'] + model['calls'] * model['each']
        return saved[2](*a, **k)

    chosen, model = [], {}
    try:
        ev_mod.batched_vmap, ev_mod.compute_memory = spy, estimate
        plan = [(1, 1.0, None), (int(2000 * (1 + r.rand() * 5)), 0.7, None), (10**15, 1.0, None), (10**6, 0.5, 'fault')]
        plan += [(int(10 ** (3 + 2 * r.rand())), [1.0, 0.5][r.randint(2)], 'model') for _ in range(2)]
        for limit, frac, mode in plan:
            fault = mode == 'fault'
            model.clear()
            if mode == 'model':
                model.update(calls=0, base=int(r.randint(0, 3000)), each=int(10 ** (1 + 2.5 * r.rand())))
            jax.devices = lambda *a, **k: [FakeDevice(limit)]
            broken['now'] = fault
            f = ev_mod.auto_batched_vmap(fn, in_axes=in_axes, max_fraction=frac)
            del sizes[:]
            jitted = bool(r.rand() < 0.3)
            call = lambda *a: f(*a, **kw)
            q, want = fwd.agree(jax.jit(call) if jitted else call, ref, args, ev, rtol=1e-9)
            if q is None:
                return {'status': 'trivial', 'events': ev}
            probs += [f'limit {limit}{" with a fault in the estimate" if fault else ""}: {p}' for p in q]
            ev['auto'] += 1
            ev['chunk sizes chosen'] = ev.get('chunk sizes chosen', 0) + bool(sizes)
            m = sizes[-1] if sizes else None
            chosen.append(m)
            if fault and m not in (None, 1):
                probs.append(f'chunks of {m} although the estimate failed, expected 1')
            if m is not None and m < 1:
                probs.append(f'chunks of {m} entries')
            if model and m is not None:
                need = lambda m: model['base'] + m * model['each']
                what = f'for {model["base"]} bytes and {model["each"]} per entry under {limit} * {frac}'
                if m > 1 and need(m) > limit * frac:
                    probs.append(f'chunks of {m} {what} do not fit')
                if m < B and need(m + 1) <= limit * frac:
                    probs.append(f'chunks of {m} of {B} entries {what} could be larger')
    except Exception as e:
        probs.append(f'raised {fwd.short_tb(e)}')
    finally:
        jax.devices, ev_mod.batched_vmap, ev_mod.compute_memory = saved
    return {
        'status': 'violation' if probs else 'ok', 'problems': probs[:5], 'events': ev, 'evaluations': ev.get('evals', 1), 'tags': ['auto', f'fn{k}'],
        'detail': {'batch': B, 'fn': k, 'axis': axis, 'chunk_sizes': [str(c) for c in chosen], 'keywords': sorted(kw)},
    }  # fmt: skip
