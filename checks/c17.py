from mon import std

RULE = (
    'Random programs evaluated in single precision (with and without 64 bit mode), half and brain-float precision, '
    'with arguments of different precisions, with preferred types of contractions and with Python scalars as operands, at threshold 0 and a sparse one. Expected types: those of the plain '
    'evaluation. Expected numbers: the double precision derivatives, with a tolerance set by the error of plain '
    'differentiation in the low precision. Non-trivial: the reference Jacobian is not zero and well conditioned.'
)
MIN_OK = 50
MIN_EVENTS = {'evals': 100, 'leaves': 100, 'sparse_out': 20}
MODES = ['f32', 'f32_only', 'mixed', 'f16', 'bf16', 'preferred', 'scalars']
FAMS = {'unary': 2, 'binary': 3, 'move': 2, 'contract': 1, 'reduce': 1.5, 'control': 0.4, 'scatter': 0.4, 'complex': 0.5, 'cunary': 0.5, 'creal': 0.5, 'cbinary': 0.5, 'creduce': 0.3}
HALF = {'unary': 2, 'binary': 3, 'move': 2, 'contract': 0.5, 'reduce': 0.7}
NO = {'roots', 'det', 'slogdet'}


def cases(tier, seed):
    n = 140 if tier == 'quick' else 2500
    return [{'seed': seed, 'i': i, 'mode': MODES[i % len(MODES)]} for i in range(n)]


def cast(xs, mode, r):
    import jax.numpy as jnp
    import numpy as np

    kinds = {'f32': [jnp.float32], 'f32_only': [jnp.float32], 'mixed': [jnp.float32, jnp.float64, jnp.bfloat16], 'f16': [jnp.float16], 'bf16': [jnp.bfloat16]}[mode]
    out = [jnp.asarray(x, kinds[r.randint(len(kinds))]) for x in xs]
    return tuple(out)


def run(case):
    import contextlib

    import jax
    import jax.numpy as jnp
    import numpy as np
    from jax.experimental import disable_x64
    from mon import fwd, gen

    mode = case['mode']
    r = std.rng_of('C17', case['seed'], case['i'])
    if mode == 'preferred':
        return preferred(r)
    if mode == 'scalars':
        return scalars(r)
    half = mode in ('f16', 'bf16')
    rec = gen.gen_program(r, HALF if half else FAMS, gen.rint(r, 1, 3 if half else 5), n_out=2, pred=lambda o: not (set(o.fam) & NO))
    if not rec['steps']:
        return {'status': 'trivial', 'events': {}}
    f = gen.build(rec)
    lo = cast(gen.inputs_of(rec, 0.6), mode, r)
    configs = [(0, bool(r.rand() < 0.2)), (fwd.thresholds(r, gen.n_inputs(rec), 1)[0], bool(r.rand() < 0.2))]
    ev = {'evals': 0, 'leaves': 0, 'sparse_out': 0}
    ctx = disable_x64 if mode == 'f32_only' else contextlib.nullcontext
    hi = tuple(np.asarray(x).astype(np.float64) for x in lo)
    n = gen.n_inputs(rec)
    tags = [mode] + sorted({s[0] for s in rec['steps']})
    detail = {'program': gen.describe(rec), 'mode': mode, 'configs': configs, 'dtypes': [str(x.dtype) for x in lo], 'recipe': rec}
    if mode == 'f16':
        # no half precision kernels on this CPU target: the types of the traced program
        probs = abstract(f, lo, configs, ev)
        return {'status': 'violation' if probs else 'ok', 'problems': probs[:5], 'events': ev, 'evaluations': ev['evals'], 'tags': tags, 'detail': detail}
    probs, moved = judge(f, lo, hi, configs, n, ctx, half, ev, False)
    if probs:
        # not if it is the compiler
        probs, moved = judge(f, lo, hi, configs, n, ctx, half, {}, True)
        if not probs:
            ev['xla_defect'] = 1
    return {
        'status': 'violation' if probs else ('ok' if moved else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': ev['evals'],
        'tags': tags, 'detail': detail,
    }  # fmt: skip


def scalars(r):
    """Python scalars as operands do not take part in type promotion."""
    import contextlib

    import jax
    import jax.numpy as jnp
    import numpy as np
    from jax.experimental import disable_x64

    call = jax.jit(lambda x, c: jnp.sin(x) * c + c)
    table = {
        'logaddexp': jnp.logaddexp, 'logaddexp reversed': lambda x, c: jnp.logaddexp(c, x), 'maximum': lambda x, c: jnp.maximum(x, c - 2.0), 'power': lambda x, c: (x * x + 1) ** c,
        'base': lambda x, c: jnp.power(c + 1.5, x), 'add': lambda x, c: x + c, 'rsub': lambda x, c: c - x, 'div': lambda x, c: x / (c + 1.5), 'rdiv': lambda x, c: c / (x * x + 1),
        'where': lambda x, c: jnp.where(x > -5, x, c), 'clip': lambda x, c: jnp.clip(x, -4 + c, 4 + c), 'hypot': lambda x, c: jnp.hypot(x, c + 1.5), 'arctan2': lambda x, c: jnp.arctan2(x, c + 1.5),
        'elu': jax.nn.elu, 'celu': lambda x, c: jax.nn.celu(x, c + 1.5), 'softplus': lambda x, c: jax.nn.softplus(x * c), 'silu': lambda x, c: jax.nn.silu(x + c), 'sigmoid': lambda x, c: jax.nn.sigmoid(c * x),
        'compiled': call, 'compiled reversed': lambda x, c: jax.jit(lambda c, x: jnp.cos(x) - c)(c, x), 'integer': lambda x, c: x * 3 - 2 // 1, 'stack': lambda x, c: jnp.stack([x, jnp.full_like(x, c)])[0] + x,
        'loop': lambda x, c: jax.lax.fori_loop(0, 2, lambda i, y: jnp.sin(y) * c + x, jnp.cos(x)), 'pad': lambda x, c: jnp.pad(x, [(0, 1)] * x.ndim, constant_values=c) * 1.5,
    }  # fmt: skip
    steps = [(sorted(table)[r.randint(len(table))], float(np.round(r.rand() - 0.3, 2))) for _ in range(r.randint(1, 4))]
    if r.rand() < 0.35:
        steps[0] = (['logaddexp', 'logaddexp reversed'][r.randint(2)], steps[0][1])

    def f(x):
        for k, c in steps:
            x = table[k](x, c)
        return x

    mode = ['f32', 'bf16', 'f16', 'f32_only'][r.randint(4)]
    dt = {'f32': jnp.float32, 'bf16': jnp.bfloat16, 'f16': jnp.float16, 'f32_only': jnp.float32}[mode]
    x = r.randn(*[(), (3,), (2, 2), (1,)][r.randint(4)]) * 0.6
    lo = (jnp.asarray(x, dt),)
    hi = (np.asarray(lo[0]).astype(np.float64),)
    n = int(np.size(x))
    configs = [(0, bool(r.rand() < 0.3)), (n, bool(r.rand() < 0.3))]
    ev = {'evals': 0, 'leaves': 0, 'sparse_out': 0}
    detail = {'steps': steps, 'mode': mode, 'shape': list(np.shape(x)), 'configs': configs}
    tags = ['scalars', mode]
    if mode == 'f16':
        configs = configs[:1]  # sparse mode evaluates constants, for which there are no half precision kernels
        probs, moved = abstract(f, lo, configs, ev), True
    else:
        ctx = disable_x64 if mode == 'f32_only' else contextlib.nullcontext
        probs, moved = judge(f, lo, hi, configs, n, ctx, mode == 'bf16', ev, False)
        if probs:
            probs, moved = judge(f, lo, hi, configs, n, ctx, mode == 'bf16', {}, True)
            if not probs:
                ev['xla_defect'] = 1
    return {
        'status': 'violation' if probs else ('ok' if moved else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': ev['evals'],
        'tags': tags, 'detail': detail, 'key': [mode, [s[0] for s in steps], list(np.shape(x))],
    }  # fmt: skip


def preferred(r):
    """Contractions that accumulate in a wider type than their operands have."""
    import jax.numpy as jnp
    import numpy as np
    import folx
    from folx.api import FwdLaplArray
    from mon import fwd

    low, wide = [(jnp.bfloat16, jnp.float32), (jnp.float32, jnp.float64), (jnp.float16, jnp.float32), (jnp.bfloat16, jnp.float64), (jnp.float16, jnp.float64),
                 (jnp.float32, jnp.float32), (jnp.bfloat16, jnp.bfloat16)][r.randint(7)]
    m, k, q = r.randint(1, 4), r.randint(1, 9), r.randint(1, 4)
    e, sx, sw = [('ik,kj->ij', (m, k), (k, q)), ('ki,kj->ij', (k, m), (k, q)), ('k,kj->j', (k,), (k, q)), ('bik,bjk->bij', (2, m, k), (2, q, k)), ('k,k->', (k,), (k,))][r.randint(5)]
    x, w = jnp.asarray(r.randn(*sx), low), jnp.asarray(r.randn(*sw), low)
    kw = dict(preferred_element_type=wide)
    form = ['linear', 'right', 'both', 'square'][r.randint(4)]
    n = x.size

    def make(kw, cast=lambda v: v):
        def f(x):
            v = cast(w)
            if form == 'linear':
                return jnp.einsum(e, x, v, **kw)
            a, b = e.split('->')[0].split(',')
            swapped = b + ',' + a + '->' + e.split('->')[1]
            if form == 'right':
                return jnp.einsum(swapped, v, x, **kw)
            if form == 'both':
                return jnp.einsum(e, x, jnp.broadcast_to(x.reshape(-1)[:1], v.shape), **kw)
            return jnp.einsum(a + ',' + a + '->' + a.replace('k', ''), x, x, **kw)

        return f

    f = make(kw)
    ev = {'evals': 0, 'leaves': 0, 'preferred': 0}
    if low is jnp.float16:
        # no half precision kernels on this CPU target: the types of the traced program
        probs = abstract(f, (x,), [(0, False), ([1, 2, k, n, 1000][r.randint(5)], False)], ev)
        ev['preferred'] += ev['evals']
        return {'status': 'violation' if probs else 'ok', 'problems': probs[:5], 'events': ev, 'evaluations': ev['evals'], 'tags': ['preferred', form],
                'detail': {'einsum': e, 'form': form, 'low': 'float16', 'wide': jnp.dtype(wide).name}}
    plain = f(x)
    up = lambda v: jnp.asarray(v, jnp.float64)
    y, J, H = fwd.reference(make({}, up), (np.asarray(up(x)),)).leaves[0]
    probs = []
    for T, eager in ((0, bool(r.rand() < 0.3)), ([1, 2, k, n, 1000][r.randint(5)], False)):
        where = f'{e} {form} {jnp.dtype(low).name}->{jnp.dtype(wide).name} T={T}'
        try:
            o = folx.forward_laplacian(f, T, disable_jit=eager)(x)
        except Exception as ex:
            probs.append(f'{where}: raised {fwd.short_tb(ex)}')
            continue
        ev['evals'] += 1
        ev['leaves'] += 1
        ev['preferred'] += 1
        if not isinstance(o, FwdLaplArray):
            probs.append(f'{where}: no derivatives')
            continue
        probs += types(o, plain, where)
        D = np.asarray(o.jacobian.dense_array)
        D = np.concatenate([D, np.zeros((n - D.shape[0], *D.shape[1:]), D.dtype)])
        eps = float(jnp.finfo(wide).eps)
        # a derivative with respect to a narrow operand may pass through the narrow type
        loose = eps if form in ('linear', 'right') else max(eps, float(jnp.finfo(low).eps))
        for what, a, b, t in (('value', o.x, y, eps), ('Jacobian', D, J, loose), ('Laplacian', o.laplacian, H.sum(0), loose)):
            a, b = np.asarray(a).astype(float), np.asarray(b).astype(float)
            if a.shape != b.shape or not (np.abs(a - b) <= 60 * t * (1 + np.abs(b) + np.abs(b).max(initial=0))).all():
                probs.append(f'{where}: {what} is off by {np.abs(a - b).max() if a.shape == b.shape else "shape"}')
    return {'status': 'violation' if probs else 'ok', 'problems': probs[:5], 'events': ev, 'evaluations': ev['evals'], 'tags': ['preferred', form],
            'detail': {'einsum': e, 'form': form, 'low': jnp.dtype(low).name, 'wide': jnp.dtype(wide).name}}


def types(o, p, where):
    probs = []
    for name, a in (('value', o.x), ('Jacobian', o.jacobian.data), ('Laplacian', o.laplacian)):
        if a.dtype != p.dtype:
            probs.append(f'{where}: {name} dtype {a.dtype}, plain evaluation gives {p.dtype}')
    return probs


def abstract(f, lo, configs, ev):
    import jax
    import folx
    from folx.api import FwdLaplArray
    from mon import fwd

    plain, tree = jax.tree_util.tree_flatten(jax.eval_shape(f, *lo))
    probs = []
    for T, _ in configs:
        try:
            out = jax.eval_shape(folx.forward_laplacian(f, T), *lo)
        except Exception as ex:
            probs.append(f'T={T}: raised {fwd.short_tb(ex)}')
            continue
        ev['evals'] += 1
        for k, (o, p) in enumerate(zip(tree.flatten_up_to(out), plain)):
            ev['leaves'] += 1
            if isinstance(o, FwdLaplArray):
                probs += types(o, p, f'T={T} output {k}')
            elif o.dtype != p.dtype:
                probs.append(f'T={T} output {k}: dtype {o.dtype}, plain evaluation gives {p.dtype}')
    return probs


def judge(f, lo, hi, configs, n, ctx, half, ev, careful):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from folx.api import FwdLaplArray
    from mon import fwd
    from mon.oracle import RefFn, mask_problems, xla_defect

    jit = not careful
    ev.update({k: 0 for k in ('evals', 'leaves', 'sparse_out')})
    ref_hi = RefFn(f, hi, jit=jit).at(hi)
    probs = []
    with ctx():
        lo = tuple(jnp.asarray(np.asarray(x)) for x in lo)
        plain = jax.tree_util.tree_leaves(f(*lo))
        ref_lo = RefFn(f, lo, jit=jit).at(lo)
        if not ref_hi.finite() or not ref_lo.finite():
            return [], False
        # error of ordinary differentiation in this precision, per leaf and part
        tols = []
        for (y, J, H), (y2, J2, H2), p in zip(ref_hi.leaves, ref_lo.leaves, plain):
            if J is None or J.dtype == jax.dtypes.float0:
                tols.append(None)
                continue
            # inputs of another precision may dominate the error
            low = max(float(jnp.finfo(x.dtype).eps) for x in (p, *lo))
            row = []
            for a, b in ((y, y2), (J, J2), (H.sum(0), H2.sum(0))):
                top = max(1e-3, float(np.abs(H).sum(0).max(initial=0)), float(np.abs(J).max(initial=0)), float(np.abs(a).max(initial=0)))
                err = float(np.abs(np.asarray(a, complex) - np.asarray(b, complex)).max(initial=0))
                row.append((20 * err + 200 * low * top, top))
            tols.append(row)
        if any(t is not None and any(a > 0.3 * b for a, b in t) for t in tols) and not half:
            return [], False
        for T, e in configs:
            g = folx.forward_laplacian(f, T, disable_jit=e)
            try:
                if careful:
                    out = fwd.emitted(g, *lo)
                else:
                    try:
                        out = jax.block_until_ready(g(*lo))
                    except Exception as ex:
                        if not xla_defect(ex):
                            raise
                        out = fwd.emitted(g, *lo)
            except Exception as ex:
                probs.append(f'T={T} eager={e}: raised {fwd.short_tb(ex)}')
                continue
            ev['evals'] += 1
            for k, (o, p, t, (y, J, H)) in enumerate(zip(ref_hi.tree.flatten_up_to(out), plain, tols, ref_hi.leaves)):
                ev['leaves'] += 1
                where = f'T={T} eager={e} output {k}'
                if not isinstance(o, FwdLaplArray):
                    if o.dtype != p.dtype:
                        probs.append(f'{where}: dtype {o.dtype}, plain evaluation gives {p.dtype}')
                    continue
                probs += types(o, p, where)
                D = o.jacobian.dense_array
                if D.dtype != p.dtype:
                    probs.append(f'{where}: densified Jacobian dtype {D.dtype}, plain evaluation gives {p.dtype}')
                if o.jacobian.weak:
                    ev['sparse_out'] += 1
                    probs += [f'{where}: {q}' for q in mask_problems(o, n)]
                D = np.asarray(D)
                if D.shape[0] < n:
                    D = np.concatenate([D, np.zeros((n - D.shape[0], *D.shape[1:]), D.dtype)])
                if t is None:
                    continue
                for name, a, b, (tol, top) in zip(('value', 'Jacobian', 'Laplacian'), (o.x, D, o.laplacian), (y, J, H.sum(0)), t):
                    a = np.asarray(a)
                    if a.shape != b.shape:
                        probs.append(f'{where}: {name} shape {a.shape}, expected {b.shape}')
                        continue
                    if half and tol > 0.3 * top:
                        continue
                    bad = ~(np.abs(a.astype(complex) - b) <= tol)
                    if bad.any():
                        i = tuple(np.argwhere(bad)[0])
                        probs.append(f'{where}: {name} differs at {[int(q) for q in i]}: got {a[i]}, double precision gives {b[i]}, tolerance {tol:.1e}')
    return probs, any(t is not None and np.abs(l[1]).max(initial=0) > 1e-9 for t, l in zip(tols, ref_hi.leaves))
