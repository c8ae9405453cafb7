from mon import std

RULE = (
    'Every differentiable elementwise function of the catalogue and of jax.numpy, jax.nn, jax.lax and jax.scipy.special '
    '(about 90 functions of one or two operands, constants on either side) at hostile arguments: magnitudes from 1e-300 to 1e300, '
    'both signs, signed zeros, integers and half-integers, edges of the domain, infinities and NaN as neighbours; '
    'arguments scaled, shifted or summed before. Each entry is compared on its own with nested scalar derivatives wherever '
    'those are finite, and non-finite entries must not spread to independent entries. '
    'Non-trivial: at least ten finite entries.'
)
MIN_OK = 120
MIN_EVENTS = {'evals': 200, 'entries': 3000, 'hostile neighbours': 200}

VALUES = [
    0.0, -0.0, 1e-300, -1e-300, 1e-160, 1e-30, -1e-30, 1e-12, -1e-12, 1e-8, -1e-8, 1e-4, -1e-4, 0.01, 0.1, -0.1, 0.25, -0.25, 0.5, -0.5,
    0.75, -0.75, 0.999, -0.999, 0.9999999, 1.0, -1.0, 1.0000001, 1.5, -1.5, 2.0, -2.0, 2.5, -2.5, 3.0, -3.0, 3.14159, 5.0, -5.0,
    10.0, -10.0, 20.0, -20.0, 36.0, -36.0, 50.0, -50.0, 100.0, -100.0, 300.0, -300.0, 700.0, -700.0, 1e3, -1e3, 1e5, -1e5, 1e8, -1e8, 1e15,
    1e30, -1e30, 1e100, -1e100, 1e150, -1e150, 1e300, -1e300, float('inf'), float('-inf'), float('nan'),
]  # fmt: skip


def functions():
    import jax
    import jax.numpy as jnp
    from jax import lax, nn
    from jax.scipy import special as sp

    one = {
        'abs': jnp.abs, 'neg': jnp.negative, 'sign': jnp.sign, 'floor': jnp.floor, 'ceil': jnp.ceil, 'round': jnp.round, 'exp': jnp.exp, 'exp2': jnp.exp2,
        'expm1': jnp.expm1, 'log': jnp.log, 'log1p': jnp.log1p, 'log2': jnp.log2, 'log10': jnp.log10, 'sqrt': jnp.sqrt, 'rsqrt': lax.rsqrt, 'cbrt': jnp.cbrt,
        'square': jnp.square, 'reciprocal': jnp.reciprocal, 'sin': jnp.sin, 'cos': jnp.cos, 'tan': jnp.tan, 'arcsin': jnp.arcsin, 'arccos': jnp.arccos,
        'arctan': jnp.arctan, 'sinh': jnp.sinh, 'cosh': jnp.cosh, 'tanh': jnp.tanh, 'arcsinh': jnp.arcsinh, 'arccosh': jnp.arccosh, 'arctanh': jnp.arctanh,
        'erf': sp.erf, 'erfc': sp.erfc, 'erfinv': sp.erfinv, 'lgamma': sp.gammaln, 'digamma': sp.digamma, 'logistic': nn.sigmoid, 'log_sigmoid': nn.log_sigmoid,
        'softplus': nn.softplus, 'silu': nn.silu, 'gelu': nn.gelu, 'gelu_exact': lambda x: nn.gelu(x, approximate=False), 'elu': nn.elu, 'selu': nn.selu,
        'celu': nn.celu, 'relu': nn.relu, 'relu6': nn.relu6, 'leaky_relu': nn.leaky_relu, 'hard_tanh': nn.hard_tanh, 'soft_sign': nn.soft_sign,
        'mish': nn.mish, 'squareplus': nn.squareplus, 'pow3': lambda x: x**3, 'pow-2': lambda x: x**-2, 'pow2.5': lambda x: x**2.5, 'pow0': lambda x: x**0,
        'pow0.5': lambda x: x**0.5, 'powbase': lambda x: 2.5**x, 'pow1': lambda x: x**1, 'pow7': lambda x: x**7, 'clip': lambda x: jnp.clip(x, -1.3, 2.2),
        'max_const': lambda x: jnp.maximum(x, 0.3), 'min_const': lambda x: jnp.minimum(0.3, x), 'where': lambda x: jnp.where(x > 0.3, jnp.sin(x), x * x),
        'double_where': lambda x: jnp.where(x > 0, jnp.log(jnp.where(x > 0, x, 1.0)), 0.0), 'nan_to_num': lambda x: jnp.nan_to_num(x) * 2,
        'i0e': sp.i0e, 'i1e': sp.i1e, 'xlog': lambda x: x * jnp.log(jnp.abs(x)), 'rec_sq': lambda x: 1 / (1 + x * x), 'gauss': lambda x: jnp.exp(-x * x),
        'divide_by': lambda x: 3.0 / x, 'divide': lambda x: x / 3.0, 'rem_const': lambda x: jnp.remainder(x, 1.7), 'degrees': jnp.degrees,
        'ndtr': sp.ndtr, 'log_ndtr': sp.log_ndtr, 'logit': sp.logit, 'entr': sp.entr, 'to_complex': lambda x: jnp.abs(jnp.exp(1j * x) * (1 + x * x)),
        'complex_exp': lambda x: jnp.exp((0.3 + 2j) * x), 'sin*cos': lambda x: jnp.sin(x) * jnp.cos(x), 'fractional': lambda x: x - jnp.floor(x),
    }  # fmt: skip
    two = {
        'add': jnp.add, 'sub': jnp.subtract, 'mul': jnp.multiply, 'div': jnp.divide, 'pow': jnp.power, 'max': jnp.maximum, 'min': jnp.minimum,
        'atan2': jnp.arctan2, 'logaddexp': jnp.logaddexp, 'logaddexp2': jnp.logaddexp2, 'hypot': jnp.hypot, 'rem': jnp.remainder, 'where': lambda x, y: jnp.where(x < y, x * y, x / y),
        'xlogy': sp.xlogy, 'complex': lambda x, y: lax.complex(x, y) ** 2, 'abs_complex': lambda x, y: jnp.abs(lax.complex(x, y)),
        'angle': lambda x, y: jnp.angle(lax.complex(x, y)), 'fmod': jnp.fmod, 'heaviside': lambda x, y: jnp.where(x > 0, y, 0.0), 'pow_abs': lambda x, y: jnp.abs(x) ** y,
    }  # fmt: skip
    return one, two


N1, N2 = 82, 20


def cases(tier, seed):
    k = 2 if tier == 'quick' else 40
    out = []
    for rep in range(k):
        out += [{'seed': seed, 'i': i, 'rep': rep, 'arity': 1} for i in range(N1)]
        out += [{'seed': seed, 'i': i, 'rep': rep, 'arity': 2} for i in range(N2)]
    r = std.rng_of('C27', seed)
    return [out[i] for i in r.permutation(len(out))]


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from folx.api import FwdLaplArray
    from mon import fwd

    r = std.rng_of('C27', case['seed'], case['i'], case['rep'], case['arity'])
    one, two = functions()
    assert len(one) == N1 and len(two) == N2, (len(one), len(two))
    table = one if case['arity'] == 1 else two
    name = sorted(table)[case['i'] % len(table)]
    f = table[name]
    ev = {'evals': 0, 'entries': 0, 'hostile neighbours': 0}
    pre = {
        'plain': lambda x: x, 'scaled': lambda x: x * 1.25, 'shifted': lambda x: x + 0.1, 'added': lambda x: x + x,
    }  # fmt: skip
    how = ['plain', 'plain', 'scaled', 'shifted', 'added'][r.randint(5)]
    g = pre[how]
    vals = np.asarray(VALUES)
    vals = vals[r.permutation(len(vals))]
    hostile = ~np.isfinite(vals)
    k = int(r.randint(6, 24))
    probs, worst = [], 0.0

    if case['arity'] == 1:
        scalar = lambda x: f(g(x))
        args = (vals,)
        whole = scalar
        n = vals.size
    else:
        a, b = r.choice(len(vals), k), r.choice(len(vals), k)
        xs, ys = vals[a], vals[b]
        if r.rand() < 0.5:  # close neighbours of one another
            ys = np.where(r.rand(k) < 0.4, xs * [1.0 + 1e-9, 0.5, -1.0][r.randint(3)], ys)
        c = [None, 'left', 'right'][r.randint(3)]
        u = vals[r.choice(len(vals), k)]
        if c is None:
            whole = lambda x, y: f(g(x), y)
            args = (xs, ys)
        elif c == 'left':
            whole = lambda x: f(jnp.asarray(u), g(x))
            args = (xs,)
        else:
            whole = lambda x: f(g(x), jnp.asarray(u))
            args = (xs,)
        how += f' {c}'
    # reference entry by entry, along real directions
    cols = [np.asarray(v) for v in args]
    extra = None if case['arity'] == 1 or len(args) == 2 else u

    def entry(*s):
        if extra is None:
            return scalar(s[0]) if len(args) == 1 else f(g(s[0]), s[1])
        return f(s[1], g(s[0])) if 'left' in how else f(g(s[0]), s[1])

    nd = len(args)
    ins = list(cols) + ([extra] if extra is not None else [])

    def derivs(*s):
        y = entry(*s)
        outs = []
        for i in range(nd):
            h = lambda z: entry(*s[:i], z, *s[i + 1 :])
            d1 = lambda z: jax.jvp(h, (z,), (jnp.ones_like(z),))[1]
            outs.append((d1(s[i]), jax.jvp(d1, (s[i],), (jnp.ones_like(s[i]),))[1]))
        return y, outs

    def ref(jit):
        fn = jax.vmap(derivs)
        y, outs = (jax.jit(fn) if jit else fn)(*[jnp.asarray(v) for v in ins])
        return np.asarray(y), [(np.asarray(d), np.asarray(h)) for d, h in outs]

    with np.errstate(all='ignore'):
        refs = [ref(False), ref(True)]
    m = cols[0].size
    n = m * nd
    thresholds = [0, [1, 2, n, 0.6][r.randint(4)]]
    for T in thresholds:
        for eager in ((False,) if r.rand() < 0.6 else (True,)):
            try:
                out = fwd.run(whole, args, T, eager=eager)
            except Exception as e:
                probs.append(f'T={T}: raised {fwd.short_tb(e)}')
                continue
            ev['evals'] += 1
            if isinstance(out, FwdLaplArray):
                x, J, L = np.asarray(out.x), np.asarray(out.jacobian.dense_array), np.asarray(out.laplacian)
            else:
                x = np.asarray(out)
                J, L = np.zeros((n, m), x.dtype), np.zeros((m,), x.dtype)
            if J.shape[0] < n:
                J = np.pad(J, ((0, n - J.shape[0]), (0, 0)))

            def judge(y, outs):
                bad = []
                d2 = sum(h for _, h in outs)
                fin = np.isfinite(y) & np.isfinite(d2) & (np.abs(y) < 1e280) & (np.abs(d2) < 1e280)
                for d, h in outs:
                    fin &= np.isfinite(d) & (np.abs(d) < 1e140) & np.isfinite(h)
                for v in ins:
                    fin &= np.isfinite(v) & (np.abs(v) < 1e60)  # squares of intermediates stay finite
                ev['entries'] += int(fin.sum())
                ev['hostile neighbours'] += int((~fin).sum()) if fin.any() else 0
                size = sum(np.abs(h) for _, h in outs)
                with np.errstate(all='ignore'):
                    # cancellation inside one derivative shows as rounding relative to 1, x and the value
                    for i in np.flatnonzero(fin):
                        near = 1e-6
                        if not abs(x[i] - y[i]) <= near * max(abs(y[i]), 1e-300) + 1e-12:
                            bad.append(f'value at {[float(v[i]) for v in ins]}: {x[i]}, expected {y[i]}')
                        for q, (d, h) in enumerate(outs):
                            if not abs(J[q * m + i, i] - d[i]) <= near * abs(d[i]) + 1e-10 * max(1, abs(y[i])):
                                bad.append(f'derivative {q} at {[float(v[i]) for v in ins]}: {J[q * m + i, i]}, expected {d[i]}')
                        if not abs(L[i] - d2[i]) <= near * size[i] + 1e-10 * max(1, abs(y[i]), max(abs(d[i]) for d, _ in outs)):
                            bad.append(f'Laplacian at {[float(v[i]) for v in ins]}: {L[i]}, expected {d2[i]}')
                    # columns of finite entries: no other input
                    other = J[:, fin].copy()
                    for q in range(nd):
                        other[q * m + np.flatnonzero(fin), np.arange(int(fin.sum()))] = 0
                    if other.size and not (other == 0).all():
                        bad.append('entries of independent inputs in the Jacobian')
                return bad, int(fin.sum())

            best = [judge(*q) for q in refs]
            if all(b for b, _ in best):
                # the compiler may have changed the rounding of the emitted program
                try:
                    again = fwd.run(whole, args, T, eager=True)
                    x, J, L = np.asarray(again.x), np.asarray(again.jacobian.dense_array), np.asarray(again.laplacian)
                    if J.shape[0] < n:
                        J = np.pad(J, ((0, n - J.shape[0]), (0, 0)))
                    best2 = [judge(*q) for q in refs]
                    if not all(b for b, _ in best2):
                        ev['xla_defect'] = ev.get('xla_defect', 0) + 1
                        continue
                except Exception:
                    pass
                probs += [f'{name} ({how}) T={T} eager={eager}: {b}' for b in best[0][0][:3]]
            worst = max(worst, best[0][1])
    return {
        'status': 'violation' if probs else ('ok' if worst >= 3 else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': max(1, ev['evals']),
        'tags': [how.split()[0]], 'detail': {'function': name, 'argument': how, 'finite entries': worst, 'thresholds': [str(t) for t in thresholds]},
        'key': [name, how, case['rep'], case['seed']],
    }  # fmt: skip
