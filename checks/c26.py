from mon import std

RULE = (
    'Uncompiled evaluation of chains of 3 to 24 operations on arrays of a few thousand entries (elementwise, '
    'contractions, movement, nested compiled calls, custom rules, reused values, unused results), dense and sparse. A '
    'probe operation between the stages records all arrays alive at that point; the live bytes at every stage are compared '
    'with the values that later stages of the function still need. After the call everything but the result must be '
    'gone, also when the call failed. Non-trivial: at least three probes.'
)
MIN_OK = 14
MIN_EVENTS = {'probes': 150, 'long chains': 6, 'leaks looked for': 40}


def cases(tier, seed):
    n = 30 if tier == 'quick' else 900
    return [{'seed': seed, 'i': i} for i in range(n)]


class Boom(Exception):
    pass


_p = {}


def probe():
    """Identity primitive whose Laplacian rule calls a hook."""
    if _p:
        return _p['bind'], _p
    import jax
    import folx
    from jax.interpreters import ad, batching, mlir

    p = jax.core.Primitive('live_probe')
    p.def_impl(lambda x, tag: x)
    p.def_abstract_eval(lambda x, tag: x)
    mlir.register_lowering(p, lambda ctx, x, tag: [x])
    ad.deflinear2(p, lambda ct, x, tag: [p.bind(ct, tag=tag)])
    batching.defvectorized(p)

    def rule(args, kwargs, sparsity_threshold):
        _p['hook'](kwargs['tag'], args[0])
        return args[0]

    folx.register_function(p, rule)
    _p.update(bind=lambda x, tag: p.bind(x, tag=tag), hook=lambda tag, val: None)
    return _p['bind'], _p


def alive():
    import gc

    import jax

    gc.collect()
    return {id(a): a.nbytes for a in jax.live_arrays()}


def run(case):
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import folx
    from folx.api import FwdLaplArray
    from mon import fwd

    r = std.rng_of('C26', case['seed'], case['i'])
    bind, hooks = probe()
    m = int(r.randint(20, 50))  # entries; the Jacobian has d * m
    d = int(r.randint(6, 13))  # inputs
    length = [3, 5, 8, 12, 18, 24][r.randint(6)]
    sparse = bool(r.rand() < 0.5)
    T = d if sparse else 0
    W = r.randn(m, m) / np.sqrt(m)
    lift = r.randn(m, d)
    ops = {
        'sin': lambda y: jnp.sin(y), 'scale': lambda y: y * 1.1, 'square': lambda y: y * y * 0.3, 'matmul': lambda y: W @ y, 'tanh': lambda y: jnp.tanh(y),
        'rev': lambda y: y[::-1], 'roll': lambda y: jnp.roll(y, 3), 'reshape': lambda y: jnp.ravel(y.reshape(m, 1).T), 'jit': jax.jit(lambda y: jnp.cos(jnp.sin(y) * 2)),
        'two': lambda y: jnp.sin(y) + jnp.cos(y), 'concat': lambda y: jnp.concatenate([y[1:], y[:1]]), 'softplus': jax.nn.softplus,
        'where': lambda y: jnp.where(jnp.arange(m) % 2 == 0, y, y * 2), 'nested': jax.jit(lambda y: jax.jit(lambda z: z * jnp.sin(z))(y) + 1.0),
        'unused': lambda y: (jnp.exp(y), y + 1.0)[1], 'unused part': lambda y: jax.lax.sort_key_val(y, jnp.cos(y))[0], 'unused chain': lambda y: (jnp.sin(jnp.exp(y)), y * 0.9)[1],
        'unused call': lambda y: (jax.jit(lambda z: (jnp.exp(z), z * 0.7))(y))[1], 'reuse': lambda y: y + jnp.sin(y) * jnp.cos(y),
    }  # fmt: skip
    names = sorted(ops)
    plan = [names[r.randint(len(names))] for _ in range(length)]
    if case['i'] % 5 == 2:  # mostly results that nothing reads
        length = max(length, 12)
        plan = [['unused', 'unused part', 'unused chain', 'unused call'][r.randint(4)] if r.rand() < 0.8 else names[r.randint(len(names))] for _ in range(length)]
    keep = bool(r.rand() < 0.3)  # keep one early value until the end

    def f(x):
        y = jnp.sin(lift @ x) if not sparse else jnp.concatenate([jnp.sin(x)] * (m // d + 1))[:m]
        first = y
        for k, o in enumerate(plan):
            y = bind(ops[o](y), k)
        return (y + first if keep else y).sum() if r2 else (y + first if keep else y)

    r2 = bool(r.rand() < 0.5)
    x = r.randn(d)
    ev, probs = {'probes': 0, 'long chains': int(length >= 12), 'leaks looked for': 0}, []
    fn = folx.forward_laplacian(f, T, disable_jit=True)
    jax.block_until_ready(fn(x))  # constants and compiled operations are cached now
    trace, sizes = [], []

    def hook(tag, val):
        sizes.append(sum(l.nbytes for l in jtu.tree_leaves(val)))
        del val
        trace.append((tag, alive()))

    before = alive()
    hooks['hook'] = hook
    try:
        out = jax.block_until_ready(fn(x))
    except Exception as e:
        return {'status': 'violation', 'problems': [f'raised {fwd.short_tb(e)}'], 'events': ev}
    finally:
        hooks['hook'] = lambda tag, val: None
    ev['probes'] = len(trace)
    if [t for t, _ in trace] != list(range(length)):
        probs.append(f'stages visited: {[t for t, _ in trace]}, expected 0 to {length - 1}')
    over = [sum(b for i, b in live.items() if i not in before) for _, live in trace]
    unit = max(sizes, default=0)
    # the inputs, the current value, the operand of the stage before it and the kept value
    for k, ((tag, _), o) in enumerate(zip(trace, over)):
        budget = (d * (d + 2) + m) * 8 + sizes[k] + 2 * max(sizes[: k + 1]) + (sizes[0] if keep else 0)
        if o > budget:
            probs.append(f'stage {tag} of {length} ({plan[tag]}): {o} bytes alive, values with derivatives have {sizes[: k + 1]} bytes')
    # nothing but the result stays
    ev['leaks looked for'] += 1
    kept = {id(l) for l in jtu.tree_leaves(out)}
    left = {i: b for i, b in alive().items() if i not in before and i not in kept}
    size = sum(left.values())
    if size > unit // 2:
        probs.append(f'{len(left)} arrays with {size} bytes stay after the call')
    del out
    # failing calls
    base = alive()
    for _ in range(2):

        def fails(tag, val):
            if tag == length - 1:
                raise Boom

        hooks['hook'] = fails
        try:
            fn(x)
            probs.append('the exception of a rule was lost')
        except Boom:
            pass
        except Exception as e:
            probs.append(f'raised {fwd.short_tb(e)} instead of the exception of the rule')
        finally:
            hooks['hook'] = lambda tag, val: None
    ev['leaks looked for'] += 1
    left = {i: b for i, b in alive().items() if i not in base}
    if sum(left.values()) > unit // 2:
        probs.append(f'{len(left)} arrays with {sum(left.values())} bytes stay after a failing call')
    # results are right in spite of the clean-up
    j = fwd.Judge(f, (x,), n=d)
    p, _, _ = j.check(fn, (x,), dense=None if sparse else True, eager=True)
    probs += p
    return {
        'status': 'violation' if probs else ('ok' if len(trace) >= 3 else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': 5,
        'tags': ['sparse' if sparse else 'dense'] + sorted(set(plan)),
        'detail': {'chain': plan, 'inputs': d, 'entries': m, 'threshold': T, 'live bytes': over, 'bytes of one value': unit, 'kept value': keep},
        'key': [plan, m, d, T],
    }  # fmt: skip
