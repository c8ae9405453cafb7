"""Seeded generator of random programs (JSON recipes) over the catalogue."""

import jax
import jax.numpy as jnp
import numpy as np

from .ops import OPS, choice, rint

MAX_ELEMS = 30


def pick_weighted(rng, weights):
    names = sorted(weights)
    w = np.array([weights[n] for n in names], float)
    return names[int(rng.choice(len(names), p=w / w.sum()))]


def by_family(fams, pred=lambda o: True):
    out = {}
    for f in fams:
        out[f] = sorted(o.name for o in OPS.values() if f in o.fam and pred(o))
        assert out[f], f
    return out


INPUT_STYLES = [
    [[3]], [[4]], [[5]], [[1]], [[]], [[2, 2]], [[3, 2]], [[2, 3]], [[3, 3]], [[4, 2]],
    [[1, 4]], [[4, 1]], [[2, 2, 2]], [[3], [3]], [[2, 2], [2]], [[3], []], [[2, 3], [3]],
    [[2], [3], [1]], [[5, 2]], [[6]], [[2, 1, 3]],
]  # fmt: skip


def kind_of(aval):
    if jnp.issubdtype(aval.dtype, jnp.complexfloating):
        return 'c'
    if jnp.issubdtype(aval.dtype, jnp.floating):
        return 'f'
    return 'x'


def gen_program(rng, fams, n_steps, styles=None, pred=lambda o: True, n_out=2, first=None,
                max_elems=MAX_ELEMS):
    """fams: {family: weight}. Returns a recipe."""
    table = by_family(fams, pred)
    inputs = choice(rng, styles or INPUT_STYLES)
    env = [jax.ShapeDtypeStruct(tuple(s), jnp.float64) for s in inputs]
    steps = []
    tries = 0
    script = list(first or [])
    while len(steps) < n_steps and tries < 60 * n_steps:
        tries += 1
        lead = bool(script) and (tries < 12 or rng.rand() < 0.7)
        if lead:
            name = script[0]
        else:
            name = choice(rng, table[pick_weighted(rng, fams)])
        o = OPS[name]
        idx = []
        for _ in range(o.arity):
            if rng.rand() < 0.65 or lead:
                i = len(env) - 1 - min(int(rng.exponential(0.7)), len(env) - 1)
            else:
                i = rint(rng, 0, len(env) - 1)
            idx.append(i)
        if any(kind_of(env[i]) not in o.kinds for i in idx):
            continue
        p = o.params(rng, *[env[i].shape for i in idx])
        if p is None:
            continue
        try:
            out = jax.eval_shape(lambda *a: o.fn(p, *a), *[env[i] for i in idx])
        except (ValueError, TypeError, IndexError):
            continue
        if out.size > max_elems or out.size == 0 or out.ndim > 4:
            continue
        steps.append([name, idx, p])
        env.append(out)
        if lead:
            script.pop(0)
    n_in = len(inputs)
    outs = [len(env) - 1]
    for _ in range(rint(rng, 0, n_out - 1)):
        outs.append(rint(rng, n_in, len(env) - 1) if len(env) > n_in else 0)
    return {'inputs': [list(map(int, s)) for s in inputs], 'xseed': int(rng.randint(1 << 30)),
            'steps': steps, 'outs': outs}


def build(recipe):
    def f(*xs):
        env = [jnp.asarray(x) for x in xs]
        for name, idx, p in recipe['steps']:
            env.append(OPS[name].fn(p, *[env[i] for i in idx]))
        outs = [env[i] for i in recipe['outs']]
        return outs[0] if len(outs) == 1 else tuple(outs)

    return f


def inputs_of(recipe, scale=0.8):
    r = np.random.RandomState(recipe['xseed'])
    return tuple(scale * r.randn(*s) if s else np.float64(scale * r.randn()) for s in recipe['inputs'])


def n_inputs(recipe):
    return int(sum(np.prod(s, dtype=int) for s in recipe['inputs']))


def describe(recipe):
    return ' ; '.join(f'{n}{i}' for n, i, _ in recipe['steps']) + f" on {recipe['inputs']}"
