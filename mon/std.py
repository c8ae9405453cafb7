"""Program-based checks: strata of random programs judged by the reference."""

import zlib

import numpy as np

# Nothing that imports jax at module level: the parent process only plans cases.


def rng_of(*parts):
    return np.random.RandomState(zlib.crc32(repr(parts).encode()) % (2**31))


def plan(prop, tier, seed, strata):
    """strata: list of dicts with name, n (quick count), x (thorough factor), ..."""
    out = []
    for s in strata:
        n = s['n'] if tier == 'quick' else int(s['n'] * s.get('x', 12))
        out += [{'stratum': s['name'], 'seed': seed, 'i': i} for i in range(n)]
    # interleave so that a time limit does not starve a stratum
    r = rng_of(prop, seed, 'order')
    return [out[i] for i in r.permutation(len(out))]


def run_program(prop, strata, case, wrap=None):
    from . import fwd, gen

    s = {x['name']: x for x in strata}[case['stratum']]
    rng = rng_of(prop, case['stratum'], case['seed'], case['i'])
    if 'recipe' in case:
        rec, configs = case['recipe'], [tuple(c) for c in case['configs']]
    else:
        lo, hi = s.get('steps', (2, 6))
        first = s.get('first')
        if first == 'ALL':
            from .ops import OPS

            first = sorted(o.name for o in OPS.values() if set(o.fam) & set(s['fams']) and 'f' in o.kinds)
        if first:
            first = first[(case['i'] + 7 * case['seed']) % len(first)]
            first = [first] if isinstance(first, str) else list(first)
        rec = gen.gen_program(
            rng, s['fams'], max(gen.rint(rng, lo, hi), len(first or [])), styles=s.get('styles'), n_out=s.get('n_out', 2),
            pred=s.get('pred', lambda o: True), first=first, max_elems=s.get('max_elems', gen.MAX_ELEMS),
        )
        n = gen.n_inputs(rec)
        eager = bool(rng.rand() < s.get('eager', 0.0))
        if s.get('mode', 'dense') == 'dense':
            configs = [(0, eager)]
        elif s['mode'] == 'both':
            configs = [(0, False), (fwd.thresholds(rng, n, 1)[0], eager)]
        elif s['mode'] == 'all':
            lo, hi = [1, 2, 3, 0.3, 0.5], [max(1, n - 1), n, n + 1, 1000, 0.99]
            configs = [(0, False), (lo[rng.randint(5)], False), (hi[rng.randint(5)], eager)]
        else:
            configs = [(t, eager and i == 0) for i, t in enumerate(fwd.thresholds(rng, n, s.get('k', 2)))]
    if not rec['steps']:
        return {'status': 'trivial', 'events': {}}
    res = fwd.judge_program(rec, configs, **s.get('judge', {}))
    res['evaluations'] = res['events'].get('evals', 0)
    res['tags'] = list(res.pop('ops', []))
    res['key'] = [rec['inputs'], rec['steps'], rec['outs'], configs]
    res['detail'] = {'program': gen.describe(rec), 'configs': configs, 'outs': rec['outs']}
    if res['status'] == 'violation':
        res['detail']['recipe'] = rec
    return res
