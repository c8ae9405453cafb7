"""Programs on more inputs than small integers can count."""

from mon import std

SIZES = [136, 160, 200, 264, 304]


def cases(seed, n):
    return [{'stratum': 'large', 'seed': seed, 'i': i} for i in range(n)]


def program(r, stages=2, local=False):
    import numpy as np
    from checks.c29 import blocks

    local_table, wide = blocks()
    table = {**local_table, **({} if local else wide)}
    names = sorted(local_table) + ([] if local else sorted(wide))
    plan = [names[r.randint(len(names))] for _ in range(stages)]
    n = SIZES[r.randint(len(SIZES))]
    shape = [(n,), (n // 8, 8), (4, n // 8, 2)][r.randint(3)]

    def f(x):
        y = x.reshape(-1)
        for p in plan:
            y = table[p](y)
        return y

    return f, np.asarray(r.randn(*shape) * 0.6), plan


def run(prop, case, dense=False):
    import numpy as np
    import folx
    from mon import fwd

    r = std.rng_of(prop, 'large', case['seed'], case['i'])
    g, x, plan = program(r, int(r.randint(1, 4)), local=not dense and case['i'] % 3 != 0)
    n = x.size
    keep = np.concatenate([np.sort(r.permutation(n)[:10]), [n - 1, 128, 127]])
    f = lambda x: g(x)[keep]
    j = fwd.Judge(f, (x,), n=n)
    detail = {'stages': plan, 'shape': x.shape}
    if not j.ref.finite():
        return {'status': 'trivial', 'events': j.ev}
    probs = []
    for T in [0] if dense else [[4, 16, 64][r.randint(3)], [n, 10000, 0.9][r.randint(3)]]:
        p, _, _ = j.check(folx.forward_laplacian(f, T), (x,), dense=dense)
        probs += [f'T={T}: {q}' for q in p]
    j.ev['large'] = 1
    return j.result(probs, evaluations=j.ev['evals'], detail=detail, tags=['large'], key=[plan, list(x.shape), case['i']])
