from mon import std

RULE = (
    'Stratum layout: contractions with up to three batch, contracted and free axes stored in the same or different orders. '
    'Programs of 1-3 operations that contain contractions (random dot_general dimension numbers with batch, '
    'contracting and free axes in any order, einsum forms, matrix products with constants on either side, Gram '
    'matrices, attention, pairwise distances; real and complex; rows that share different numbers of inputs), evaluated with threshold 0 and two sparse '
    'thresholds; non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 60
MIN_EVENTS = {'evals': 150, 'sparse_out': 20, 'dense_out': 60}
OPS = ['dot_general', 'dot_general', 'dot_general', 'einsum', 'einsum', 'dense_layer', 'left_layer', 'gram', 'attention', 'pairwise']
ST = [[[3]], [[2, 2]], [[3, 2]], [[2, 3]], [[3, 3]], [[4, 2]], [[2, 2, 2]], [[3], [3]], [[2, 2], [2]], [[2, 3], [3]], [[6]], [[1, 3]], [[2, 1, 2]]]
STRATA = [
    dict(name='one', mode='all', n=110, first=OPS, fams={'contract': 1}, steps=(1, 1), styles=ST, x=25, n_out=1),
    dict(name='pattern', mode='all', n=44, first=['pattern_dot', 'pattern_dot', ['pattern', 'dot_general'], ['pattern', 'einsum']], fams={'contract': 1}, steps=(1, 2), n_out=1, x=40,
         styles=[[[6]], [[8]], [[10]], [[12]], [[3, 3]], [[4]]], max_elems=40),
    dict(name='after', mode='all', n=40, first=[[m, o] for m in ('mul', 'sin', 'transpose', 'slice', 'concat', 'take') for o in OPS[2:]],
         fams={'contract': 1, 'unary': 1, 'binary': 1}, steps=(2, 3), styles=ST, x=25),
    dict(name='complex', mode='all', n=24, first=[['to_complex', 'dot_general'], ['to_complex2', 'einsum'], ['cis', 'dot_general'], ['to_complex', 'c_layer']],
         fams={'contract': 1, 'cunary': 1}, steps=(2, 3), styles=ST, x=25),
]  # fmt: skip


def cases(tier, seed):
    k = 28 if tier == 'quick' else 900
    return [{'stratum': 'layout', 'seed': seed, 'i': i} for i in range(k)] + std.plan('C06', tier, seed, STRATA)


def run_layout(case):
    """dot_general with several batch, contracted and free axes stored in any order, the same or another one in both operands."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd

    r = std.rng_of('C06', 'layout', case['seed'], case['i'])
    nb, nc = [(2, 1), (2, 0), (1, 1), (2, 1), (3, 0), (1, 2), (2, 2), (0, 2), (3, 1), (0, 3)][r.randint(10)]
    size = lambda k: [int(r.randint(1, 4)) if nb + nc < 4 else int(r.randint(1, 3)) for _ in range(k)]
    b, c = size(nb), size(nc)
    nl, nr = [(0, 0), (0, 0), (0, 0), (1, 0), (0, 1), (1, 1), (2, 0)][r.randint(7)]
    ls, rs = size(nl), size(nr)
    while np.prod(b + c + ls + rs, dtype=int) > 36:
        ls, rs, b, c = [[1 + (v > 1 and r.rand() < 0.6) for v in q] for q in (ls, rs, b, c)]
    lp = [int(v) for v in r.permutation(nb + nc + nl)]
    # the stored order of the shared axes is the same in both operands half of the time
    front = [v for v in lp if v < nb + nc]
    if r.rand() < 0.5:
        lp = [*range(nb + nc, nb + nc + nl), *front]
        rp = [*range(nb + nc, nb + nc + nr), *front]
    else:
        rp = [int(v) for v in r.permutation(nb + nc + nr)]
    lshape, rshape = [(b + c + ls)[v] for v in lp], [(b + c + rs)[v] for v in rp]
    L, R = int(np.prod(lshape, dtype=int)), int(np.prod(rshape, dtype=int))
    n = max(L, R)
    lpos, rpos = [int(v) for v in np.argsort(lp)], [int(v) for v in np.argsort(rp)]
    dn = ((tuple(lpos[nb : nb + nc]), tuple(rpos[nb : nb + nc])), (tuple(lpos[:nb]), tuple(rpos[:nb])))
    shift = int(r.randint(0, 2))
    const_side = [None, None, None, 0, 1][r.randint(5)]
    K = r.randn(n)

    def f(x):
        u = jnp.asarray(K) if const_side == 0 else jnp.sin(x) * 1.2
        v = jnp.asarray(K) if const_side == 1 else jnp.roll(jnp.cos(x) + 0.2 * x, shift)
        return jax.lax.dot_general(u[:L].reshape(lshape), v[:R].reshape(rshape), dn)

    x = r.randn(n)
    j = fwd.Judge(f, (x,), n=n)
    probs = []
    for T in (0, [1, 2, 3, n][r.randint(4)], 1000):
        p, _, _ = j.check(folx.forward_laplacian(f, T), (x,), dense=T == 0)
        probs += [f'T={T}: {q}' for q in p]
    detail = {'lhs': lshape, 'rhs': rshape, 'dimension_numbers': dn, 'constant': const_side}
    return j.result(probs, evaluations=j.ev['evals'], detail=detail, tags=['layout'], key=[lshape, rshape, dn, const_side, shift])


def run(case):
    if case['stratum'] == 'layout':
        return run_layout(case)
    return std.run_program('C06', STRATA, case)
