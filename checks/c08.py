from mon import std

RULE = (
    'Programs of 1-4 operations led by a reduction (sum, mean, max, min, product, variance, norm, logsumexp over any '
    'subset of axes, softmax, layer norm, argmax-free) or a cumulative operation (cumsum, cumprod, cummax, '
    'cumlogsumexp in both directions), often after operations with overlapping or empty dependencies, sums over blocks of permuted axes; threshold 0 and '
    'two sparse thresholds; non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 60
MIN_EVENTS = {'evals': 150, 'sparse_out': 30, 'dense_out': 60}
RED = ['red_sum', 'red_mean', 'red_max', 'red_min', 'red_prod', 'red_var', 'red_std', 'red_logsumexp', 'red_norm', 'softmax', 'layernorm']
CUM = ['cumsum', 'cumprod', 'cummax', 'cumlogsumexp']
PRE = ['mul', 'slice', 'concat', 'take', 'mask_where', 'dense_layer', 'scatter_const', 'transpose', 'add', 'broadcast']
FAM = {'reduce': 2, 'cumulative': 1, 'move': 1, 'unary': 1, 'binary': 1}
ST = [[[4]], [[5]], [[2, 2]], [[3, 2]], [[2, 3]], [[3, 3]], [[4, 2]], [[2, 2, 2]], [[3], [3]], [[2, 3], [3]], [[6]], [[2, 1, 3]], [[1, 4]], [[4, 1]], [[2, 3, 2]], [[5, 2]]]
STRATA = [
    dict(name='reduce', mode='all', n=60, first=RED, fams=FAM, steps=(1, 2), styles=ST, x=25),
    dict(name='cum', mode='all', n=28, first=CUM, fams=FAM, steps=(1, 2), styles=ST, x=25),
    dict(name='after', mode='all', n=60, first=[[m, o] for o in RED + CUM[:1] for m in PRE], fams=FAM, steps=(2, 4), styles=ST, x=30),
    dict(name='block', mode='all', n=60, first=['pattern_sum'] * 5 + [['pattern_big', o] for o in ('red_sum', 'red_sum', 'red_mean', 'red_max', 'red_prod', 'red_logsumexp', 'cumsum')],
         fams=FAM, steps=(1, 1), n_out=1, max_elems=180, x=60, styles=[[[6]], [[8]], [[12]], [[3, 4]], [[16]], [[24]], [[2, 3, 2]]]),
    dict(name='complex', mode='all', n=16, first=[['to_complex', m] for m in ('c_sum', 'c_prod', 'c_mean', 'c_cumsum')], fams={'creduce': 1, 'cunary': 1}, steps=(2, 3), styles=ST, x=20),
]  # fmt: skip


def cases(tier, seed):
    return std.plan('C08', tier, seed, STRATA)


def run(case):
    return std.run_program('C08', STRATA, case)
