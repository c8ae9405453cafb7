from mon import large, models, std

RULE = (
    'Programs of 1 to 3 stages on 136 to 304 inputs (stratum large), networks in the style of electronic wave functions (stratum model), and: '
    'Random programs (2-8 catalogue operations) on 1-3 inputs, each evaluated with two random sparsity thresholds '
    '(absolute 1..n+1 and 1000, fractions 0.3/0.6/0.99), some without jit; the catalogue operations take '
    'turns to come first; strata for row-local programs, contractions, operands whose entries depend on different '
    'sets of inputs, rules with three operands, axes of size one and complex intermediates; non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 40
MIN_EVENTS = {'evals': 100, 'sparse_out': 30, 'dense_out': 30}
ALL = {'unary': 2, 'binary': 2, 'move': 2.5, 'reduce': 1.2, 'contract': 1.3, 'datadep': 0.5, 'scatter': 0.7,
       'cumulative': 0.5, 'det': 0.5, 'control': 0.8}  # fmt: skip
# local programs: every output depends on few inputs, so the sparse paths stay active
LOCAL = {'unary': 2, 'binary': 2, 'move': 3, 'contract': 1, 'scatter': 0.5, 'reduce': 0.7}
STRATA = [
    dict(name='mix', mode='sparse', first='ALL', n=60, fams=ALL, steps=(2, 7), eager=0.1, n_out=3, x=20),
    dict(name='local', mode='sparse', n=45, fams=LOCAL, steps=(2, 6), eager=0.1, n_out=3, x=20,
         styles=[[[4, 2]], [[3, 3]], [[2, 2, 2]], [[6]], [[2, 3], [3]], [[5, 2]], [[3], [4]], [[8]], [[4, 3]]]),
    dict(name='contract', mode='sparse', n=25, fams={'contract': 3, 'move': 1, 'binary': 1}, steps=(1, 4), eager=0.1, x=15),
    dict(name='pattern', mode='sparse', n=40, fams={'pattern': 3, 'reduce': 0.7, 'binary': 0.5, 'unary': 0.5, 'move': 0.5}, steps=(1, 3), first=['pattern_mul', 'pattern_dot', 'pattern'],
         eager=0.1, x=25, styles=[[[4]], [[6]], [[8]], [[3, 3]], [[10]], [[3], [4]], [[12]]]),
    dict(name='operands', mode='sparse', n=16, first=[['custom_jvp_three'], ['sin', 'custom_jvp_three'], ['custom_jvp_three', 'mul'], ['pattern', 'custom_jvp_three'], ['slice', 'custom_jvp_tree']], fams=ALL, steps=(1, 3), x=15,
         styles=[[[4]], [[6]], [[5], [3]], [[2, 2]], [[8]], [[3, 2]]]),
    dict(name='ones', mode='sparse', n=15, fams=ALL, steps=(2, 4), x=15,
         styles=[[[1]], [[]], [[1, 4]], [[4, 1]], [[2, 1, 3]], [[1, 1]], [[1], [3]], [[], [2]]]),
    dict(name='complex', mode='sparse', n=12, fams={'complex': 2, 'cunary': 2, 'creal': 1, 'cbinary': 2, 'creduce': 1, 'cdet': 1, 'unary': 1}, x=10),
]  # fmt: skip


def cases(tier, seed):
    return models.cases(seed, 14 if tier == 'quick' else 420) + large.cases(seed, 10 if tier == 'quick' else 200) + std.plan('C02', tier, seed, STRATA)


def run(case):
    if case['stratum'] == 'model':
        return models.run('C02', case, dense=False)
    if case['stratum'] == 'large':
        return large.run('C02', case, dense=False)
    return std.run_program('C02', STRATA, case)
