from mon import large, models, std

RULE = (
    'Programs of 1 to 3 stages on 136 to 304 inputs (stratum large), networks in the style of electronic wave functions (stratum model), and: '
    'Random straight-line programs (2-8 operations out of the catalogue in mon/ops.py, every operation also '
    'forced first once) on 1-3 input arrays; non-trivial: the reference Jacobian of some output is not zero.'
)
MIN_OK = 60
MIN_EVENTS = {'evals': 100, 'dense_out': 100}
ALL = {'unary': 2, 'binary': 2, 'move': 2, 'reduce': 1.5, 'contract': 1.5, 'datadep': 0.5, 'scatter': 0.7,
       'cumulative': 0.7, 'det': 0.6, 'control': 1, 'loop': 0.4}  # fmt: skip
STRATA = [
    dict(name='mix', first='ALL', n=200, fams=ALL, steps=(2, 7), eager=0.15, n_out=3, x=15),
    dict(name='long', n=30, fams=ALL, steps=(7, 12), x=15),
    dict(name='small', n=30, fams=ALL, steps=(2, 5), max_elems=60, styles=[[[]], [[1]], [[2]], [[1], []]], x=10),
    dict(name='wide', n=25, fams=ALL, steps=(2, 4), styles=[[[12]], [[4, 3]], [[7], [2, 3]], [[3, 2, 2]], [[2, 2], [3], [2], []]], x=10),
    dict(name='complex', n=25, fams={'complex': 2, 'cunary': 2, 'creal': 1, 'cbinary': 2, 'creduce': 1, 'cdet': 1, 'unary': 1}, x=8),
]  # fmt: skip


def cases(tier, seed):
    return models.cases(seed, 8 if tier == 'quick' else 240) + large.cases(seed, 6 if tier == 'quick' else 120) + std.plan('C01', tier, seed, STRATA)


def run(case):
    if case['stratum'] == 'model':
        return models.run('C01', case, dense=True)
    if case['stratum'] == 'large':
        return large.run('C01', case, dense=True)
    return std.run_program('C01', STRATA, case)
