from mon import std

RULE = (
    'Real inputs, complex intermediates: programs of 3-6 operations mixing real and complex elementwise functions, '
    'arithmetic, reductions, contractions, determinants, moduli, real and imaginary parts, conjugates and angles, '
    'functions that are not holomorphic of few numbers of many inputs (own rules, Hermitian decompositions), with '
    'real or complex outputs; threshold 0 and two sparse thresholds; non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 50
MIN_EVENTS = {'evals': 150, 'sparse_out': 30, 'dense_out': 60}
CU = ['c_exp', 'c_sin', 'c_cos', 'c_tanh', 'c_sq', 'c_cube', 'c_log', 'c_sqrt', 'c_conj', 'c_neg', 'c_inv', 'c_scale', 'c_logistic']
CR = ['c_real', 'c_imag', 'c_abs', 'c_abs2', 'c_angle', 'c_logabs']
CB = ['c_add', 'c_sub', 'c_mul', 'c_div']
TO = ['to_complex', 'to_complex2', 'cis']
FAM = {'cunary': 2, 'cbinary': 2, 'creal': 1, 'creduce': 1, 'cdet': 0.5, 'complex': 0.3, 'unary': 0.7, 'binary': 0.5}
ST = [[[3]], [[4]], [[2, 2]], [[3, 2]], [[2, 3]], [[4, 2]], [[3], [3]], [[2, 2], [2]], [[1]], [[]], [[5]]]
STRATA = [
    dict(name='one', mode='all', n=44, first=[[t, m] for m in CU + CR + CB for t in TO], fams=FAM, steps=(2, 3), styles=ST, x=20),
    dict(name='two', mode='all', n=36, first=[[t, m, r] for r in CR + ['c_sum', 'c_prod', 'c_mul'] for m in CU for t in TO[:2]], fams=FAM, steps=(3, 4), styles=ST, x=40),
    dict(name='mixed', mode='all', n=50, first=[[t] for t in TO], fams=FAM, steps=(3, 6), styles=ST, x=40),
    dict(name='pattern', mode='all', n=20, first=[[t, m] for t in TO for m in ('pattern', 'pattern_dot')], fams=FAM, steps=(2, 3), styles=ST + [[[8]], [[10]]], x=20),
    dict(name='few', mode='all', n=30, first=[[t, m] for t in TO for m in ('c_nonholo', 'c_hermitian', 'c_nonholo', 'c_mixed_rule')], fams=FAM, steps=(2, 3), styles=[[[5]], [[6]], [[2, 3]], [[3], [4]], [[8]], [[10]]], x=20),
    dict(name='contract', mode='all', n=20, first=[[t, m, 'c_abs'] for t in TO for m in ('c_layer', 'dot_general', 'einsum', 'c_cumsum')], fams=FAM, steps=(3, 4), styles=ST, x=20),
]  # fmt: skip


def cases(tier, seed):
    return std.plan('C10', tier, seed, STRATA)


def run(case):
    return std.run_program('C10', STRATA, case)
