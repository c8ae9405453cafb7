from mon import std

RULE = (
    'Programs of 1-4 operations led by data movement: reshape, transpose, slices, reversal, broadcasting, tiling, '
    'concatenation, stacking, static gathers (clip and fill), masks, selections, padding, scatters (set, add, max, '
    'min, multiply, duplicate indices), dynamic slices and updates, and gathers/scatters at data dependent positions, '
    'starts chosen per axis; '
    'evaluated with threshold 0 and two sparse thresholds; non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 60
MIN_EVENTS = {'evals': 150, 'sparse_out': 60, 'dense_out': 60}
MOVE = ['reshape', 'transpose', 'slice', 'rev', 'expand', 'squeeze', 'broadcast', 'bcast_in_dim', 'tile', 'repeat', 'roll',
        'concat', 'stack', 'take', 'index', 'adv_index', 'gather_fill', 'dyn_slice', 'tri', 'mask_where', 'select_n', 'pad', 'diag']
SCAT = ['scatter_set', 'scatter_add', 'scatter_max', 'scatter_min', 'scatter_mul', 'scatter_const', 'scatter_add_const', 'segment_sum', 'dus']
DD = ['dd_index', 'dd_slice', 'dd_argmax', 'dd_where_idx', 'sort']
FAM = {'move': 3, 'scatter': 1, 'unary': 1, 'binary': 1}
ST = [[[4]], [[5]], [[2, 2]], [[3, 2]], [[2, 3]], [[3, 3]], [[4, 2]], [[2, 2, 2]], [[3], [3]], [[2, 3], [3]], [[6]], [[2, 1, 3]], [[1, 4]], [[4, 1]], [[7]], [[5, 2]]]
STRATA = [
    dict(name='move', mode='all', n=70, first=[o for o in MOVE if o not in ('squeeze',)] + [['expand', 'squeeze']], fams=FAM, steps=(1, 3), styles=ST, x=25),
    dict(name='after', mode='all', n=36, first=[[m, o] for o in MOVE + SCAT if o != 'squeeze' for m in ('mul', 'dense_layer')], fams=FAM, steps=(2, 3), styles=ST, x=30),
    dict(name='scatter', mode='all', n=36, first=SCAT, fams=FAM, steps=(1, 3), styles=ST, x=25),
    dict(name='chosen', mode='all', n=28, first=['int_const', 'pattern', 'int_const', 'pattern_mul', ['pattern', 'int_const']], fams=FAM, steps=(1, 3), styles=ST, x=25),
    dict(name='data', mode='all', n=20, first=DD, fams=FAM, steps=(1, 3), styles=ST, x=25),
    dict(name='complex', mode='all', n=20, first=[['to_complex', m] for m in MOVE if m != 'squeeze'], fams={'move': 1, 'cunary': 1}, steps=(2, 3), styles=ST, x=20),
]  # fmt: skip


def cases(tier, seed):
    return std.plan('C07', tier, seed, STRATA)


def run(case):
    return std.run_program('C07', STRATA, case)
