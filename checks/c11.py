from mon import std

RULE = (
    'Programs of 1-4 operations led by a structured construct: custom derivative rules (one or several outputs, '
    'pytrees, three operands, non-differentiated operands, rules that differ from the primal), nested and repeated jit calls (captured '
    'values, passed-through, ignored and constant results), dynamic and static conditionals and switches, '
    'rematerialisation, inner vmap, grad, jvp and hessian; threshold 0 and two sparse thresholds; '
    'non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 50
MIN_EVENTS = {'evals': 120, 'sparse_out': 15, 'dense_out': 60}
CTRL = ['custom_jvp', 'custom_jvp_const', 'custom_jvp_multi', 'custom_jvp_tree', 'custom_jvp_stop', 'custom_jvp_surrogate', 'custom_jvp_three', 'nested_jit', 'jit_pass', 'jit_twice',
        'jit_captured', 'jit_vmap', 'cond_dyn', 'cond_static', 'cond_nested', 'switch', 'remat', 'inner_vmap', 'inner_grad', 'inner_jvp',
        'inner_hess', 'named_call', 'logaddexp', 'softplus', 'silu', 'relu', 'sigmoid', 'gelu', 'red_logsumexp']
FAM = {'control': 2, 'move': 1, 'unary': 1, 'binary': 1}
ST = [[[4]], [[5]], [[2, 2]], [[3, 2]], [[2, 3]], [[4, 2]], [[3], [3]], [[2, 3], [3]], [[6]], [[1]], [[]], [[2, 1]]]
STRATA = [
    dict(name='one', mode='all', n=60, first=CTRL, fams=FAM, steps=(1, 2), styles=ST, x=25),
    dict(name='after', mode='all', n=54, first=[[m, o] for m in ('mul', 'concat', 'slice', 'dense_layer', 'roll') for o in CTRL], fams=FAM, steps=(2, 3), styles=ST, x=25),
    dict(name='deep', mode='all', n=24, fams={'control': 1}, steps=(2, 4), styles=ST, x=25),
]  # fmt: skip


def cases(tier, seed):
    return std.plan('C11', tier, seed, STRATA)


def run(case):
    return std.run_program('C11', STRATA, case)
