"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/meta.py)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
            technique=technique, note=note, state=state or [], observe=observe or [],
        )
    )  # fmt: skip


EXACT = 'Differential monitor: every execution compared with nested forward-mode derivatives of the original function'
TRUST = (
    'Sampled programs and inputs, float64, tolerance 1e-6 relative to the summands; trusts JAX forward-mode AD and the '
    'operation-by-operation evaluation of XLA CPU.'
)

prop(
    'C01', 'Dense forward Laplacian equals value, Jacobian and Laplacian',
    'For every program built from supported operations, the function returned by forward_laplacian with sparsity '
    'disabled yields the value, the full Jacobian with one row per input coordinate and the trace of the Hessian of '
    'every output, equal to the derivatives of the original function. This holds for any composition, number and shape of inputs.',
    ['programs', 'inputs'], 'every composition of supported operations, every input shape and every input value at which it is twice differentiable',
    'The tests check each operation alone on one shape plus an MLP and an attention block; compositions, other shapes and parameters are not reached.',
    ['folx/interpreter.py', 'folx/wrapper.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/wrapped_functions.py'],
    [('jaxpr interpretation', 'folx/interpreter.py: eval_jaxpr_with_forward_laplacian'), ('Jacobian propagation', 'folx/jvp.py: get_jvp_function'), ('Hessian traces', 'folx/hessian.py')],
    EXACT + ' on random programs over the whole operation catalogue', TRUST,
)
prop(
    'C02', 'Sparse results are exact for every sparsity threshold',
    'For every program and every sparsity threshold, absolute or fractional, the value, densified Jacobian and Laplacian '
    'are the same as the true derivatives, whether Jacobians stay sparse or become dense. The sparsity '
    'pattern returned names only existing inputs.',
    ['programs', 'inputs', 'configurations'], 'every composition of supported operations, every threshold, jitted or not',
    'The tests use one or two thresholds per layer test; a wrong pattern shows only for particular pattern combinations, thresholds and shapes.',
    ['folx/jvp.py', 'folx/hessian.py', 'folx/utils.py', 'folx/api.py', 'folx/interpreter.py'],
    [('sparse Jacobian propagation', 'folx/jvp.py: sparse_jvp, sparse_index_jvp, sparse_scatter_jvp'), ('pattern merging', 'folx/utils.py: get_reduced_jacobians, add_jacobians'), ('densification', 'folx/api.py: FwdJacobian')],
    EXACT + ' under random thresholds', TRUST,
)
prop(
    'C03', 'Every propagation step keeps value, Jacobian, Laplacian and pattern right',
    'Each single operation maps correct triplets of its operands to a correct triplet of its result, so that no error is '
    'cancelled or hidden by later operations. A sparsity pattern fixed at compile time covers the dependencies for every later input value.',
    ['programs', 'inputs', 'histories'], 'every operation application in every execution and every sequence of input values to one compiled function',
    'The tests look at final outputs at one input; errors of intermediate results and patterns valid only for the traced value stay unseen.',
    ['folx/interpreter.py', 'folx/wrapper.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/api.py'],
    [('rule lookup', 'folx/wrapped_functions.py: get_laplacian'), ('triplet update', 'folx/wrapper.py: wrap_forward_laplacian')],
    'Online monitor of every rule application (recomputing each step from its operands) and replays of compiled functions at other inputs', TRUST,
    observe=['every registered propagation rule'],
)
prop(
    'C04', 'Local dependence keeps Jacobians sparse up to the threshold',
    'For functions acting on each row of the input independently, Jacobians stay sparse when the threshold is at least '
    'the number of inputs an output depends on, stores no more entries per output than that (plus those of '
    'normalisation), and become dense when the threshold is exceeded or zero. An equal fractional threshold behaves like the absolute one.',
    ['programs', 'configurations'], 'every row-local program, every threshold around the number of dependencies',
    'The tests assert correctness only; losing sparsity changes cost but no value, so no test notices.',
    ['folx/jvp.py', 'folx/interpreter.py', 'folx/api.py'],
    [('threshold test', 'folx/jvp.py: sparse_jvp'), ('threshold conversion', 'folx/interpreter.py: forward_laplacian')],
    'Monitor of the storage kind and number of stored entries of every returned Jacobian', TRUST,
)
prop(
    'C05', 'All views and operations of Jacobian containers agree',
    'The dense view, data transposition, indexing, casts, subsets, unions of patterns and matrix views of a sparse or dense Jacobian '
    'container describe one and the same Jacobian, with repeated entries summed and unused entries ignored.',
    ['inputs', 'histories'], 'every container: number of stored entries, repeated and unused entries, patterns, dtypes, shapes',
    'Only containers produced by a few layer tests are ever densified; repeated, unused and reordered entries are not.',
    ['folx/api.py', 'folx/utils.py', 'folx/jvp.py'],
    [('views', 'folx/api.py: FwdJacobian'), ('pattern union', 'folx/utils.py: get_reduced_jacobians, add_jacobians')],
    'Differential monitor against an entry-by-entry numpy model of random containers', 'Sampled containers; the numpy model is independent code.',
)
prop(
    'C06', 'Contractions propagate derivatives exactly',
    'Dot products, matrix products and einsum-style contractions with any batch, contracted and free axes in any order, '
    'with constants on either side or both operands input dependent, have exact Jacobians and Laplacians in dense and sparse mode.',
    ['programs', 'inputs', 'configurations'], 'every dimension assignment, operand shape, real or complex operand and threshold',
    'The tests use a few fixed einsum-like layers; axis orders, batch axes and unequal patterns need many combinations.',
    ['folx/wrapped_functions.py', 'folx/hessian.py', 'folx/jvp.py'],
    [('contraction rule', 'folx/wrapped_functions.py: dot_general'), ('rearrangement', 'folx/wrapped_functions.py: rearrange')],
    EXACT + ' of contraction-led programs', TRUST,
)
prop(
    'C07', 'Data movement and indexing carry derivatives with the entries',
    'Reshaping, transposing, slicing, concatenating, gathering, scattering, selecting, padding and dynamic indexing move '
    'the derivatives exactly with the entries, including overwritten, duplicated, clipped and out-of-range positions '
    'and positions that depend on data.',
    ['programs', 'inputs', 'configurations'], 'every movement operation with every static or dynamic index, before or after other operations, every threshold',
    'The tests index with a handful of fixed slices and gathers; overlapping scatters, fill modes and dynamic positions are not combined with patterns.',
    ['folx/jvp.py', 'folx/wrapped_functions.py', 'folx/hessian.py'],
    [('index propagation', 'folx/jvp.py: sparse_index_jvp, dense_jvp'), ('scatter', 'folx/jvp.py: sparse_scatter_jvp')],
    EXACT + ' of movement-led programs', TRUST,
)
prop(
    'C08', 'Reductions and cumulative operations are exact over any axes',
    'Sums, products, extrema, norms, log-sum-exp, softmax, normalisation and cumulative operations over any subset of '
    'axes and direction have exact Jacobians and Laplacians in dense and sparse mode, also when the reduced entries share or lack dependencies.',
    ['programs', 'inputs', 'configurations'], 'every reduction, axes subset, operand pattern and threshold',
    'The tests reduce freshly created arrays over one axis; overlapping patterns arise only after particular prior operations.',
    ['folx/jvp.py', 'folx/hessian.py', 'folx/utils.py', 'folx/wrapped_functions.py'],
    [('reduction of patterns', 'folx/jvp.py: sparse_reduction_jvp, sparse_sum_jvp'), ('Hessian of reductions', 'folx/hessian.py')],
    EXACT + ' of reduction-led programs', TRUST,
)
prop(
    'C09', 'Log-determinants have exact signs, Jacobians and Laplacians',
    'The sign and logarithm of the absolute determinant of any batch of real or complex invertible matrices, and '
    'programs that combine many of them, have exact values, Jacobians and Laplacians in dense and sparse mode.',
    ['programs', 'inputs', 'configurations'], 'every batch of matrices of either sign or any phase, with any dependence on the inputs',
    'The tests use one slogdet of one real matrix per mode; complex phases, batches and partly constant matrices are not covered.',
    ['folx/custom_hessian.py', 'folx/wrapped_functions.py'],
    [('determinant rule', 'folx/wrapped_functions.py: slogdet_wrapper'), ('Hessian of the log-determinant', 'folx/custom_hessian.py: slogdet_jac_hessian_jac')],
    EXACT + ' of determinant programs', TRUST,
)
prop(
    'C10', 'Real inputs with complex intermediates give exact derivatives',
    'For real inputs, programs with complex intermediate values or outputs have exact values, Jacobians and Laplacians, '
    'real where the function is real and complex where it is complex.',
    ['programs', 'inputs', 'configurations'], 'every mixture of real and complex operations and every threshold',
    'Three tests cover a complex MLP, parts and a modulus; other mixtures can lose a conjugate or an imaginary part unnoticed.',
    ['folx/ad.py', 'folx/hessian.py', 'folx/custom_hessian.py', 'folx/wrapped_functions.py', 'folx/wrapper.py'],
    [('complex derivatives', 'folx/ad.py'), ('casts', 'folx/wrapped_functions.py: dtype_conversion'), ('modulus', 'folx/custom_hessian.py: complex_abs_jac_hessian_jac')],
    EXACT + ' of mixed real/complex programs', TRUST,
)
prop(
    'C11', 'Structured calls inside a function are differentiated exactly',
    'Custom derivative rules, nested compiled calls, conditionals, rematerialisation and inner automatic differentiation or '
    'vectorisation inside the function are handled exactly, honouring custom rules and any mix of captured, '
    'ignored, constant, passed-through and repeated values.',
    ['programs', 'inputs', 'configurations'], 'every nesting of such calls, every signature and every threshold',
    'One test has one custom rule with one output; signatures with several outputs or constants are not run.',
    ['folx/interpreter.py', 'folx/wrapped_functions.py', 'folx/jvp.py'],
    [('nested calls', 'folx/interpreter.py: eval_pjit, eval_custom_jvp'), ('general functions', 'folx/wrapped_functions.py: get_laplacian')],
    EXACT + ' of programs with structured calls', TRUST,
)
prop(
    'C12', 'Loops accumulate exact derivatives over all iterations',
    'Scans and counted loops over input dependent carries, with captured values, scanned constants, stacked outputs, '
    'either direction and nesting, give exact derivatives of the final carry and of all stacked outputs with sparsity disabled; '
    'with sparsity enabled the result is exact or the call raises an error.',
    ['programs', 'inputs', 'configurations'], 'every loop body, number of iterations, carry structure and threshold',
    'One test scans one body; stacked outputs, several carries and patterns that grow over iterations are not run.',
    ['folx/interpreter.py'], [('loops', 'folx/interpreter.py: eval_scan')],
    EXACT + ' of loops', TRUST + ' Loops whose pattern changes between iterations are refused by folx and count as such.',
)
prop(
    'C13', 'Coordinate weights scale the derivative directions',
    'With weights, the Jacobian rows are the derivatives along the weighted coordinate directions and the Laplacian is the '
    'sum of the squared weights times the second derivatives, for weights given as a scalar, per argument, per leaf or per entry, in every mode.',
    ['inputs', 'configurations', 'programs'], 'every weight structure and value and every program',
    'No test passes weights.',
    ['folx/interpreter.py'], [('initial Jacobians', 'folx/interpreter.py: init_forward_laplacian_state')],
    'Differential monitor against derivatives along weighted directions', TRUST,
)
prop(
    'C14', 'Arguments and results keep their structure and independent outputs stay plain',
    'Any nesting of positional arguments is differentiated, keyword arguments act as constants and results come back in the structure '
    'the function returned. Every output that depends on the inputs is a triplet with exact derivatives; others have the right value, '
    'and outputs returned plain have zero derivatives.',
    ['inputs', 'programs'], 'every tree structure of arguments, keyword arguments and results',
    'Tests pass one array and return one array.',
    ['folx/interpreter.py', 'folx/api.py'], [('flattening', 'folx/interpreter.py: forward_laplacian')],
    'Differential monitor over random argument and result trees', TRUST,
)
prop(
    'C15', 'The transformed function composes with every JAX transformation',
    'A transformed function can be jitted, vectorised, looped over, rematerialised, differentiated by its inputs or by parameters, and '
    'transformed a second time, with results equal to the same transformation of the true derivatives. Compiled and uncompiled evaluation agree '
    'and repeated calls with the same shapes neither trace nor compile the function again.',
    ['programs', 'inputs', 'configurations', 'histories'], 'every surrounding transformation, program and threshold, repeated calls',
    'Tests jit only; the derivative of a Laplacian and vectorisation over parameters are never run.',
    ['folx/interpreter.py', 'folx/api.py', 'folx/jvp.py', 'folx/hessian.py'],
    [('compilation', 'folx/interpreter.py: forward_laplacian'), ('pytree registration', 'folx/api.py: FwdLaplArray, FwdJacobian')],
    'Differential monitor of the transformed program, with trace counters', TRUST,
)
prop(
    'C16', 'Stages transformed separately compose like the whole function',
    'Feeding the triplets returned by one transformed function into another, mixed with plain arrays that act as constants, gives the '
    'value, Jacobian and Laplacian of the composed function with respect to the first inputs, for dense, sparse and mixed triplets; sparse triplets may be refused with an error.',
    ['programs', 'inputs', 'histories', 'configurations'], 'every cut of a program into stages, every storage kind of the triplets between them',
    'No test passes triplets into a transformed function.',
    ['folx/interpreter.py', 'folx/utils.py', 'folx/jvp.py'], [('entry of triplets', 'folx/interpreter.py: init_forward_laplacian_state, forward_laplacian')],
    'Differential monitor of staged executions against the composed function', TRUST + ' Sparse triplets that left a compiled function are refused with an error by another compiled one.',
)

exec(open(os.path.join(ROOT, 'tools', 'meta2.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'meta2.py')) else None

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(
            json.dumps(
                {
                    'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                    'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                    'anchors': {
                        'files': p['files'],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'] or ['results of the public functions'],
                        'hook_needed': None,
                    },
                }
            )
            + '\n'
        )  # fmt: skip

checks = []
for p in P:
    i = p['id']
    if not os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        print('no check for', i)
        continue
    cmd = f'/opt/venv/bin/python -m mon.driver {i} --tier '
    checks.append(
        {
            'property': i, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough', 'evidence_file': f'evidence/{i}.json',
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note'],
        }
    )  # fmt: skip
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(
        {
            'version': 1,
            'setup_cmd': '/opt/venv/bin/python -m mon.selftest',
            'checks': checks,
            'not_applicable': NA if 'NA' in globals() else [],
            'notes': 'Checks import folx from /repo (sources only, no bytecode). Worker processes: VERIF_WORKERS (8). No hooks in /repo.',
        },
        f,
        indent=1,
    )
    f.write('\n')
