LOW = 'Sampled programs and inputs; tolerance from the error of plain differentiation in the same precision.'
prop(
    'C17', 'Number types follow the function and low precision stays accurate',
    'Value, Jacobian and Laplacian of every output have the number type the function gives that output, for single, '
    'half, brain-float and mixed precision arguments and with or without 64 bit mode. Single precision results agree with the exact '
    'derivatives as well as plain differentiation in that precision does.',
    ['programs', 'inputs', 'configurations'], 'every program and every mixture of argument precisions',
    'Tests run in double precision only; a silent promotion or a cast of a derivative shows in no test.',
    ['folx/interpreter.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/wrapped_functions.py', 'folx/api.py'],
    [('initial Jacobians', 'folx/interpreter.py: init_forward_laplacian_state'), ('casts', 'folx/wrapped_functions.py: dtype_conversion')],
    'Monitor of the number types of all returned arrays, and of accuracy against the double precision reference', LOW,
)
prop(
    'C18', 'Custom rules and function annotations are honoured',
    'A rule registered for a compiled function or a primitive is used wherever it occurs, replaces the default until it is removed, '
    'and receives what it is documented to receive. Functions wrapped with truthful annotations (elementwise, linear, '
    'trailing axes, joint derivatives, custom Hessian) give the same result as without annotations, and removing predefined '
    'rules never changes results beyond turning them dense or into an error.',
    ['programs', 'inputs', 'configurations', 'histories'], 'every function, truthful annotation, registration history and program',
    'Tests register one function by name; annotations are exercised only by the predefined rules.',
    ['folx/wrapped_functions.py', 'folx/wrapper.py', 'folx/interpreter.py'],
    [('registry', 'folx/wrapped_functions.py: register_function, get_laplacian'), ('annotations', 'folx/wrapper.py: wrap_forward_laplacian')],
    'Monitor of rule entries (counts, arguments) and differential monitor of annotated functions', TRUST,
)
prop(
    'C19', 'Unsupported functions give the exact result or an error, never wrong numbers',
    'A function with operations that have no predefined rule (sorting, decompositions, solves, transforms, convolutions, window reductions, '
    'special functions, while loops, callbacks, integer outputs) yields exact values and derivatives or raises; it never returns wrong numbers. Inverses and solves work for every threshold.',
    ['programs', 'inputs', 'configurations'], 'every operation of JAX at any place in a program, every threshold',
    'Tests cover supported operations only.',
    ['folx/wrapped_functions.py', 'folx/wrapper.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/interpreter.py'],
    [('fallback', 'folx/wrapped_functions.py: get_laplacian')],
    EXACT + ', accepting exceptions only', TRUST,
)
prop(
    'C20', 'Batched evaluation equals full vectorisation within the chunk size',
    'For any mapped axes, output axes, argument and result trees, keyword arguments and batch size, evaluation in chunks returns what full '
    'vectorisation returns, also jitted, nested, differentiated and around the forward Laplacian, and never evaluates more entries at once than the given chunk size.',
    ['inputs', 'programs', 'configurations'], 'every batch size, chunk size, axes specification and argument tree',
    'One test checks a few chunk sizes with leading axes.',
    ['folx/vmap.py'], [('chunking', 'folx/vmap.py: batched_vmap')],
    'Differential monitor against jax.vmap, with a probe primitive that records the number of entries processed at once', 'Sampled signatures; trusts jax.vmap.',
)
prop(
    'C21', 'Forward, loop and parallel operators agree with the true Laplacian',
    'For every scalar function of one array of any shape the three Laplacian operators return the trace of the Hessian and the '
    'gradient, in the documented shapes, alone and under jit, vectorisation, loops and parameter derivatives, for functions that '
    'ignore some or all inputs as well.',
    ['programs', 'inputs', 'configurations'], 'every function, input shape, threshold and surrounding transformation',
    'Tests compare the operators on one network each.',
    ['folx/operators.py'], [('operators', 'folx/operators.py')],
    EXACT + ' and of the operators with each other', TRUST,
)
prop(
    'C22', 'Derivative helpers handle real, complex and mixed functions',
    'Vector-Jacobian products, forward and reverse Jacobians and Hessians from the differentiation helpers equal the derivatives for real to '
    'real, real to complex and holomorphic functions, for pytrees and several arguments, under jit and vectorisation, and complex trees are recognised.',
    ['inputs', 'programs'], 'every function between real and complex arrays, every cotangent',
    'The helpers are tested only through few complex layers.',
    ['folx/ad.py'], [('helpers', 'folx/ad.py: vjp, jacrev, jacfwd, hessian, is_tree_complex')],
    'Differential monitor against derivatives assembled from real directional derivatives', TRUST,
)
prop(
    'C23', 'Memory estimates follow the live arrays and automatic chunks fit them',
    'The memory estimate of a function is the largest number of bytes its operations keep alive when run in order; estimating executes '
    'and prints nothing by itself and handles keyword, static and key arguments. Automatically batched functions return what full vectorisation returns, '
    'choose the largest chunk that fits the limit according to the estimates, and fall back to single entries when estimating fails.',
    ['programs', 'inputs', 'fault_sequences', 'configurations'], 'every program, argument tree and memory limit, faults in the estimate',
    'No test covers the experimental modules.',
    ['folx/experimental/memory.py', 'folx/experimental/vmap.py'],
    [('liveness', 'folx/experimental/memory.py: MemoryExprEnvironment'), ('chunk choice', 'folx/experimental/vmap.py: auto_batched_vmap')],
    'Differential monitor against an independent liveness analysis; recorded chunk sizes under simulated limits and injected faults',
    'Nested calls: bounds instead of exact numbers. The device limit is simulated because the CPU reports none.',
)
prop(
    'C24', 'Calls leave global state and arguments alone and are deterministic',
    'Transforming and evaluating functions, successfully or with an error, leaves logging configuration, rule registry, JAX configuration, warning filters, '
    'random states, standard output and the arguments as they were and leaks no tracers. Errors raised by the function or a rule '
    'arrive unchanged, and the same call gives the same bits whatever was called before.',
    ['histories', 'programs', 'fault_sequences'], 'every sequence of succeeding and failing calls in every mode',
    'Tests look at returned numbers only, each in one call.',
    ['folx/utils.py', 'folx/interpreter.py', 'folx/wrapper.py', 'folx/wrapped_functions.py'],
    [('logging prefix', 'folx/utils.py: LoggingPrefix'), ('registry', 'folx/wrapped_functions.py'), ('eager constants', 'folx/interpreter.py: eval_jaxpr_with_forward_laplacian')],
    'Snapshots of global state around every call, tracer leak sanitizer, bitwise comparison of repeated calls', 'Watched state is the listed one; logging must have a handler (otherwise the logging module installs one).',
)
prop(
    'C25', 'Concurrent transformations are isolated from each other',
    'Any number of threads may transform and evaluate functions at the same time: each gets the result or the exception it gets alone, none '
    'blocks forever, and logging handlers, configuration and rules are afterwards as before.',
    ['schedules', 'programs', 'fault_sequences'], 'every interleaving of threads, programs and failing calls',
    'Tests run in one thread.',
    ['folx/utils.py', 'folx/interpreter.py', 'folx/wrapped_functions.py', 'folx/experimental/memory.py'],
    [('global logging handlers', 'folx/utils.py: LoggingPrefix'), ('registry', 'folx/wrapped_functions.py')],
    'Stress with injected delays at library calls; results, exceptions, global state and progress are monitored', 'Sampled schedules under the global interpreter lock.',
)
prop(
    'C26', 'Uncompiled evaluation keeps only values that are still needed',
    'During uncompiled evaluation the arrays alive at any stage are those later operations need, so memory does not '
    'grow with the length of the program, and after a succeeding or failing call nothing but the result stays alive.',
    ['programs', 'histories', 'configurations'], 'every chain of operations, dense or sparse',
    'Memory is not looked at by any test.',
    ['folx/interpreter.py'], [('reference counts', 'folx/interpreter.py: JaxExprEnvironment')],
    'Probe operations that record all live arrays at every stage, compared with the sizes of the values still needed', 'Slack of two values for temporaries; arrays only, no Python objects.',
)
prop(
    'C27', 'Elementwise functions are exact at hostile argument values',
    'Elementwise functions of one or two operands have the value, first and second derivatives of the function at every argument where these are '
    'finite, from tiny to huge magnitudes and near edges of the domain, and non-finite entries do not affect entries of independent inputs.',
    ['inputs', 'programs', 'configurations'], 'every elementwise function and every argument, threshold 0 or sparse',
    'Tests evaluate a few functions at normally distributed points.',
    ['folx/wrapper.py', 'folx/hessian.py', 'folx/jvp.py', 'folx/wrapped_functions.py'],
    [('elementwise rules', 'folx/wrapped_functions.py'), ('Hessian traces of elementwise functions', 'folx/hessian.py')],
    'Entrywise differential monitor against nested scalar derivatives', 'About 100 functions at about 70 magnitudes below 1e60 whose derivatives JAX finds finite.',
)
prop(
    'C28', 'Tree arithmetic helpers act leaf by leaf',
    'Scaling, shifting, adding, subtracting, multiplying, summing, contracting, concatenating, splitting, indexing and expanding trees of arrays equals the same operation on '
    'every leaf, keeps the tree structure and does not change the arguments; splitting and concatenating are inverse.',
    ['inputs'], 'every tree, leaf shape, number type, axis and index',
    'The helpers are tested only through their use in rules.',
    ['folx/tree_utils.py'], [('helpers', 'folx/tree_utils.py')],
    'Differential monitor against numpy leaf by leaf', 'Sampled trees.',
)
prop(
    'C29', 'Propagation cost stays a bounded multiple of the function',
    'For programs of elementwise functions, contractions, sums, maxima and minima, data movement, indexing and selections the emitted program does at most a constant times '
    '(number of input coordinates + 2) the arithmetic of the function, and no array is larger than that multiple of the function\'s largest; in sparse mode, with '
    'operations that keep dependencies local, both are at most a constant times those of the function whatever the number of inputs. No matrix of second derivatives over the entries of a whole array is formed.',
    ['inputs', 'programs', 'configurations'], 'every such program and input size, dense or sparse',
    'Tests compare values only; a rule that falls back to the generic Hessian gives the same numbers.',
    ['folx/wrapper.py', 'folx/wrapped_functions.py', 'folx/hessian.py', 'folx/interpreter.py'],
    [('flags of the rules', 'folx/wrapped_functions.py'), ('choice of the Hessian trace', 'folx/hessian.py'), ('representation of Jacobians', 'folx/api.py')],
    'Recording interpreter of the emitted program; growth of logged work and array sizes between two input sizes',
    'Growth judged between 32 and 64 inputs with a margin of 35 %. Sorting, products, functions with custom derivatives and selections by a condition in sparse mode do form second derivatives and are not claimed.',
)
