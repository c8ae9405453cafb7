from mon import std

RULE = (
    'Random programs transformed in sequences that mix dense and sparse thresholds, compiled and uncompiled evaluation, '
    'surrounding jit, vmap and grad, custom rules, the operators, batched evaluation and calls that fail (the function '
    'raises, an unsupported operation, a rule that raises, wrong weights). Monitored around every call: logging '
    'handlers, levels and propagation of all loggers, rule registry, JAX configuration, warning filters, numpy error state, '
    'random states, environment, standard output, bytes and writability of the arguments, tracers left behind (leak '
    'checker), exception type. The first call is repeated after the others and must give the same bits. '
    'Non-trivial: at least three calls.'
)
MIN_OK = 30
MIN_EVENTS = {'calls': 150, 'failing': 30, 'repeats': 50}
FAMS = {'unary': 2, 'binary': 3, 'move': 2, 'contract': 1.5, 'reduce': 1.5, 'scatter': 0.7, 'det': 0.4, 'control': 0.4, 'loop': 0.3, 'complex': 0.5}


def cases(tier, seed):
    n = 52 if tier == 'quick' else 1600
    return [{'seed': seed, 'i': i} for i in range(n)]


def world():
    """Everything global a library call has no business changing."""
    import logging
    import os
    import random
    import sys
    import warnings

    import jax
    import numpy as np
    from folx import wrapped_functions as w

    root = logging.getLogger()
    names = [None] + sorted(k for k in logging.root.manager.loggerDict if k.startswith(('folx', 'jax')))
    logs = {}
    for k in names:
        g = logging.getLogger(k)
        logs[str(k)] = (tuple(id(h) for h in g.handlers), g.level, g.propagate, g.disabled, tuple(id(f) for f in g.filters))
    return {
        'logging handlers': logs,
        'logging formatters': tuple((id(h), id(h.formatter), h.level) for h in root.handlers),
        'logging switch': logging.root.manager.disable,
        'rule registry': tuple(sorted((str(k), id(v)) for k, v in w._LAPLACE_FN_REGISTRY.items())),
        'JAX configuration': tuple(sorted((k, str(v)) for k, v in jax.config.values.items())),
        'x64 mode': jax.config.jax_enable_x64,
        'tracing state': str(jax.core.thread_local_state.trace_state.trace_stack.stack[1:]),
        'dynamic trace': str(jax.core.thread_local_state.trace_state.trace_stack.dynamic),
        'warning filters': tuple(map(str, warnings.filters)),
        'numpy error state': tuple(sorted(np.geterr().items())),
        'numpy random state': hash(np.random.get_state()[1].tobytes()),
        'random state': hash(random.getstate()),
        'environment': hash(tuple(sorted(os.environ.items()))),
        'streams': (id(sys.stdout), id(sys.stderr)),
        'recursion limit': sys.getrecursionlimit(),
    }


class Interrupt(KeyboardInterrupt):
    """What a user's ctrl-c or a time limit raises: not an Exception."""


class Boom(Exception):
    pass


def run(case):
    import contextlib
    import io
    import logging

    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import folx
    from mon import fwd, gen

    r = std.rng_of('C24', case['seed'], case['i'])
    rec = gen.gen_program(r, FAMS, gen.rint(r, 2, 5), n_out=2)
    rec2 = gen.gen_program(r, FAMS, gen.rint(r, 2, 4), n_out=1)
    if not rec['steps'] or not rec2['steps']:
        return {'status': 'trivial', 'events': {}}
    f, args = gen.build(rec), gen.inputs_of(rec)
    f2, args2 = gen.build(rec2), gen.inputs_of(rec2)
    n = gen.n_inputs(rec)
    T = fwd.thresholds(r, n, 1)[0]
    ev = {'calls': 0, 'failing': 0, 'repeats': 0, 'watched states': 0}
    probs, history = [], []

    def frozen(a):
        a = np.array(a)
        a.setflags(write=False)
        return a

    def bad_weights():
        return folx.forward_laplacian(f, 0)(*args, weights=(1.0,) * (len(args) + 5))

    def rule_raises(error=Boom):
        @jax.jit
        def named_rule_for_c24(x):
            return x * 2

        def rule(args, kwargs, sparsity_threshold):
            raise error('rule')

        folx.register_function('named_rule_for_c24', rule)
        try:
            return folx.forward_laplacian(lambda *a: named_rule_for_c24(a[0] * 1.5), [0, T][r.randint(2)])(*args)
        finally:
            folx.deregister_function('named_rule_for_c24')

    def primitive_raises():
        error = [Boom, Interrupt][r.randint(2)]
        prim = jax.core.Primitive('primitive_for_c24')
        prim.def_impl(lambda x: x * 2)
        prim.def_abstract_eval(lambda x: x)

        def rule(args, kwargs, sparsity_threshold):
            raise error('primitive')

        folx.register_function(prim, rule)
        try:
            return folx.forward_laplacian(
                lambda *a: prim.bind(a[0] * 1.5), [0, T][r.randint(2)], disable_jit=bool(r.rand() < 0.5)
            )(*args)
        finally:
            folx.deregister_function(prim)

    def derivative_raises():
        error = [Boom, Interrupt][r.randint(2)]

        @jax.custom_jvp
        def g(x):
            return x * 2

        @g.defjvp
        def _(primals, tangents):
            raise error('derivative')

        return folx.forward_laplacian(lambda *a: g(a[0] * 1.5), [0, T][r.randint(2)], disable_jit=bool(r.rand() < 0.5))(*args)

    def function_raises():
        def g(*a):
            f(*a)
            raise Boom('function')

        return folx.forward_laplacian(g, [0, T][r.randint(2)], disable_jit=bool(r.rand() < 0.5))(*args)

    def unsupported():
        def g(*a):
            y = jnp.ravel(jnp.asarray(a[0]))
            return jax.lax.while_loop(lambda c: c.sum() < 5, lambda c: c * 1.5 + 1, y) * 2

        return folx.forward_laplacian(g, [0, T][r.randint(2)], disable_jit=bool(r.rand() < 0.5))(*args)

    def scan_over_inputs():
        def g(*a):
            y = jnp.ravel(jnp.asarray(a[0]))
            return jax.lax.scan(lambda c, v: (c * v, c), 1.0, y)[0]

        return folx.forward_laplacian(g, T)(*args)

    def batched_raises():
        def g(x):
            raise Boom('batched')

        return folx.batched_vmap(g, max_batch_size=2)(np.ones((5, 2)))

    good = {
        'dense': lambda f, a: folx.forward_laplacian(f, 0)(*a),
        'sparse': lambda f, a: folx.forward_laplacian(f, T)(*a),
        'dense uncompiled': lambda f, a: folx.forward_laplacian(f, 0, disable_jit=True)(*a),
        'sparse uncompiled': lambda f, a: folx.forward_laplacian(f, T, disable_jit=True)(*a),
        'weighted': lambda f, a: folx.forward_laplacian(f, 0)(*a, weights=2.0),
        'jit': lambda f, a: jax.jit(lambda *a: jtu.tree_leaves(folx.forward_laplacian(f, T)(*a)))(*a),
        'vmap': lambda f, a: jax.vmap(lambda *a: jtu.tree_leaves(folx.forward_laplacian(f, 0)(*a)))(*[np.stack([v, v]) for v in a]),
        'grad': lambda f, a: jax.grad(lambda *a: sum(jnp.sum(jnp.abs(l)) for l in jtu.tree_leaves(folx.forward_laplacian(f, 0)(*a)) if jnp.issubdtype(l.dtype, jnp.inexact)))(*a),
        'operator': lambda f, a: folx.ForwardLaplacianOperator(0)(lambda x: sum(jnp.sum(jnp.real(l)) for l in jtu.tree_leaves(f(*[x[: np.size(v)].reshape(np.shape(v)) if 0 else x.ravel()[: np.size(v)].reshape(np.shape(v)) for v in a]))))(np.concatenate([np.ravel(v) for v in a])),
        'batched': lambda f, a: folx.batched_vmap(lambda *a: jtu.tree_leaves(folx.forward_laplacian(f, 0)(*a)), max_batch_size=2)(*[np.stack([v, v, v]) for v in a]),
        'nested': lambda f, a: folx.forward_laplacian(lambda *a: sum(jnp.sum(jnp.real(o.laplacian)) if hasattr(o, 'laplacian') else jnp.sum(jnp.real(o)) for o in jtu.tree_leaves(folx.forward_laplacian(f, 0)(*a), is_leaf=lambda o: hasattr(o, 'laplacian'))), 0)(*a),
    }  # fmt: skip
    heavy = {'nested', 'grad'}
    bad = {
        'wrong weights': (bad_weights, None), 'rule raises': (rule_raises, Boom), 'function raises': (function_raises, Boom),
        'rule is interrupted': (lambda: rule_raises(Interrupt), Interrupt), 'rule of a primitive raises': (primitive_raises, (Boom, Interrupt)), 'custom derivative raises': (derivative_raises, (Boom, Interrupt)),
        'unsupported operation': (unsupported, None), 'scan over inputs': (scan_over_inputs, None), 'batched function raises': (batched_raises, Boom),
    }  # fmt: skip

    def watch(name, call, given, leaks):
        before, raw = world(), [np.asarray(a).tobytes() for a in given]
        buf, exc, out = io.StringIO(), None, None
        ev['calls'] += 1
        with contextlib.redirect_stdout(buf):
            inner = world()
            try:
                with jax.checking_leaks() if leaks else contextlib.nullcontext():
                    out = jax.block_until_ready(call())
            except (Exception, Interrupt) as e:
                exc = e
            after_in = world()
        after = world()
        ev['watched states'] += len(after)
        history.append(name)
        for k in before:
            if before[k] != after[k] or inner[k] != after_in[k]:
                probs.append(f'{name}: changed the {k}: {str(before[k])[:150]} -> {str(after[k])[:150]}')
        if [np.asarray(a).tobytes() for a in given] != raw:
            probs.append(f'{name}: changed its arguments')
        if buf.getvalue():
            probs.append(f'{name}: printed {buf.getvalue()[:80]!r}')
        return out, exc

    def bits(t):
        return [(np.asarray(l).dtype.str, np.asarray(l).shape, np.asarray(l).tobytes()) for l in jtu.tree_leaves(t)]

    # logging as an application would have set it up; folx must put it back
    sink = logging.StreamHandler(io.StringIO())
    root = logging.getLogger()
    saved = list(root.handlers), root.level, logging.root.manager.disable
    import sys

    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        # (without any handler the logging module itself installs one at the first message)
        root.handlers = [sink] if r.rand() < 0.7 else [sink, logging.NullHandler()]
        root.setLevel([logging.WARNING, logging.INFO, logging.ERROR][r.randint(3)])
        logging.disable([logging.NOTSET, logging.CRITICAL][r.randint(2)])
        handlers = root.handlers
        fargs = [frozen(a) for a in args]
        leaks = bool(r.rand() < 0.25)
        first = ['dense', 'sparse', 'sparse', 'dense uncompiled', 'sparse uncompiled'][r.randint(5)]
        one, exc = watch(first, lambda: good[first](f, fargs), fargs, leaks)
        if exc is not None:
            if fwd.xla_defect(exc) or 'Sparsity' in str(exc) or 'sparsity mismatch' in str(exc):
                return {'status': 'trivial', 'events': ev}
            if 'Leaked' in str(exc):
                probs.append(f'{first}: {str(exc)[:300]}')
            else:
                return {'status': 'trivial', 'events': ev}  # other checks decide whether it may fail
        for _ in range(4):
            if r.rand() < 0.5:
                k = sorted(bad)[r.randint(len(bad))]
                call, want = bad[k]
                _, e = watch(k, call, args, False)
                ev['failing'] += e is not None
                if want is not None and (e is None or not isinstance(e, want)):
                    probs.append(f'{k}: raised {type(e).__name__ if e else "nothing"} instead of the original exception')
            else:
                names = [k for k in sorted(good) if k not in heavy] + [k for k in heavy if len(rec2['steps']) < 3]
                k = names[r.randint(len(names))]
                given = [frozen(a) for a in args2]
                watch(k, lambda: good[k](f2, given), given, False)
        if one is not None:
            for how in ('again', 'a new transformation'):
                again, exc = watch(first, lambda: good[first](f if how == 'again' else gen.build(rec), fargs), fargs, False)
                ev['repeats'] += 1
                if exc is not None:
                    probs.append(f'{first}: {how} after {history[1:]}: raised {fwd.short_tb(exc)}')
                elif bits(again) != bits(one):
                    probs.append(f'{first}: {how} after {history[1:-1]}: other bits than the first time')
                elif jtu.tree_structure(again) != jtu.tree_structure(one):
                    probs.append(f'{first}: {how} after {history[1:-1]}: other structure than the first time')
        if root.handlers is not handlers and root.handlers != handlers:
            probs.append('other logging handlers at the end')
    finally:
        sys.stderr = err
        root.handlers = saved[0]
        root.setLevel(saved[1])
        logging.disable(saved[2])
    return {
        'status': 'violation' if probs else ('ok' if ev['calls'] > 2 else 'trivial'), 'problems': probs[:5], 'events': ev,
        'evaluations': ev['calls'], 'tags': sorted(set(history)),
        'detail': {'program': gen.describe(rec), 'threshold': str(T), 'history': history, 'leak checker': leaks},
        'key': [rec['inputs'], rec['steps'], history],
    }  # fmt: skip
