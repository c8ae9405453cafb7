from mon import std

RULE = (
    'Histories: 2 to 6 threads that start together and transform random programs (dense and sparse, compiled and '
    'uncompiled, the same program or different ones, nested transformations, operators, failing functions, own and shared custom '
    'rules, memory estimates), with the interpreter switching threads every 20 microseconds and random sleeps injected at '
    'entries of library functions. Every result is compared with the reference, every failing call must raise its own '
    'exception, all threads must finish, and handlers, configuration and registry are compared before and after. '
    'Interleavings are told apart by the sequence of threads entering library functions. Non-trivial: threads alternate.'
)
MIN_OK = 10
MIN_EVENTS = {'tasks': 80, 'results checked': 60, 'thread alternations': 300, 'injected sleeps': 100}
FAMS = {'unary': 2, 'binary': 3, 'move': 2, 'contract': 1.5, 'reduce': 1.5, 'scatter': 0.7, 'det': 0.4, 'control': 0.4}


def cases(tier, seed):
    n = 22 if tier == 'quick' else 700
    return [{'seed': seed, 'i': i} for i in range(n)]


class Boom(Exception):
    pass


class Noise:
    """Profile hook: random sleeps at entries of library functions, and the order of entries."""

    def __init__(self, root, seed, p):
        import numpy as np

        self.root, self.p, self.rng = root, p, np.random.RandomState(seed)
        self.order, self.sleeps = [], 0

    def __call__(self, frame, event, arg):
        import threading
        import time

        if event != 'call' or not frame.f_code.co_filename.startswith(self.root):
            return
        self.order.append(threading.get_ident())
        if self.rng.rand() < self.p:
            self.sleeps += 1
            time.sleep(float(self.rng.choice([0.0, 1e-4, 1e-3])))


def run(case):
    import io
    import logging
    import os
    import sys
    import threading
    import time

    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import numpy as np
    import folx
    from checks.c24 import world
    from folx.wrapped_functions import is_registered
    from mon import fwd, gen
    from mon.env import REPO
    from mon.oracle import compare

    r = std.rng_of('C25', case['seed'], case['i'])
    n_thread = int(r.randint(2, 7))
    share = bool(r.rand() < 0.4)
    recs = []
    for _ in range(1 if share else n_thread):
        rec = gen.gen_program(r, FAMS, gen.rint(r, 1, 4), n_out=2)
        if rec['steps']:
            recs.append(rec)
    if not recs:
        return {'status': 'trivial', 'events': {}}
    judges = []
    for rec in recs:
        j = fwd.Judge(gen.build(rec), gen.inputs_of(rec), n=gen.n_inputs(rec))
        if j.ref.finite():
            judges.append((rec, j))
    if not judges:
        return {'status': 'trivial', 'events': {}}
    ev = {'tasks': 0, 'results checked': 0}
    probs = []
    log_lock = threading.Lock()

    def task(kind, rec, j, k):
        """Returns a function run by the thread and one that judges its outcome afterwards."""
        f, args = gen.build(rec) if r.rand() < 0.6 else j.f, j.args
        T = [0, fwd.thresholds(r, j.n, 1)[0]][r.randint(2)]
        eager = bool(r.rand() < 0.4)
        if kind == 'fails':

            def bad(*a):
                f(*a)
                raise Boom(str(k))

            return (lambda: folx.forward_laplacian(bad, T, disable_jit=eager)(*args)), 'boom'
        if kind == 'unsupported':

            def bad(*a):
                y = jnp.ravel(f(*a)[0] if isinstance(f(*a), tuple) else f(*a))
                y = jnp.real(y) + jnp.ravel(jnp.asarray(a[0]))[0]
                return jax.lax.while_loop(lambda c: c.sum() < 5, lambda c: c * 1.5 + 1, y) * 2

            return (lambda: folx.forward_laplacian(bad, T, disable_jit=eager)(*args)), 'any'
        if kind == 'rule':
            name = f'c25_rule_{k}'

            def inner(x):
                return x * 3.0

            inner.__name__ = inner.__qualname__ = name

            def work():
                calls = []
                jf = jax.jit(inner)

                def rule(a, kw, sparsity_threshold):
                    calls.append(1)
                    return folx.wrap_forward_laplacian(lambda x: x * 3.0)(a, kw, sparsity_threshold=sparsity_threshold)

                folx.register_function(name, rule)
                try:
                    out = folx.forward_laplacian(lambda *a: jtu.tree_map(jf, f(*a)), T, disable_jit=eager)(*args)
                finally:
                    folx.deregister_function(name)
                return jtu.tree_map(lambda o: o, out), len(calls)

            return work, 'rule'
        if kind == 'shared rule':
            f2 = lambda *a: jtu.tree_map(lambda y: shared(shared(y) + 1.0), f(*a))

            def work():
                mine = threading.get_ident()
                k0 = rule_calls.get(mine, 0)
                out = folx.forward_laplacian(f2, T, disable_jit=eager)(*args)
                return out, rule_calls.get(mine, 0) - k0

            return work, 'rule'
        if kind == 'memory':
            from folx.experimental.memory import compute_memory

            return (lambda: compute_memory(f, *args)), 'memory'
        if kind == 'operator':
            real = lambda x: sum(jnp.sum(jnp.real(o)) for o in jtu.tree_leaves(f(*[x[: np.size(a)].reshape(np.shape(a)) for a in args])) if jnp.issubdtype(o.dtype, jnp.inexact)) + x.sum() ** 2
            n = max(np.size(a) for a in args)
            x = np.linspace(-0.7, 0.9, n)
            op = [folx.ForwardLaplacianOperator(T), folx.LoopLaplacianOperator(), folx.ParallelLaplacianOperator()][r.randint(3)]
            return (lambda: op(real)(x)), 'any'
        return (lambda: folx.forward_laplacian(f, T, disable_jit=eager)(*args)), ('triplet', T)

    # a rule all threads use, slow enough that several are inside at the same time
    rule_calls, in_rule = {}, [0, 0]

    def shared_c25(x):
        return x * 3.0

    shared = jax.jit(shared_c25)

    def shared_rule(a, kw, sparsity_threshold):
        mine = threading.get_ident()
        rule_calls[mine] = rule_calls.get(mine, 0) + 1
        in_rule[0] += 1
        in_rule[1] = max(in_rule)
        time.sleep(0.01)
        in_rule[0] -= 1
        return folx.wrap_forward_laplacian(lambda x: x * 4.0)(a, kw, sparsity_threshold=sparsity_threshold)

    with_shared = case['i'] % 2 == 0
    if with_shared:
        folx.register_function('shared_c25', shared_rule)
    plans = []
    for t in range(n_thread):
        tasks = []
        for k in range(2 if n_thread > 3 else 3):
            rec, j = judges[int(r.randint(len(judges)))]
            kind = ['plain', 'plain', 'plain', 'plain', 'fails', 'unsupported', 'rule', 'memory', 'operator'][r.randint(9)]
            if with_shared and k == 0:
                kind = 'shared rule'
            tasks.append((kind, rec, j, *task(kind, rec, j, f'{t}_{k}_{case["i"]}')))
        plans.append(tasks)
    expected_memory = {}
    from folx.experimental.memory import compute_memory

    for tasks in plans:
        for kind, rec, j, *_ in tasks:
            if kind == 'memory':
                expected_memory[id(j)] = compute_memory(j.f, *j.args)
    outcomes = {}
    barrier = threading.Barrier(n_thread)

    def body(t):
        barrier.wait()
        for k, (kind, rec, j, work, how) in enumerate(plans[t]):
            try:
                outcomes[t, k] = ('ok', jax.block_until_ready(work()))
            except Exception as e:
                outcomes[t, k] = ('raised', e)

    sink = logging.StreamHandler(io.StringIO())
    root = logging.getLogger()
    saved = list(root.handlers), root.level
    err, sys.stderr = sys.stderr, io.StringIO()
    noise = Noise(os.path.join(os.path.realpath(REPO), 'folx'), case['seed'] * 1000 + case['i'], [0.0, 0.01, 0.05][r.randint(3)])
    old_switch = sys.getswitchinterval()
    stuck = []
    try:
        root.handlers = [sink]
        before = world()
        sys.setswitchinterval(2e-5)
        threading.setprofile(noise)
        threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n_thread)]
        for t in threads:
            t.start()
        threading.setprofile(None)
        for t in threads:
            t.join(timeout=240)
        stuck = [i for i, t in enumerate(threads) if t.is_alive()]
        after = world()
        for k in before:
            if before[k] != after[k] and k != 'warning filters':  # catch_warnings is not thread safe in Python
                probs.append(f'changed the {k}: {str(before[k])[:150]} -> {str(after[k])[:150]}')
    finally:
        threading.setprofile(None)
        sys.setswitchinterval(old_switch)
        sys.stderr = err
        root.handlers = saved[0]
        root.setLevel(saved[1])
    if stuck:
        return {
            'status': 'violation', 'problems': [f'threads {stuck} of {n_thread} did not finish'], 'events': ev, 'evaluations': 1,
            'detail': {'threads': n_thread, 'plans': [[(k[0], gen.describe(k[1])) for k in p] for p in plans]},
        }  # fmt: skip
    for (t, k), (status, val) in sorted(outcomes.items()):
        kind, rec, j, work, how = plans[t][k]
        ev['tasks'] += 1
        where = f'thread {t} {kind} ({gen.describe(rec)})'

        def alone():
            """The same call without other threads."""
            try:
                return 'ok', jax.block_until_ready(work())
            except Exception as e:
                return 'raised', e

        if how == 'boom':
            if status != 'raised' or not isinstance(val, Boom):
                probs.append(f'{where}: {status} {type(val).__name__} instead of the exception of the function')
            continue
        if status == 'raised':
            st, v = alone()
            if st == 'ok':
                probs.append(f'{where}: raised {fwd.short_tb(val)}, but not alone')
            elif type(v) is not type(val):
                probs.append(f'{where}: raised {type(val).__name__}, alone {type(v).__name__}')
            continue
        ev['results checked'] += 1
        if how == 'memory':
            if val != expected_memory[id(j)]:
                probs.append(f'{where}: estimate {val}, alone {expected_memory[id(j)]}')
        elif how == 'rule' or how == 'any':
            st, v = alone()
            if st != 'ok':
                probs.append(f'{where}: a result, but alone raised {fwd.short_tb(v)}')
            else:
                probs += [f'{where}: {p}' for p in fwd.tree_diff(jtu.tree_map(np.asarray, val), jtu.tree_map(np.asarray, v))]
        else:
            T = how[1]
            p, _, _ = j.check(lambda *a: val, j.args, dense=(T == 0), eager=True)
            if p:  # a compiler defect shows without other threads, too
                st, v = alone()
                q = fwd.tree_diff(jtu.tree_map(np.asarray, val), jtu.tree_map(np.asarray, v)) if st == 'ok' else ['raised']
                if not q:
                    ev['same when alone'] = ev.get('same when alone', 0) + 1
                    p = []
            probs += [f'{where} T={T}: {x}' for x in p]
    if with_shared:
        if is_registered('shared_c25'):
            folx.deregister_function('shared_c25')
        else:
            probs.append('a rule is not registered any more')
    ids = {t: i for i, t in enumerate(dict.fromkeys(noise.order))}
    seq = [ids[t] for t in noise.order]
    alt = sum(a != b for a, b in zip(seq, seq[1:]))
    ev.update({'thread alternations': alt, 'injected sleeps': noise.sleeps, 'library calls': len(seq), 'threads': n_thread, 'threads inside one rule': in_rule[1] if with_shared else 0})
    return {
        'status': 'violation' if probs else ('ok' if alt > 5 else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': ev['tasks'],
        'tags': [f'{n_thread} threads'] + sorted({k[0] for p in plans for k in p}),
        'detail': {'threads': n_thread, 'shared program': share, 'programs': [gen.describe(x) for x in recs], 'alternations': alt},
        'key': std.zlib.crc32(repr(seq).encode()),
    }  # fmt: skip
