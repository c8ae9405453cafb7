from mon import std

RULE = (
    'A random program is cut into two or three stages; every stage is transformed separately and receives the triplets '
    'of the previous one (dense stages jitted, sparse stages unjitted, dense into sparse, sparse then densified), '
    'together with plain arrays that must act as constants, in pytrees, with weights on the first stage; the result is '
    'compared with the reference of the composition. Non-trivial: the reference Jacobian is not zero.'
)
MIN_OK = 40
MIN_EVENTS = {'evals': 100, 'dense_out': 80, 'sparse_out': 20, 'mixed': 20}
FAMS = {'unary': 2, 'binary': 3, 'move': 1.5, 'reduce': 1, 'contract': 1, 'scatter': 0.5}
ST = [[[3]], [[2, 2]], [[3], [3]], [[2, 2], [2]], [[3], []], [[2, 3], [3]], [[4]], [[5]], [[3, 2]]]


def cases(tier, seed):
    n = 80 if tier == 'quick' else 2500
    return [{'seed': seed, 'i': i} for i in range(n)]


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from folx.api import FwdLaplArray
    from mon import fwd, gen
    from mon.ops import OPS

    r = std.rng_of('C16', case['seed'], case['i'])
    rec = gen.gen_program(r, FAMS, gen.rint(r, 3, 5), styles=ST, n_out=2, max_elems=20)
    if len(rec['steps']) < 2:
        return {'status': 'trivial', 'events': {}}
    xs, n = gen.inputs_of(rec), gen.n_inputs(rec)
    n_in, n_steps = len(xs), len(rec['steps'])
    n_stage = int(r.randint(2, 4)) if n_steps > 2 else 2
    cuts = [0, *sorted(r.choice(np.arange(1, n_steps), n_stage - 1, replace=False)), n_steps]
    const = np.asarray(r.randn(2))
    mixed = bool(r.rand() < 0.5)
    nest = bool(r.rand() < 0.4)

    def stage(k):
        def g(*args):
            if nest and k:
                args = tuple(args[0]['e']) + tuple(args[1:])
            extra = args[-1]
            env = list(args[:-1])
            for name, idx, p in rec['steps'][cuts[k] : cuts[k + 1]]:
                env.append(OPS[name].fn(p, *[env[i] for i in idx]))
            if mixed:  # the constant enters every stage
                env[-1] = env[-1] * (1 + 0.1 * jnp.sum(extra)) if jnp.issubdtype(env[-1].dtype, jnp.inexact) else env[-1]
            if k == len(cuts) - 2:
                return tuple(env[i] for i in rec['outs'])
            return tuple(env)

        return g

    def composed(*xs):
        env = tuple(jnp.asarray(x) for x in xs)
        for k in range(len(cuts) - 1):
            a = (({'e': list(env)},) if nest and k else env) + (const,)
            env = stage(k)(*a)
        return env

    wv = None
    w = None
    if r.rand() < 0.3:
        w = float(r.randn())
        wv = np.full(n, w)
    j = fwd.Judge(composed, xs, n=n, weights=wv)
    if not j.ref.finite():
        return {'status': 'trivial', 'events': j.ev}
    probs = []
    detail = {'program': gen.describe(rec), 'cuts': [int(c) for c in cuts], 'nest': nest, 'constant': mixed, 'weight': w, 'recipe': rec}

    def chain(modes):
        def go(*xs):
            env = None
            for k, (T, eager, after) in enumerate(modes):
                g = stage(k)
                if k == 0:
                    first = lambda *a: g(*a, const)
                    fl = folx.forward_laplacian(first, T, disable_jit=eager)
                    env = fl(*xs) if w is None else fl(*xs, weights=w)
                else:
                    a = (({'e': list(env)},) if nest else tuple(env)) + (jnp.asarray(const),)
                    env = folx.forward_laplacian(g, T, disable_jit=eager)(*a)
                if after == 'dense':
                    env = tuple(e.dense if isinstance(e, FwdLaplArray) else e for e in env)
            return env

        return go

    m = len(cuts) - 1
    T = [1, 2, 3, n, 1000][r.randint(5)]
    plans = [('dense jit', [(0, False, '')] * m), ('sparse', [(T, True, '')] * m)]
    if r.rand() < 0.4:
        plans.append(('dense eager', [(0, True, '')] * m))
    if r.rand() < 0.4:
        plans.append(('dense then sparse', [(0, False, '')] + [(T, False, '')] * (m - 1)))
    if r.rand() < 0.4:
        plans.append(('sparse densified', [(T, False, 'dense')] + [(0, False, '')] * (m - 1)))
    for what, modes in plans:
        if what == 'sparse densified':
            # the pattern of a jitted result is an array; rebuild it as static data first
            def static(o):
                return o._replace(jacobian=o.jacobian._replace(x0_idx=np.asarray(o.jacobian.x0_idx))) if isinstance(o, FwdLaplArray) and o.jacobian.weak else o

            def go(*xs):
                g0 = stage(0)
                fl = folx.forward_laplacian(lambda *a: g0(*a, const), T)
                env = fl(*xs) if w is None else fl(*xs, weights=w)
                env = tuple(static(e) for e in env)
                env = tuple(e.dense if isinstance(e, FwdLaplArray) else e for e in env)
                for k in range(1, m):
                    a = (({'e': list(env)},) if nest else tuple(env)) + (jnp.asarray(const),)
                    env = folx.forward_laplacian(stage(k), 0)(*a)
                return env
        else:
            go = chain(modes)
        p, facts, _ = j.check(go, xs, eager=True)
        j.ev['mixed'] = int(mixed)
        probs += [f'{what} T={T}: {q}' for q in p]
    return j.result(probs, evaluations=j.ev['evals'], detail=detail, tags=[p[0] for p in plans])
