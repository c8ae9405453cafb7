from mon import large, std

RULE = (
    'Stratum large: programs of 1 to 3 stages on 136 to 304 inputs. '
    'Stratum steps: random programs evaluated operation by operation with every registered propagation rule wrapped; '
    'the monitor recomputes value, Jacobian and Laplacian of every rule application from the operands it was given and '
    'checks the structure of every sparse pattern. Stratum values: one compiled evaluation (pattern fixed at compile '
    'time) called at further inputs (other values, negated, scaled, permuted) whose reference moves to other branches '
    'and maxima. Constants that look like numbers of inputs are padded, filled, selected and concatenated. Non-trivial: a sparse operand was seen or a sparse output returned.'
)
MIN_OK = 40
MIN_EVENTS = {'rules_sparse': 100, 'rules_dense': 20, 'points': 100, 'sparse_out': 60}
FAMS = {'unary': 1.5, 'binary': 2, 'move': 2.5, 'reduce': 1.5, 'contract': 1.2, 'scatter': 1, 'cumulative': 0.4, 'det': 0.2, 'complex': 0.3, 'control': 0.3}
ST = [[[4]], [[5]], [[2, 2]], [[3, 2]], [[2, 3]], [[4, 2]], [[3], [3]], [[2, 3], [3]], [[6]], [[2, 1, 2]], [[1, 3]]]
SWITCH = {'binary': 2, 'move': 1, 'reduce': 2, 'scatter': 2, 'datadep': 2, 'unary': 1}
FORCE = ['relu', 'max', 'min', 'where', 'red_max', 'red_min', 'clip', 'scatter_max', 'scatter_min', 'abs', 'dd_index', 'dd_slice', 'dd_where_idx',
         'mul', 'red_prod', 'dot_general', 'pairwise', 'softmax', 'int_concat', 'int_fill', 'int_select', 'pattern_mul', 'pattern_dot']
LEAD = ['int_concat', 'pattern_mul', 'int_select', 'pattern', 'int_fill', 'int_concat', 'pattern_dot', 'int_set', 'int_pad', 'int_dus', 'int_max', 'int_select', 'int_fill', 'pattern_sum']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 20
    out = [{'stratum': 'steps', 'seed': seed, 'i': i} for i in range(56 * k)]
    out += [{'stratum': 'values', 'seed': seed, 'i': i} for i in range(90 * k)]
    out += large.cases(seed, 8 * k)
    r = std.rng_of('C03', seed)
    return [out[i] for i in r.permutation(len(out))]


def run(case):
    if case['stratum'] == 'large':
        return large.run('C03', case)
    import jax
    import folx
    import numpy as np
    from mon import fwd, gen, steps

    r = std.rng_of('C03', case['stratum'], case['seed'], case['i'])
    if case['stratum'] == 'steps':
        rec = gen.gen_program(r, FAMS, gen.rint(r, 2, 3), styles=ST, n_out=2, max_elems=16, first=[LEAD[(case['i'] // 2) % len(LEAD)]] if case['i'] % 2 else None)
    else:
        rec = gen.gen_program(r, SWITCH, gen.rint(r, 2, 4), styles=ST, n_out=2, first=[FORCE[case['i'] % len(FORCE)]])
    if not rec['steps']:
        return {'status': 'trivial', 'events': {}}
    f, args, n = gen.build(rec), gen.inputs_of(rec), gen.n_inputs(rec)
    T = [1, 2, 3, 4, n, 1000, 1000][r.randint(7)]
    detail = {'program': gen.describe(rec), 'T': T, 'recipe': rec}
    base = dict(key=[rec['inputs'], rec['steps'], rec['outs'], T], detail=detail, tags=sorted({s[0] for s in rec['steps']}))
    j = fwd.Judge(f, args, n=n)
    if not j.ref.finite():
        return {'status': 'trivial', 'events': j.ev}
    probs = []
    if case['stratum'] == 'steps':
        mon = steps.StepMonitor(n)
        with mon.installed():
            p, _, _ = j.check(folx.forward_laplacian(f, T, disable_jit=True), args, eager=True)
        probs += mon.problems + p
        ev = j.ev
        for k, v in mon.seen.items():
            kind = k.split('/')[1]
            ev['rules_' + kind] = ev.get('rules_' + kind, 0) + v
        ev['rules_skipped'] = sum(mon.skipped.values())
        base['tags'] += ['rule:' + k for k in mon.seen]
        res = j.result([f'T={T}: {p}' for p in probs], evaluations=sum(mon.seen.values()) + 1, **base)
        if res['status'] == 'ok' and not ev.get('rules_sparse'):
            res['status'] = 'trivial'
        return res
    fn = folx.forward_laplacian(f, T)
    pts = [args, [-a for a in args], [r.permutation(np.ravel(a)).reshape(np.shape(a)) * 1.3 for a in args], [r.randn(*np.shape(a)) for a in args]]
    masks = []
    for q, x in enumerate(pts):
        x = tuple(np.asarray(a, float) for a in x)
        if q:
            j.move(x)
            if not j.ref.finite():
                continue
        p, _, out = j.check(fn, x)
        probs += [f'T={T} point {q}: {m}' for m in p]
        j.ev['points'] = j.ev.get('points', 0) + 1
        if out is not None:
            leaves = jax.tree_util.tree_leaves(out, is_leaf=lambda a: isinstance(a, folx.api.FwdLaplArray))
            masks.append([np.asarray(o.jacobian.x0_idx) if isinstance(o, folx.api.FwdLaplArray) and o.jacobian.weak else None for o in leaves])
    for m in masks[1:]:
        for a, b in zip(masks[0], m):
            if (a is None) != (b is None) or (a is not None and not np.array_equal(a, b)):
                probs.append(f'T={T}: the pattern changed with the values of the inputs')
    return j.result(probs, evaluations=j.ev['evals'], **base)
