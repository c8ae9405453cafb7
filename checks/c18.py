from mon import std

RULE = (
    'Kinds: custom rules registered for compiled functions by name and for new primitives (call counts, results, '
    'effects of registering again and of removing); annotations of functions (elementwise, trailing axes, per-argument '
    'axes, linear, linear in the first argument, bilinear, indexing, summations, reductions, joint derivatives) applied '
    'directly and through '
    'the registry, each dense, sparse and with a constant operand; scatter rules that keep sums over segments sparse; '
    'custom Hessian rules; random programs with random subsets of the predefined rules removed. '
    'Non-trivial: the reference Jacobian is not zero and the rule was entered (or removed rules were needed).'
)
MIN_OK = 40
MIN_EVENTS = {'evals': 80, 'rule_calls': 20, 'removed_rules': 20}
KINDS = ['named', 'removed', 'removed', 'primitive', 'custom_hessian']
VARIANTS = ['dense', 'sparse', 'constant', 'constant first']
N_ANNOTATIONS = 39
BINARY = (3, 4, 5, 6, 7, 8, 9, 13, 19, 20, 21, 34, 35, 36, 37, 38)
FAMS = {'unary': 2, 'binary': 3, 'move': 2, 'contract': 1.5, 'reduce': 1.5, 'scatter': 0.6, 'cumulative': 0.4, 'det': 0.4}


def cases(tier, seed):
    n = 50 if tier == 'quick' else 1500
    rounds = 1 if tier == 'quick' else 25
    # every annotation, densely, sparsely and with a constant operand
    table = [{'seed': seed, 'i': i, 'kind': 'annotated', 'row': k, 'variant': v} for i in range(rounds) for k in range(N_ANNOTATIONS) for v in VARIANTS if 'constant' not in v or k in BINARY]
    table += [{'seed': seed, 'i': i, 'kind': 'scatter'} for i in range(12 if tier == 'quick' else 300)]
    return table + [{'seed': seed, 'i': i, 'kind': KINDS[i % len(KINDS)]} for i in range(n)] + [
        {'seed': seed, 'i': 0, 'kind': 'probe', 'name': k} for k in ('collision', 'leading_axis')
    ]


def snapshot():
    from folx import wrapped_functions as w

    return dict(w._LAPLACE_FN_REGISTRY)


def restore(snap):
    import folx
    from folx import wrapped_functions as w

    for k in list(w._LAPLACE_FN_REGISTRY):
        if k not in snap:
            folx.deregister_function(k)
    for k, v in snap.items():
        folx.register_function(k, v)


def run(case):
    snap = snapshot()
    try:
        return globals()['kind_' + case['kind']](case, std.rng_of('C18', case['seed'], case['i'], case['kind'], case.get('row'), case.get('variant')))
    finally:
        restore(snap)


def pre_post(r):
    """x -> array with dependencies; array -> outputs."""
    import jax.numpy as jnp

    k = r.randint(5)
    a, b = float(r.randn()), 0.4 + float(r.rand())
    shape = [(3,), (2, 2), (3, 2), (2, 3), (4,), (1, 3)][r.randint(6)]
    pre = [
        lambda x: x * 1.0,
        lambda x: jnp.sin(x * b) + 0.2 * x,
        lambda x: jnp.tanh(x) * x[..., :1],
        lambda x: x + jnp.flip(x, 0) ** 2,
        lambda x: jnp.cumsum(x, -1) * 0.5,
    ][k]
    post = [lambda y: y, lambda y: jnp.tanh(y) + a * y, lambda y: (y**2).sum(), lambda y: (y, jnp.cos(y).mean(0))][r.randint(4)]
    x = r.randn(*shape) * 0.7
    return pre, post, x


def kind_named(case, r):
    """register_function on the name of a jitted function."""
    import jax
    import jax.numpy as jnp
    import folx
    from folx.wrapped_functions import get_laplacian, is_registered
    from mon import fwd

    pre, post, x = pre_post(r)
    name = 'user_fn_%d' % r.randint(1000)
    calls = []
    sites = int(r.randint(1, 4))
    c = 0.3 + float(r.rand())

    def user_fn(y):
        return jnp.sin(y) * y

    user_fn.__name__ = name
    fn = jax.jit(user_fn)

    def marked(y):  # what the registered rule computes: something else
        return jnp.exp(c * y)

    inner = folx.wrap_forward_laplacian(marked, in_axes=())

    def rule(args, kwargs, sparsity_threshold):
        calls.append((len(args), dict(kwargs), sparsity_threshold))
        return inner(args, kwargs, sparsity_threshold)

    def prog(g):
        def f(x):
            y = pre(x)
            for _ in range(sites):
                y = 0.5 * g(y)
            return post(y)

        return f

    T = [0, 1, 2, 3, 100][r.randint(5)]
    before, with_rule = fwd.Judge(prog(user_fn), (x,)), fwd.Judge(prog(marked), (x,))
    probs = []

    def go(j, what):
        p, _, _ = j.check(folx.forward_laplacian(prog(fn), T), (x,), dense=(T == 0))
        probs.extend(f'{what}: {q}' for q in p)

    if is_registered(name) or get_laplacian(name) is not None:
        probs.append('an unknown name counts as registered')
    go(before, 'before registering')
    folx.register_function(name, rule)
    if not is_registered(name) or get_laplacian(name) is not rule:
        probs.append('a registered name does not yield the registered rule')
    go(with_rule, 'registered')
    if len(calls) != sites:
        probs.append(f'the rule was entered {len(calls)} times for {sites} calls')
    if any(n != 1 or k or t != T for n, k, t in calls):
        probs.append(f'the rule received other arguments or another threshold than {T}: {calls[:2]}')
    n_calls = len(calls)
    # functions with similar names keep their own derivatives
    other = [name.upper(), name.capitalize(), name.title(), '_' + name, name + '_', name[:-1], 'a.' + name, name + '1', name.replace('_', '')]
    found = [o for o in other if is_registered(o) or get_laplacian(o) is not None]
    if found:
        probs.append(f'registering {name} registers {found}')
    relative = lambda y: jnp.sin(y) * y
    relative.__name__ = other[r.randint(3) if r.rand() < 0.5 else r.randint(len(other))]
    p, _, _ = before.check(folx.forward_laplacian(prog(jax.jit(relative)), T), (x,), dense=(T == 0))
    probs += [f'{relative.__name__} while {name} is registered: {q}' for q in p]
    if len(calls) != n_calls:
        probs.append(f'the rule of {name} was entered for {relative.__name__}')
    if r.rand() < 0.5:  # registering again replaces the rule
        folx.register_function(name, folx.wrap_forward_laplacian(user_fn, in_axes=()))
        go(before, 'registered again')
    folx.deregister_function(name)
    if is_registered(name):
        probs.append('still registered after removal')
    go(before, 'after removal')
    if len(calls) != n_calls:
        probs.append('the rule was entered after its removal')
    try:
        folx.deregister_function(name)
        probs.append('removing an unknown name raises nothing')
    except KeyError:
        pass
    ev = before.ev
    ev['evals'] += with_rule.ev['evals']
    ev['rule_calls'] = n_calls
    return before.result(probs, evaluations=ev['evals'], tags=['named'], detail={'sites': sites, 'T': T, 'shape': x.shape})


def kind_primitive(case, r):
    """A new primitive: general fall-back, then a registered rule."""
    import jax
    import jax.numpy as jnp
    import folx
    from folx.wrapped_functions import get_laplacian, is_registered
    from jax.interpreters import ad, batching, mlir
    from mon import fwd

    pre, post, x = pre_post(r)
    which = int(r.randint(3))
    impl = [lambda a, *, k: jnp.sin(a) * k, lambda a, *, k: jnp.flip(a, -1) * jnp.sum(a**2) * k, lambda a, *, k: jnp.tanh(a.sum(-1)) * k][which]
    axes = [(), None, (-1,)][which]
    p = jax.core.Primitive('monitored_%d' % r.randint(10**6))
    p.def_impl(impl)
    p.def_abstract_eval(lambda a, *, k: jax.core.ShapedArray(jax.eval_shape(lambda v: impl(v, k=k), a).shape, a.dtype))
    mlir.register_lowering(p, mlir.lower_fun(impl, multiple_results=False))
    ad.primitive_jvps[p] = lambda pr, t, *, k: jax.jvp(lambda v: impl(v, k=k), pr, t)

    def batch(args, dims, *, k):
        (a,), (d,) = args, dims
        return jax.vmap(lambda v: impl(v, k=k), d)(a), 0

    batching.primitive_batchers[p] = batch
    k = 0.5 + float(r.rand())
    f = lambda x: post(p.bind(pre(x), k=k))
    plain = lambda x: post(impl(pre(x), k=k))
    T = [0, 1, 2, 3, 100][r.randint(5)]
    j = fwd.Judge(plain, (x,))
    probs = []
    if is_registered(p):
        probs.append('a new primitive counts as registered')
    q, _, _ = j.check(folx.forward_laplacian(f, T), (x,), dense=(T == 0))
    probs += [f'unregistered primitive: {v}' for v in q]
    calls = []
    inner = folx.wrap_forward_laplacian(p.bind if r.rand() < 0.5 else impl, in_axes=axes, name='monitored')

    def rule(args, kwargs, sparsity_threshold):
        calls.append(dict(kwargs))
        return inner(args, kwargs, sparsity_threshold)

    folx.register_function(p, rule)
    q, _, _ = j.check(folx.forward_laplacian(f, T), (x,), dense=(T == 0))
    probs += [f'registered primitive: {v}' for v in q]
    if calls != [{'k': k}]:
        probs.append(f'the rule was entered with {calls}, expected once with the parameters of the call')
    if get_laplacian(p) is not rule:
        probs.append('a registered primitive does not yield its rule')
    folx.deregister_function(p)
    q, _, _ = j.check(folx.forward_laplacian(f, T), (x,), dense=(T == 0))
    probs += [f'after removal: {v}' for v in q]
    if len(calls) != 1:
        probs.append('the rule was entered after its removal')
    j.ev['rule_calls'] = len(calls)
    return j.result(probs, evaluations=j.ev['evals'], tags=['primitive'], detail={'impl': which, 'T': T, 'shape': x.shape})


def annotations():
    import jax
    import jax.numpy as jnp
    import numpy as np
    from folx.api import FunctionFlags as F

    W = jnp.asarray([[0.3, -0.5, 0.7], [0.2, 0.9, -0.4], [1.1, 0.1, 0.6], [-0.8, 0.5, 0.3]])
    w = lambda d: W[:d, :d] if d <= 3 else W[:d]
    last = lambda x: x.shape[-1]
    mix = lambda x: jnp.einsum('...i,ij->...j', x, w(last(x)))
    # name, arity, function, in_axes, flags
    return [
        ('elementwise', 1, lambda x: jnp.sin(x) * x, (), F.GENERAL),
        ('elementwise_joint', 1, lambda x: jnp.tanh(x) * x, (), F.JOIN_JVP),
        ('elementwise_general', 1, lambda x: jnp.cos(x) + x**3, None, F.GENERAL),
        ('elementwise2', 2, lambda x, y: jnp.sin(x * y) + x, (), F.GENERAL),
        ('elementwise2_joint', 2, lambda x, y: jnp.exp(-x * y), (), F.JOIN_JVP),
        ('product', 2, lambda x, y: x * y, (), F.MULTIPLICATION),
        ('bilinear', 2, lambda x, y: x * y * 0.7, (), F.LINEAR_IN_ONE),
        ('bilinear_axis', 2, lambda x, y: jnp.einsum('...i,...j,ij->...', x, y, jnp.asarray(np.arange(1.0, 17.0).reshape(4, 4)[: last(x), : last(x)])), (-1,), F.LINEAR_IN_ONE),
        ('bilinear_general', 2, lambda x, y: jnp.flip(x, 0) * y * 0.7 + 0.2 * x * y.sum(), None, F.LINEAR_IN_ONE),
        ('linear_first', 2, lambda x, y: x * jnp.cosh(y), (), F.LINEAR_IN_FIRST),
        ('linear', 1, lambda x: 3.0 * x, (), F.LINEAR),
        ('linear_axis', 1, mix, (-1,), F.LINEAR),
        ('linear_general', 1, lambda x: jnp.flip(x, 0) * 2.0 + x.sum(), None, F.LINEAR),
        ('linear2', 2, lambda x, y: 2 * x - y, (), F.LINEAR),
        ('vector_scalar', 1, lambda x: jnp.sin(x).sum(-1) * x[..., 0], (-1,), F.GENERAL),
        ('vector_scalar_int', 1, lambda x: jnp.sqrt(1 + (x**2).sum(-1)), -1, F.GENERAL),
        ('vector_vector', 1, lambda x: jax.nn.softmax(x, -1), (-1,), F.GENERAL),
        ('vector_other', 1, lambda x: jnp.stack([jnp.prod(x, -1), x[..., 0] ** 2], -1), (-1,), F.GENERAL),
        ('vector_joint', 1, lambda x: jnp.exp(-(x**2).sum(-1)), (-1,), F.JOIN_JVP),
        ('vectors', 2, lambda x, y: jnp.tanh((x * y).sum(-1)) * x[..., 0], (-1,), F.GENERAL),
        ('vectors_per_arg', 2, lambda x, y: jnp.cos((x - y**2).sum(-1)), ((-1,), (-1,)), F.GENERAL),
        ('dot', 2, lambda x, y: (x * y).sum(-1), ((-1,), (-1,)), F.DOT_PRODUCT),
        ('reduction', 1, lambda x: jnp.prod(x, -1), (-1,), F.REDUCTION),
        ('sum', 1, lambda x: x.sum(-1), (-1,), F.LINEAR | F.REDUCTION),
        ('matrix', 1, lambda x: jnp.sin(x).sum((-1, -2)) * x[..., 0, 0], (-2, -1), F.GENERAL),
        ('sparse_hessian', 1, lambda x: jnp.sin(x.sum(-1)), (-1,), F.SPARSE_JHJ),
        ('outputs', 1, lambda x: (jnp.sin(x), x**2), (), F.GENERAL),
        ('indexing', 1, lambda x: jnp.flip(x, -1)[..., :2] * 1, None, F.INDEXING),
        ('indexing_repeated', 1, lambda x: jnp.concatenate([x, x[..., :1], jnp.flip(x, -1)], -1), None, F.INDEXING),
        ('summation', 1, lambda x: x.sum(-1), (-1,), F.SUMMATION),
        ('summation_int', 1, lambda x: x.sum(-1), -1, F.SUMMATION),
        ('summation_first', 1, lambda x: x.sum(0), (0,), F.SUMMATION),
        ('summation_all', 1, lambda x: x.sum(), None, F.SUMMATION),
        ('outputs_axis', 1, lambda x: (jnp.sin(x).sum(-1), jnp.prod(x, -1)), (-1,), F.GENERAL),
        ('elementwise3', 3, lambda x, y, z: x * jnp.cos(y * z) + z**2 * y, (), F.GENERAL),
        ('elementwise3_joint', 3, lambda x, y, z: jnp.tanh(x * y + z) * z, (), F.JOIN_JVP),
        ('elementwise3_product', 3, lambda x, y, z: x * y * z * z, (), F.GENERAL),
        ('vectors3', 3, lambda x, y, z: jnp.tanh((x * y).sum(-1)) * (z**2).sum(-1), (-1,), F.GENERAL),
        ('linear3', 3, lambda x, y, z: x - 2 * y + 0.5 * z, (), F.LINEAR),
    ]


def kind_annotated(case, r):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from folx.api import FwdLaplArray
    from mon import fwd

    table = annotations()
    assert len(table) == N_ANNOTATIONS
    name, arity, fn, axes, flags = table[case['row']]
    variant = case['variant']
    if 'constant' in variant and arity == 1:
        return {'status': 'trivial', 'events': {}}
    pre, post, x = pre_post(r)
    if name == 'matrix' and x.ndim < 2:
        x = np.asarray(r.randn(2, 2))
    if arity == 3:
        x, turn = np.asarray(r.randn(*[(6,), (2, 3), (2, 4), (8,)][r.randint(4)])), int(r.randint(3))
        pre = lambda x: jnp.tanh(x) * 1.3
    const_arg = 'constant' in variant
    side = int(r.randint(2))
    if const_arg:
        side = int(variant == 'constant')
    cst = r.randn(*x.shape) * 0.5

    def operands(x):
        a = pre(x)
        if arity == 1:
            return (a,)
        b = jnp.asarray(cst) if const_arg else jnp.cos(x) + 0.3 * jnp.flip(x, -1)
        if arity == 3:
            c = jnp.sin(jnp.roll(x.ravel(), 1)).reshape(x.shape) * 0.8
            return [(a, b, c), (c, a, b), (b, c, a)][turn]
        return (a, b) if side else (b, a)

    first = lambda y: y
    f = lambda x: jax.tree_util.tree_map(first, fn(*operands(x)))
    j = fwd.Judge(f, (x,))
    T = {'dense': [0], 'sparse': [1, 2, 3, 4, x.size, 100, 100]}.get(variant, [0, 1, 2, 4, 100])
    T = T[r.randint(len(T))]
    if arity == 2 and isinstance(axes, tuple) and axes and isinstance(axes[0], tuple):
        T = 0  # axes per argument: refused in sparse mode
    calls = []
    inner = folx.wrap_forward_laplacian(fn, in_axes=axes, flags=flags, name=name)

    def rule(args, kwargs, sparsity_threshold):
        calls.append(1)
        return inner(args, kwargs, sparsity_threshold)

    def call(*a):
        return fn(*a)

    call.__name__ = 'annotated_' + name
    jitted = jax.jit(call)
    folx.register_function('annotated_' + name, rule)
    probs = []
    out = fn(*operands(x))
    if not isinstance(out, tuple):
        q, _, _ = j.check(folx.forward_laplacian(lambda x: jitted(*operands(x)), T, disable_jit=bool(r.rand() < 0.3)), (x,), dense=(T == 0))
        probs += [f'{name} through the registry: {v}' for v in q]
        if len(calls) != 1:
            probs.append(f'{name}: the rule was entered {len(calls)} times for one call')

    def direct(x):
        ops = folx.forward_laplacian(operands, T, disable_jit=True)(x)
        return rule(ops, {}, T)

    q, _, _ = j.check(direct, (x,), dense=(T == 0), eager=True)
    probs += [f'{name} applied directly: {v}' for v in q]
    # constants only: plain evaluation
    plain = rule(tuple(jnp.asarray(o) for o in operands(x)), {}, T)
    for o, y in zip(jax.tree_util.tree_leaves(plain), jax.tree_util.tree_leaves(out)):
        if isinstance(o, FwdLaplArray) or not np.allclose(o, y):
            probs.append(f'{name}: plain operands do not give the plain value')
    # without derivatives
    bare = folx.warp_without_fwd_laplacian(fn)(folx.forward_laplacian(operands, T, disable_jit=True)(x), {}, T)
    if any(isinstance(o, FwdLaplArray) for o in jax.tree_util.tree_leaves(bare, is_leaf=lambda o: isinstance(o, FwdLaplArray))) or not all(
        np.allclose(a, b) for a, b in zip(jax.tree_util.tree_leaves(bare), jax.tree_util.tree_leaves(out))
    ):
        probs.append(f'{name}: the rule without derivatives does not return the plain value')
    j.ev['rule_calls'] = len(calls)
    return j.result(
        [f'T={T} {p}' for p in probs], evaluations=j.ev['evals'], tags=['annotated', name],
        detail={'annotation': name, 'T': T, 'shape': x.shape, 'constant_operand': const_arg},
    )  # fmt: skip


def kind_scatter(case, r):
    """The scatter rules with the SCATTER flag, which keeps sums over segments sparse."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from folx.api import FunctionFlags as F
    from mon import fwd

    name, flags, prim = [
        ('scatter_add', F.LINEAR | F.SCATTER, jax.lax.scatter_add_p),
        ('scatter_add', F.LINEAR | F.SCATTER, jax.lax.scatter_add_p),
        ('scatter', F.INDEXING | F.SCATTER, jax.lax.scatter_p),
    ][case['i'] % 3]
    inner = folx.wrap_forward_laplacian(prim.bind, flags=flags, name=name)
    calls = []

    def rule(args, kwargs, sparsity_threshold):
        calls.append(1)
        return inner(args, kwargs, sparsity_threshold)

    folx.register_function(prim, rule)
    m, n_seg = 5 + int(r.randint(3)), 2 + int(r.randint(3))
    x = r.randn(m + 1) * 0.7
    # positions repeat, leave segments out or lie outside
    idx = r.randint(-1, n_seg + 1, size=m)
    if name == 'scatter':
        idx = r.permutation(np.arange(m) % (m + 1))[:n_seg]
    mode = [None, 'promise_in_bounds', 'clip'][r.randint(3)]
    if mode == 'promise_in_bounds':
        idx = np.clip(idx, 0, n_seg - 1)
    a, b = [(lambda x: x[:-1] * x[1:]), (lambda x: jnp.sin(x[:-1]) + x[1:] ** 2), (lambda x: x[r0] * 1.3), (lambda x: x[:-1] ** 3)][r.randint(4)], r.randint(3)
    r0 = r.randint(m + 1, size=m)
    dn = jax.lax.ScatterDimensionNumbers((), (0,), (0,))
    size = n_seg if name == 'scatter_add' else m
    base = [lambda x: jnp.zeros(size), lambda x: jnp.arange(size) * 0.3, lambda x: jnp.cos(x[:size]) if size <= m else jnp.zeros(size)][b]
    scatter = jax.lax.scatter_add if name == 'scatter_add' else jax.lax.scatter
    ii = jnp.asarray(idx).reshape(-1, 1)

    def f(x, i=None):
        i = ii if i is None else i
        return jnp.tanh(scatter(base(x), i, a(x)[: len(idx)], dn, mode=mode))

    j = fwd.Judge(f, (x,))
    if not j.ref.finite():
        return {'status': 'trivial', 'events': {}}
    probs = []
    for T in (0, int(r.randint(1, m + 1)), 100):
        q, _, _ = j.check(folx.forward_laplacian(f, T, disable_jit=bool(r.rand() < 0.4)), (x,), dense=(T == 0))
        probs += [f'{name} with the SCATTER flag, T={T}: {v}' for v in q]
    g = folx.forward_laplacian(f, 100)  # positions given at run time
    q, _, _ = j.check(lambda x: g(x, i=ii), (x,))
    probs += [f'{name} with the SCATTER flag and traced positions: {v}' for v in q]
    if not calls:
        probs.append('the registered rule was never used')
    j.ev['rule_calls'] = len(calls)
    return j.result(probs, evaluations=j.ev['evals'], tags=['scatter', name, str(mode)], detail={'rule': name, 'positions': idx.tolist(), 'mode': str(mode), 'm': m})


def kind_custom_hessian(case, r):
    """A custom tr(J H J^T) rule is used as given, next to J and the linear part."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd

    pre, _, x = pre_post(r)
    c = float(r.randn())
    name = 'hess_fn_%d' % r.randint(1000)
    T = [0, 1, 2, 100][r.randint(4)]
    seen = []

    def base(y):
        return jnp.sin(y) * 2.0

    base.__name__ = name
    fn = jax.jit(base)

    def rule(args, extra_args, merge, materialize_idx):
        seen.append(len(args.arrays))
        return jax.tree_util.tree_map(lambda v: jnp.full_like(v, c), args.x[0])

    folx.register_function(name, folx.wrap_forward_laplacian(base, in_axes=(), custom_jac_hessian_jac=rule))
    probs, ev = [], {'evals': 0, 'rule_calls': 0}
    try:
        out = folx.forward_laplacian(lambda x: fn(pre(x)), T, disable_jit=True)(x)
    except Exception as e:
        return {'status': 'violation', 'problems': [f'raised {fwd.short_tb(e)}'], 'events': ev}
    _, J, H = fwd.reference(lambda x: base(pre(x)), (x,)).leaves[0]
    y, Jp, Hp = fwd.reference(pre, (x,)).leaves[0]
    want = 2.0 * np.cos(y) * Hp.sum(0) + c
    n = x.size
    D = np.asarray(out.jacobian.dense_array)
    D = np.concatenate([D, np.zeros((n - D.shape[0], *D.shape[1:]))])
    if not np.allclose(D, J, 1e-6, 1e-8):
        probs.append('the Jacobian differs')
    if not np.allclose(out.laplacian, want, 1e-6, 1e-8):
        probs.append(f'the Laplacian is not the custom term plus the linear term: {np.asarray(out.laplacian).ravel()[:3]} expected {want.ravel()[:3]}')
    if seen != [1]:
        probs.append(f'the custom rule was entered {len(seen)} times')
    ev.update(evals=1, rule_calls=len(seen))
    return {'status': 'violation' if probs else 'ok', 'problems': [f'T={T} {p}' for p in probs], 'events': ev, 'tags': ['custom_hessian'], 'detail': {'T': T, 'shape': x.shape}}


def kind_removed(case, r):
    """Exactness does not depend on which rules are predefined."""
    import jax
    import folx
    from mon import fwd, gen

    rec = gen.gen_program(r, FAMS, gen.rint(r, 2, 5), n_out=2, max_elems=16)
    if not rec['steps']:
        return {'status': 'trivial', 'events': {}}
    f, xs = gen.build(rec), gen.inputs_of(rec)
    j = fwd.Judge(f, xs)
    if not j.ref.finite():
        return {'status': 'trivial', 'events': {}}
    snap = snapshot()
    used, keep, empty = set(), set(), []

    def walk(jaxpr):
        for e in jaxpr.eqns:
            empty.extend(v for v in e.outvars if v.aval.size == 0)
            ok = all(jax.numpy.issubdtype(v.aval.dtype, jax.numpy.inexact) for v in e.outvars)
            key = e.params.get('name') if e.primitive.name == 'pjit' else e.primitive
            if key in snap:
                (used if ok else keep).add(key)
            for v in e.params.values():
                if hasattr(v, 'jaxpr'):
                    walk(v.jaxpr)

    walk(jax.make_jaxpr(f)(*xs).jaxpr)
    used = sorted(used - keep, key=str)
    gone = [k for k in used if r.rand() < 0.5] or used[:1]
    gone = [k for k in gone if str(k) not in ('convert_element_type',)]
    if not gone:
        return {'status': 'trivial', 'events': {}}
    n = gen.n_inputs(rec)
    probs = []
    for T in (0, fwd.thresholds(r, n, 1)[0]):
        try:
            for k in gone:
                folx.deregister_function(k)
            p, _, _ = j.check(folx.forward_laplacian(f, T), xs, dense=(T == 0))
        finally:
            restore(snap)
        if empty and p and all('raised' in q for q in p):
            continue  # operations without rules may refuse arrays without entries
        probs += [f'T={T} without the rules of {[str(k) for k in gone]}: {q}' for q in p]
    j.ev['removed_rules'] = len(gone)
    return j.result(
        probs, evaluations=j.ev['evals'], tags=['removed'] + ['no_' + str(k) for k in gone],
        detail={'program': gen.describe(rec), 'removed': [str(k) for k in gone], 'recipe': rec},
    )  # fmt: skip


def kind_probe(case, r):
    """Known findings."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd

    x = np.asarray(r.randn(3, 2))
    if case['name'] == 'collision':

        @jax.jit
        def silu(x):  # not jax.nn.silu
            return x**3

        f = lambda x: silu(x).sum()
        j = fwd.Judge(f, (x,))
        p, _, _ = j.check(folx.forward_laplacian(f), (x,))
    else:
        fn = lambda x: x / (1 + (x**2).sum(0, keepdims=True))
        j = fwd.Judge(fn, (x,))
        rule = folx.wrap_forward_laplacian(fn, in_axes=(0,))
        p, _, _ = j.check(lambda x: rule((folx.forward_laplacian(lambda v: v * 1.0, 0, disable_jit=True)(x),), {}, 0), (x,), eager=True)
    return j.result([f'{case["name"]}: {q}' for q in p], known=case['name'], tags=['probe'])
