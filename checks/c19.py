from mon import std

RULE = (
    'Programs outside the predefined rules: sorting, decompositions, inverses and solves, matrix functions, transforms, '
    'convolutions, window reductions, special functions, while loops, associative scans, scans over dependent inputs, '
    'complex decompositions, matrices of few entries that depend on many inputs, custom reverse rules, callbacks, integer and boolean arguments, integer outputs, interpolation, empty arrays; '
    'embedded between differentiable operations, threshold 0 and sparse, jitted or not. Required: the exact result or '
    'an exception. Non-trivial: an exact result with non-zero Jacobian, or a refusal.'
)
MIN_OK = 80
MIN_EVENTS = {'evals': 100, 'exact': 100, 'refused': 10}

# linear solves work with sparse operands if they do with dense ones
SOLVES = {'inv', 'solve', 'wide_inv', 'complex_inv', 'complex_solve'}


def programs():
    import jax
    import jax.numpy as jnp
    import numpy as np
    from jax import lax
    from jax.scipy import linalg as jsl
    from jax.scipy import special as sp

    S = [(3,), (4,), (2, 3)]  # vectors
    M = [(2, 2), (3, 3)]  # matrices
    spd = lambda x: x @ x.T + (1 + x.shape[0]) * jnp.eye(x.shape[0])
    inv = lambda x: x + 3 * jnp.eye(x.shape[0])
    P = {}

    def p(name, shapes, fn):
        P[name] = (shapes, fn)

    p('sort', S, lambda x: jnp.sort(x, -1) * jnp.arange(1.0, x.shape[-1] + 1))
    p('sort_rows', [(3, 2)], lambda x: jnp.sort(x, 0)[0] ** 2)
    p('argsort', S, lambda x: x[jnp.argsort(x, -1)[..., 0]] if x.ndim == 1 else jnp.argsort(x, -1) * x)
    p('top_k', S, lambda x: lax.top_k(x, 2)[0] ** 2)
    p('median', S, lambda x: jnp.median(x * 1.3, -1))
    p('quantile', S, lambda x: jnp.quantile(jnp.sin(x), 0.3))
    p('unique_sorted', S, lambda x: jnp.unique(x, size=2))
    p('inv', M, lambda x: jnp.linalg.inv(inv(x)))
    p('solve', M, lambda x: jnp.linalg.solve(inv(x), x[0] ** 2))
    p('cholesky', M, lambda x: jnp.linalg.cholesky(spd(x)))
    p('cho_solve', M, lambda x: jsl.cho_solve((jnp.linalg.cholesky(spd(x)), True), jnp.sin(x[0])))
    p('triangular_solve', M, lambda x: jsl.solve_triangular(jnp.tril(x) + 3 * jnp.eye(x.shape[0]), x[:, 0], lower=True))
    p('eigh', M, lambda x: jnp.linalg.eigvalsh(spd(x) + jnp.diag(jnp.arange(x.shape[0]) * 3.0)))
    # matrices with few entries that depend on many inputs
    V = [(5,), (6,), (3, 2)]
    wide = lambda x, s=0: jnp.sin(jnp.tensordot(np.random.RandomState(s).randn(2, 2, x.size), x.ravel(), 1))
    few = lambda x: wide(x) + 1j * wide(x, 1)
    herm = lambda x: few(x) @ few(x).conj().T + jnp.diag(jnp.array([1.0, 3.0]))
    p('wide_eigh', V, lambda x: jnp.linalg.eigh(wide(x) @ wide(x).T + jnp.diag(jnp.array([1.0, 3.0])))[0])
    p('wide_inv', V, lambda x: jnp.linalg.inv(wide(x) + 3 * jnp.eye(2)))
    p('wide_chol', V, lambda x: jnp.linalg.cholesky(spd(wide(x))))
    p('wide_sort', V, lambda x: jnp.sort(wide(x).ravel()) ** 2)
    p('complex_eigh', V, lambda x: jnp.linalg.eigh(herm(x))[0])
    p('complex_eigvecs', V, lambda x: jnp.abs(jnp.linalg.eigh(herm(x))[1]))
    p('complex_cholesky', V, lambda x: jnp.linalg.cholesky(herm(x)))
    p('complex_qr', V, lambda x: jnp.linalg.qr(few(x) + 2 * jnp.eye(2))[1])
    p('complex_inv', V, lambda x: jnp.linalg.inv(few(x) + 3 * jnp.eye(2)))
    p('complex_det', V, lambda x: jnp.linalg.det(herm(x)))
    p('complex_tri', V, lambda x: jsl.solve_triangular(few(x) + 3 * jnp.eye(2), wide(x, 2)))
    p('complex_fft', V, lambda x: jnp.fft.fft(few(x), axis=0))
    p('complex_svd', V, lambda x: jnp.linalg.svd(few(x) + jnp.diag(jnp.array([1.0, 3.0])), compute_uv=False))
    p('eigvecs', M, lambda x: jnp.abs(jnp.linalg.eigh(spd(x) + jnp.diag(jnp.arange(x.shape[0]) * 3.0))[1]))
    p('qr', M, lambda x: jnp.abs(jnp.linalg.qr(inv(x))[1]))
    p('svd', M, lambda x: jnp.linalg.svd(inv(x), compute_uv=False))
    p('expm', M, lambda x: jsl.expm(0.3 * x))
    p('matrix_power', M, lambda x: jnp.linalg.matrix_power(x, 3))
    p('det', M, lambda x: jnp.linalg.det(x))
    p('pinv', M, lambda x: jnp.linalg.pinv(inv(x)))
    p('fft', S, lambda x: jnp.abs(jnp.fft.fft(x + 2)) ** 2)
    p('rfft', S, lambda x: jnp.fft.rfft(x).real)
    p('irfft', S, lambda x: jnp.fft.irfft(jnp.fft.rfft(x**2) * 0.5, x.shape[-1]))
    p('convolve', [(4,), (5,)], lambda x: jnp.convolve(x, x[:2] ** 2, mode='same'))
    p('conv', [(6,)], lambda x: lax.conv_general_dilated(x[None, None], jnp.asarray([[[0.3, -1.0, 0.5]]]), (1,), 'SAME')[0, 0] ** 2)
    p('max_window', [(4,), (6,)], lambda x: lax.reduce_window(x, -jnp.inf, lax.max, (2,), (1,), 'VALID'))
    p('sum_window', [(4,), (6,)], lambda x: lax.reduce_window(x, 0.0, lax.add, (2,), (1,), 'VALID') ** 2)
    p('custom_reduce', S, lambda x: lax.reduce(x, 0.0, lambda a, b: a + b + 0.0 * a * b, (0,)))
    p('lgamma', S, lambda x: sp.gammaln(x**2 + 1.2))
    p('digamma', S, lambda x: sp.digamma(x**2 + 1.2))
    p('gammainc', S, lambda x: sp.gammainc(2.5, x**2 + 0.5))
    p('betainc', S, lambda x: sp.betainc(2.0, 3.0, jax.nn.sigmoid(x)))
    p('bessel', S, lambda x: sp.i0e(x) + sp.i1e(x))
    p('erfinv', S, lambda x: sp.erfinv(0.7 * jnp.tanh(x)))
    p('erfc', S, lambda x: sp.erfc(x) * x)
    p('polygamma', S, lambda x: sp.polygamma(1, x**2 + 1.0))
    p('zeta', S, lambda x: sp.zeta(3.0, x**2 + 1.0))
    p('expi', S, lambda x: sp.expi(x**2 + 0.5))
    p('ndtr', S, lambda x: sp.log_ndtr(x))
    p('xlogy', S, lambda x: sp.xlogy(x, x**2 + 1))
    p('sinc', S, lambda x: jnp.sinc(x))
    p('rem', S, lambda x: jnp.mod(x, 0.37) * x)
    p('rem_both', S, lambda x: jnp.fmod(x, x[..., :1] ** 2 + 0.61))
    p('floor', S, lambda x: jnp.floor(x * 3) * x + jnp.round(x) + jnp.trunc(2 * x))
    p('clip', S, lambda x: jnp.clip(x, -0.4, 0.6) ** 2)
    p('clamp_dep', S, lambda x: lax.clamp(-jnp.abs(x) - 0.1, 2 * x, jnp.cos(x) + 0.1))
    p('nextafter', S, lambda x: jnp.nextafter(x, 2.0) * 1.0)
    p('reduce_precision', S, lambda x: lax.reduce_precision(x, 8, 23))
    p('sign_heaviside', S, lambda x: jnp.heaviside(x, 0.5) * x**2)
    p('while', S, lambda x: lax.while_loop(lambda c: c[0] < 3, lambda c: (c[0] + 1, jnp.sin(c[1]) * c[1]), (0, x))[1])
    p('while_float', S, lambda x: lax.while_loop(lambda c: (c**2).sum() > 0.01, lambda c: c * 0.4 + 0.05 * c**2, x))
    p('while_dep', S, lambda x: lax.while_loop(lambda c: c[1] < 3, lambda c: (c[0] * jnp.cos(x), c[1] + 1.0), (x, 0.0))[0])
    p('fori_dyn', S, lambda x: lax.fori_loop(0, jnp.asarray(3), lambda i, c: jnp.sin(c) + i * c, x))
    p('scan_xs', S, lambda x: lax.scan(lambda c, v: (c * jnp.sin(v) + v, c), 1.0 + 0 * x.ravel()[0], x.ravel())[0])
    p('scan_xs_out', S, lambda x: lax.scan(lambda c, v: (c + v**2, c * v), 0.5, x.ravel())[1])
    p('scan_const_carry', S, lambda x: lax.scan(lambda c, _: (c * jnp.cos(x), None), jnp.ones(x.shape), None, length=3)[0])
    p('scan_swap', S, lambda x: lax.scan(lambda c, _: ((c[1], c[0] * c[1]), c[0]), (x, jnp.ones(x.shape)), None, length=3)[0])
    p('scan_int', S, lambda x: lax.scan(lambda c, _: ((c[0] + 1, c[1] * c[0]), None), (1, x), None, length=3)[0][1])
    p('scan_out_const', S, lambda x: lax.scan(lambda c, _: (jnp.sin(c), jnp.arange(2.0)), x, None, length=2))
    p('scan_grow', [(3,), (4,)], lambda x: lax.scan(lambda c, _: (c + 0.5 * jnp.roll(c, 1) ** 2, c[0]), x, None, length=2))
    p('associative_scan', S, lambda x: lax.associative_scan(jnp.multiply, x + 1.3, axis=-1))
    p('map', S, lambda x: lax.map(lambda v: v**2 * x.sum(), x))
    p('cond_dep', S, lambda x: lax.cond(x.sum() > 0, lambda a: a**2, lambda a: a * jnp.sin(a), x))
    p('switch_dep', S, lambda x: lax.switch(jnp.int32(jnp.abs(x.sum()) * 3) % 3, [jnp.sin, jnp.cos, lambda a: a**3], x))
    p('interp', S, lambda x: jnp.interp(x, jnp.arange(-3.0, 4.0), jnp.sin(jnp.arange(7.0))))
    p('interp_dep', S, lambda x: jnp.interp(0.3, jnp.arange(x.size) * 1.0, x.ravel() ** 2))
    p('searchsorted', S, lambda x: jnp.arange(4.0)[jnp.searchsorted(jnp.arange(4.0) - 1.5, x)] * x)
    p('map_coordinates', [(2,)], lambda x: jax.scipy.ndimage.map_coordinates(jnp.arange(12.0).reshape(3, 4) ** 2, [1 + 0.3 * x, 1.5 + 0.2 * x], order=1))
    p('one_hot', S, lambda x: jax.nn.one_hot(jnp.argmax(x, -1), x.shape[-1]) * x)
    p('segment_sum', [(4,)], lambda x: jax.ops.segment_sum(x**2, jnp.array([0, 1, 0, 2]), 3))
    p('segment_max', [(4,)], lambda x: jax.ops.segment_max(x, jnp.array([0, 1, 0, 2]), 3) ** 2)
    p('bincount', [(4,)], lambda x: jnp.bincount(jnp.array([0, 1, 1, 2]), weights=x**2, length=3))
    p('histogram', [(4,)], lambda x: jnp.histogram(x, bins=3, range=(-2, 2), weights=x)[0])
    p('polyval', S, lambda x: jnp.polyval(jnp.arange(4.0), x) + jnp.polyval(x.ravel()[:2], 0.3))
    p('cross', [(3,), (2, 3)], lambda x: jnp.cross(x, jnp.flip(x, -1) ** 2))
    p('kron', M, lambda x: jnp.kron(x, x[:1]))
    p('trace_diag', M, lambda x: jnp.trace(x @ x) + jnp.diagonal(x**2))
    p('triu', M, lambda x: jnp.triu(x) @ jnp.tril(x))
    p('einsum_repeated', M, lambda x: jnp.einsum('ii->i', x) ** 2)
    p('tensordot', M, lambda x: jnp.tensordot(x, x, 2))
    p('where_int', S, lambda x: jnp.where((x * 4).astype(int) % 2 == 0, x, x**2))
    p('int_cast', S, lambda x: x * (x * 2).astype(jnp.int32) + (x > 0).astype(x.dtype))
    p('bitwise', S, lambda x: jnp.where((x > 0) ^ (x > 0.5) | ~(x > -1), x, -(x**2)))
    p('int_out', S, lambda x: ((x * 3).astype(int), x**2))
    p('bool_out', S, lambda x: (jnp.any(x > 0), jnp.all(x < 3, -1), x.sum()))
    p('argmax_out', S, lambda x: (jnp.argmax(x), jnp.argmin(x, -1), jnp.max(x)))
    p('nan_to_num', S, lambda x: jnp.nan_to_num(jnp.sqrt(x * x)) * x)
    p('nansum', S, lambda x: jnp.nansum(jnp.where(x > 0, x, jnp.nan)) * x)
    p('cumsum_rev', S, lambda x: lax.cumsum(x, x.ndim - 1, reverse=True) ** 2)
    p('diff', S, lambda x: jnp.diff(x, axis=-1) ** 2)
    p('gradient', [(4,)], lambda x: jnp.gradient(x**2))
    p('vander', [(3,)], lambda x: jnp.vander(x, 3))
    p('meshgrid', [(2,), (3,)], lambda x: sum(jnp.meshgrid(x, x**2)))
    p('outer', [(3,)], lambda x: jnp.outer(x, jnp.sin(x)))
    p('nonzero', [(3,)], lambda x: x[jnp.nonzero(x > 0, size=2, fill_value=0)[0]] ** 2)
    p('choose', [(3,)], lambda x: jnp.choose(jnp.array([0, 1, 0]), [x, x**2]))
    p('piecewise', S, lambda x: jnp.piecewise(x, [x < 0, x > 0.5], [lambda v: -v, lambda v: v**2, lambda v: jnp.sin(v)]))
    p('custom_vjp', S, _custom_vjp())
    p('stop', S, lambda x: lax.stop_gradient(x) * x**2 + lax.stop_gradient(x.sum()))
    p('random', S, lambda x: x * jax.random.normal(jax.random.PRNGKey(3), x.shape))
    p('random_dep', S, lambda x: x + 0.1 * jax.random.normal(jax.random.fold_in(jax.random.PRNGKey(0), (x.sum() * 10).astype(int)), x.shape))
    p('pure_callback', S, lambda x: x * jax.pure_callback(lambda a: np.asarray(a).sum() * 1.0, jax.ShapeDtypeStruct((), x.dtype), x))
    p('debug_print', S, lambda x: (jax.debug.callback(lambda a: None, x), jnp.sin(x))[1])
    p('checkpoint', S, lambda x: jax.checkpoint(lambda a: jnp.sin(a) * a.sum())(x))
    p('checkpoint_policy', S, lambda x: jax.checkpoint(lambda a: jnp.tanh(a @ a.T), policy=jax.checkpoint_policies.dots_saveable)(jnp.atleast_2d(x)))
    p('vmap_inner', [(2, 3)], lambda x: jax.vmap(lambda a: jnp.sort(a)[0] * a)(x))
    p('grad_inner', S, lambda x: jax.grad(lambda a: jnp.sum(jnp.sin(a) * a**2))(x))
    p('hess_inner', [(3,)], lambda x: jax.hessian(lambda a: jnp.prod(jnp.cos(a)))(x))
    p('empty', [(3,)], lambda x: x[:0].sum() + x**2)
    p('empty_out', [(3,)], lambda x: (x[1:1] * 2, jnp.sin(x)))
    p('empty_concat', [(3,)], lambda x: jnp.concatenate([x[:0], x**2]))
    p('expand_many', [(2,)], lambda x: jnp.sin(x[None, :, None, None]) * jnp.ones((2, 1, 2, 1)))
    p('big_pow', S, lambda x: (x**2 + 0.5) ** x)
    p('int_power', S, lambda x: jnp.power(x, 3) + jnp.float_power(x**2 + 1, 1.5))
    p('complex_exp', S, lambda x: jnp.exp(1j * x) / (x + 2j))
    p('complex_sqrt', S, lambda x: jnp.sqrt(x + 1j) ** 3)
    p('angle', S, lambda x: jnp.angle(x + 1j * x**2 + 0.3j))
    p('complex_div', S, lambda x: ((x + 1j) / (x - 2j)).imag)
    p('complex_solve', M, lambda x: jnp.linalg.solve(inv(x) + 1j * x.T, x[0]).real)
    p('complex_sort', S, lambda x: jnp.sort(x + 0j).real)
    p('logsumexp_weights', S, lambda x: sp.logsumexp(x, b=jnp.cos(x) + 2))
    p('var_ddof', S, lambda x: jnp.var(x, ddof=1) + jnp.std(x, -1))
    p('cov', [(2, 3)], lambda x: jnp.cov(x))
    p('softmax_masked', S, lambda x: jax.nn.softmax(x, where=x > -0.2, initial=-1e3))
    p('standardize', S, lambda x: jax.nn.standardize(x))
    p('glu', [(4,), (2, 4)], lambda x: jax.nn.glu(x))
    p('celu', S, lambda x: jax.nn.celu(x) + jax.nn.elu(x) + jax.nn.selu(x) + jax.nn.leaky_relu(x) + jax.nn.hard_tanh(x))
    p('relu', S, lambda x: jax.nn.relu(x) ** 2 + jax.nn.relu6(3 * x))
    p('log_softmax', S, lambda x: jax.nn.log_softmax(x) * jnp.arange(1.0, 1 + x.shape[-1]))
    p('mish', S, lambda x: jax.nn.mish(x) + jax.nn.hard_swish(x) + jax.nn.log_sigmoid(x) + jax.nn.soft_sign(x))
    p('gather_2d', M, lambda x: x[jnp.array([[0, 1], [1, 0]]), jnp.array([1, 0])] ** 2)
    p('take_along', M, lambda x: jnp.take_along_axis(x, jnp.argsort(x, 1), 1) * jnp.arange(1.0, x.shape[1] + 1))
    p('put_along', M, lambda x: jnp.put_along_axis(jnp.zeros_like(x), jnp.zeros((x.shape[0], 1), int), x[:, :1] ** 2, 1, inplace=False))
    p('at_min', S, lambda x: jnp.zeros(x.shape).at[..., 0].min(x[..., 0]) + x)
    p('at_div', S, lambda x: x.at[..., 0].divide(2.0) * x.at[..., -1].power(2))
    p('dyn_update', [(4,)], lambda x: lax.dynamic_update_slice(x, x[:2] ** 2, (jnp.argmax(x),)))
    p('roll_dyn', [(4,)], lambda x: jnp.roll(x, jnp.argmax(x)) * x)
    p('select_and', S, lambda x: jnp.select([x < -0.5, x < 0.5], [x, x**2], x**3))
    p('isclose', S, lambda x: jnp.where(jnp.isclose(x, 0.2), 1.0, x) + jnp.allclose(x, x))
    p('tri_area', [(3, 2)], lambda x: jnp.abs(jnp.linalg.det(jnp.c_[x, jnp.ones(3)])))
    p('block', M, lambda x: jnp.block([[x, x**2], [jnp.eye(x.shape[0]), x.T]]))
    p('apply_along', M, lambda x: jnp.apply_along_axis(lambda v: v * v.sum(), 0, x))
    p('trapezoid', S, lambda x: jnp.trapezoid(x**2, axis=-1))
    p('unwrap', [(3,)], lambda x: jnp.unwrap(4 * x))
    p('ravel_multi', M, lambda x: x.ravel()[jnp.ravel_multi_index((jnp.array([0, 1]), jnp.array([1, 1])), (2, 2))] ** 2)
    p('tan_atan2', S, lambda x: jnp.arctan2(x, x[..., ::-1] + 2) + jnp.hypot(x, 1.3))
    p('acosh', S, lambda x: jnp.arccosh(x**2 + 1.5) + jnp.arctanh(0.5 * jnp.tanh(x)))
    p('norms', M, lambda x: jnp.linalg.norm(x, 2) + jnp.linalg.norm(x, 'nuc') + jnp.linalg.norm(x, 1))
    p('lu', M, lambda x: jsl.lu(inv(x))[2])
    p('schur_free', M, lambda x: jnp.linalg.multi_dot([x, x.T, inv(x)]))
    p('cumlogsumexp', S, lambda x: lax.cumlogsumexp(x, axis=x.ndim - 1))
    p('logcumprod', S, lambda x: jnp.cumprod(x + 1.7, -1))
    p('rsqrt_norm', S, lambda x: x * lax.rsqrt((x**2).sum(-1, keepdims=True) + 0.1))
    p('copysign', S, lambda x: jnp.copysign(x**2, x))
    p('ldexp', S, lambda x: jnp.ldexp(x, 2) + jnp.frexp(x)[0])
    p('dot_preferred', M, lambda x: lax.dot_general(x, x, (((1,), (0,)), ((), ())), preferred_element_type=jnp.float64))
    p('batch_matmul', [(2, 2, 2)], lambda x: jnp.matmul(x, jnp.swapaxes(x, 1, 2)))
    p('int_scale', S, lambda x: x * 3 + x // 0.7 * x)
    return P


def _custom_vjp():
    import jax
    import jax.numpy as jnp

    @jax.custom_vjp
    def f(x):
        return jnp.sin(x)

    f.defvjp(lambda x: (f(x), x), lambda r, g: (g * 2.0 * jnp.cos(r),))
    return f


N = 171


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [{'seed': seed, 'i': i, 'rep': rep} for rep in range(k) for i in range(N)]


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import folx
    from mon import fwd

    table = programs()
    names = sorted(table)
    if case['i'] >= len(names):
        return {'status': 'trivial', 'events': {}}
    name = names[case['i']]
    r = std.rng_of('C19', case['seed'], name, case['rep'])
    shapes, fn = table[name]
    shape = shapes[r.randint(len(shapes))]
    pre_k, post_k = int(r.randint(4)), int(r.randint(3))
    c = 0.5 + float(r.rand())
    pre = [lambda x: x, lambda x: c * x, lambda x: x + 0.2 * jnp.flip(x) ** 2, lambda x: jnp.tanh(x) + 0.1 * x.sum()][pre_k]
    post = [lambda y: y, lambda y: y * 1.5, lambda y: jnp.sin(y)][post_k]

    def f(x):
        out = fn(pre(x))
        return jax.tree_util.tree_map(lambda y: post(y) if jnp.issubdtype(y.dtype, jnp.inexact) else y, out)

    x = (np.asarray(r.randn(*shape) * 0.8),)
    ev = {'evals': 0, 'exact': 0, 'refused': 0}
    T2 = fwd.thresholds(r, x[0].size, 1)[0]
    detail = {'program': name, 'shape': shape, 'pre': pre_k, 'post': post_k}
    try:
        j = fwd.Judge(f, x)
    except Exception as e:
        # not differentiable forward twice: folx has to refuse it as well
        ref, j = None, None
        detail['reference'] = f'{type(e).__name__}'
    probs, tags = [], []
    if j is not None and not j.ref.finite():
        return {'status': 'trivial', 'events': ev, 'detail': detail}
    for T, e in ((0, bool(r.rand() < 0.25)), (T2, bool(r.rand() < 0.4))):
        ev['evals'] += 1
        g = folx.forward_laplacian(f, T, disable_jit=e)
        if j is None:
            try:
                out = g(*x)
            except Exception:
                ev['refused'] += 1
                tags.append('refused_' + name)
                continue
            lv = [o for o in jax.tree_util.tree_leaves(out, is_leaf=lambda o: isinstance(o, folx.api.FwdLaplArray)) if isinstance(o, folx.api.FwdLaplArray)]
            if lv:
                probs.append(f'T={T} eager={e}: derivatives of a function without forward derivatives')
            continue
        p, facts, _ = j.check(g, x, dense=(T == 0), eager=e, rtol=1e-5)
        if p and p[0].startswith('raised') and not (name in SOLVES and T and ev['exact']):
            ev['refused'] += 1
            tags.append(f'refused_{name}')
            continue
        if not p:
            ev['exact'] += 1
        probs += [f'{name} T={T} eager={e}: {q}' for q in p]
    if j is not None:
        for k in ('dense_out', 'sparse_out', 'plain_out', 'xla_defect', 'xla_refused', 'xla_reference_defect'):
            if k in j.ev:
                ev[k] = j.ev[k]
    ok = ev['refused'] or (j is not None and j.moved())
    return {
        'status': 'violation' if probs else ('ok' if ok else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': ev['evals'],
        'tags': sorted(set(tags)), 'detail': detail, 'known': name,
    }  # fmt: skip
