from mon import std

RULE = (
    'Programs of 1 to 4 stages (elementwise functions of one and two operands, contractions with constants and of two dependent '
    'operands, reductions, normalisations, movement, selections, scatters, attention, cumulative operations, loops, compiled calls, '
    'complex intermediates) built at two sizes. The program emitted by the transformation is executed operation by operation by a '
    'recording interpreter; the log holds the arithmetic (entries written, times the contracted length for products) and the '
    'size of every array written. Both are divided by those of the plain function and by the number of input coordinates (dense) or by nothing '
    '(sparse mode, stages that keep dependencies local); the quotient may not grow with the size. Non-trivial: at least 20 logged operations.'
)
MIN_OK = 60
MIN_EVENTS = {'programs': 120, 'operations logged': 20000, 'sparse local': 20}


def cases(tier, seed):
    n = 100 if tier == 'quick' else 2500
    return [{'seed': seed, 'i': i} for i in range(n)]


def blocks():
    """Maps from vectors to vectors of the same length; those that keep dependencies local are marked."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from jax import lax, nn

    rng = lambda m, k=0: np.random.RandomState(m + k)

    def attention(y):
        z = y.reshape(-1, 8)
        w = nn.softmax(jnp.sin(z) @ z.T * 0.3)
        return (w @ z).ravel()

    def pairs(y):
        d = y.reshape(-1, 2)
        r = jnp.sqrt(((d[:, None] - d[None]) ** 2).sum(-1) + 1.0)
        return y * jnp.repeat(r.sum(1), 2) / y.size

    local = {
        'sin': jnp.sin, 'tanh': jnp.tanh, 'exp': lambda y: jnp.exp(-y * y), 'cube': lambda y: y**3 * 0.3, 'silu': nn.silu, 'gelu': nn.gelu, 'sigmoid': nn.sigmoid, 'softplus': nn.softplus,
        'log': lambda y: jnp.log(y * y + 1), 'sqrt': lambda y: jnp.sqrt(y * y + 1), 'rational': lambda y: y / (1 + y * y), 'erf': lambda y: jnp.tanh(y) * jnp.abs(y), 'power': lambda y: (y * y + 1) ** 1.3,
        'self product': lambda y: jnp.sin(y) * jnp.cos(y), 'scale': lambda y: y * rng(y.size).randn(y.size) + 0.3, 'negate': lambda y: -y + 1, 'roll': lambda y: jnp.roll(y, 3), 'reverse': lambda y: y[::-1] * 1.1,
        'transpose': lambda y: y.reshape(4, -1).T.ravel(), 'take': lambda y: y[rng(y.size).permutation(y.size)], 'concatenate': lambda y: jnp.concatenate([jnp.sin(y[: y.size // 2]), y[y.size // 2 :]]),
        'shift': lambda y: jnp.concatenate([jnp.zeros(1), y[1:]]), 'where constant': lambda y: jnp.where(np.arange(y.size) % 3 == 0, y, jnp.cos(y)), 'slice': lambda y: lax.dynamic_slice(jnp.concatenate([y, y]), (5,), (y.size,)),
        'clip': lambda y: jnp.maximum(y, -0.7) + jnp.minimum(y, 0.9), 'logaddexp': lambda y: jnp.logaddexp(y, 0.3 * y), 'compiled': jax.jit(lambda y: jnp.cos(jnp.sin(y) * y)),
        'stack': lambda y: jnp.stack([y, jnp.sin(y)]).sum(0), 'groups': lambda y: jnp.repeat((y.reshape(-1, 4) ** 2).sum(1), 4) * 0.2, 'neighbours': lambda y: y * jnp.roll(y, 1), 'atan2': lambda y: jnp.arctan2(y, y * y + 1),
        'complex': lambda y: jnp.abs(jnp.exp(1j * y) + 0.5 * y), 'group matmul': lambda y: (y.reshape(-1, 4) @ rng(3).randn(4, 4)).ravel() * 0.4, 'broadcast': lambda y: (y[:, None] * np.arange(1.0, 4.0)).sum(1) * 0.2,
        'divide': lambda y: jnp.sin(y) / (y * y + 1), 'expm1': lambda y: jnp.expm1(y * 0.3),
    }  # fmt: skip
    wide = {
        'where': lambda y: jnp.where(y > 0, jnp.sin(y), y),
        'matmul': lambda y: rng(y.size).randn(y.size, y.size) @ y / y.size**0.5, 'dense layer': lambda y: jnp.tanh(y @ rng(y.size, 1).randn(y.size, y.size) / y.size**0.5 + 0.1), 'softmax': lambda y: nn.softmax(y) * y.size,
        'logsumexp': lambda y: y - nn.logsumexp(y), 'norm': lambda y: y / jnp.linalg.norm(y), 'layer norm': lambda y: (y - y.mean()) / jnp.sqrt(y.var() + 1e-3), 'dot': lambda y: y * (jnp.sin(y) @ jnp.cos(y)) / y.size,
        'gram': lambda y: (y.reshape(-1, 4) @ (y.reshape(-1, 4).T @ jnp.sin(y).reshape(-1, 4))).ravel() / y.size, 'outer': lambda y: (jnp.sin(y)[:8, None] * jnp.cos(y)[None]).sum(0), 'cumsum': lambda y: jnp.cumsum(y) / y.size**0.5,
        'max': lambda y: y - jnp.max(y), 'min': lambda y: y * jnp.min(y), 'scatter': lambda y: jnp.zeros(y.size).at[np.arange(y.size) // 2].add(y), 'attention': attention, 'pairs': pairs,
        'loop': lambda y: lax.fori_loop(0, 3, lambda i, z: jnp.tanh(z) * 1.1 + y.sum() * 0, y), 'einsum': lambda y: jnp.einsum('ia,ja->ij', y.reshape(-1, 8)[:4], jnp.sin(y).reshape(-1, 8)).sum(0).repeat(8),
        'batch': lambda y: jnp.einsum('bij,bj->bi', y.reshape(-1, 2, 4), jnp.cos(y).reshape(-1, 2, 4)[:, 0]).ravel().repeat(4), 'sum': lambda y: jnp.sin(y) + y.sum() / y.size, 'product of sums': lambda y: y * (y.mean() * jnp.sin(y).mean()),
        'determinant': lambda y: y + jnp.linalg.slogdet(y[:16].reshape(4, 4) + 3 * np.eye(4))[1],
    }  # fmt: skip
    return local, wide


class Log:
    """Executes a jaxpr one operation at a time."""

    def __init__(self):
        self.ops = self.work = self.largest = 0

    def count(self, eqn, times=1):
        import numpy as np

        outs = [int(np.prod(v.aval.shape)) for v in eqn.outvars]
        self.largest = max([self.largest, *outs])
        work = sum(outs)
        if eqn.primitive.name == 'dot_general':
            (lc, _), _ = eqn.params['dimension_numbers']
            work *= int(np.prod([eqn.invars[0].aval.shape[i] for i in lc]))
        self.ops += 1
        self.work += times * work

    def static(self, jaxpr, times):
        for e in jaxpr.eqns:
            inner = self.inner(e)
            if inner is None:
                self.count(e, times)
            for j in inner or ():
                self.static(j.jaxpr, times * e.params.get('length', 1))

    @staticmethod
    def inner(e):
        import jax

        js = [p for p in e.params.values() if isinstance(p, jax.core.ClosedJaxpr)]
        return js or None

    def run(self, jaxpr, consts, *args):
        import jax

        env = dict(zip(jaxpr.constvars, consts))
        env.update(zip(jaxpr.invars, args))
        read = lambda v: v.val if isinstance(v, jax.core.Literal) else env[v]
        for e in jaxpr.eqns:
            ins = [read(v) for v in e.invars]
            inner = self.inner(e)
            if e.primitive.name in ('pjit', 'custom_jvp_call', 'custom_vjp_call_jaxpr', 'remat', 'closed_call', 'core_call') and inner and len(inner) == 1:
                outs = self.run(inner[0].jaxpr, inner[0].consts, *ins)
            else:
                if inner is None:
                    self.count(e)
                else:
                    for j in inner:
                        self.static(j.jaxpr, e.params.get('length', 1))
                subfuns, params = e.primitive.get_bind_params(e.params)
                outs = e.primitive.bind(*subfuns, *ins, **params)
                outs = outs if e.primitive.multiple_results else [outs]
            env.update(zip(e.outvars, outs))
        return [read(v) for v in jaxpr.outvars]


def measure(f, x):
    import jax

    jaxpr = jax.make_jaxpr(f)(x)
    log = Log()
    log.run(jaxpr.jaxpr, jaxpr.consts, x)
    return log


def run(case):
    import jax.numpy as jnp
    import folx
    from mon import fwd

    r = std.rng_of('C29', case['seed'], case['i'])
    local, wide = blocks()
    names = sorted(local) + sorted(wide)
    only_local = case['i'] % 3 == 0
    k = int(r.randint(1, 4))
    plan = [names[(case['i'] * 7 + 11 * case['seed']) % len(names)]] if not only_local else []
    pool = sorted(local) if only_local else names
    while len(plan) < k:
        plan.append(pool[r.randint(len(pool))])
    plan = [plan[j] for j in r.permutation(len(plan))]
    table = {**local, **wide}
    scalar = bool(r.rand() < 0.3) and not only_local

    def f(x):
        y = x
        for p in plan:
            y = table[p](y)
        return y.sum() if scalar else y

    ev, probs = {'programs': 0, 'operations logged': 0, 'sparse local': 0}, []
    detail = {'stages': plan, 'scalar': scalar}
    for mode in ('dense', 'sparse')[: 1 + only_local]:
        rows = []
        is_local = mode == 'sparse'
        for n in (32, 64):
            x = jnp.asarray(std.rng_of('C29', case['seed'], case['i'], n).randn(n) * 0.7)
            T = 0 if mode == 'dense' else 4 * n
            try:
                plain = measure(f, x)
                full = measure(folx.forward_laplacian(f, T), x)
            except Exception as e:
                if fwd.xla_defect(e):
                    return {'status': 'trivial', 'events': ev}
                raise
            ev['programs'] += 1
            ev['operations logged'] += full.ops
            ev['sparse local'] += int(is_local)
            unit = 1 if is_local else n + 2
            rows.append((full.work / max(plain.work, n) / unit, full.largest / max(plain.largest, n) / unit, full.ops))
        (w0, l0, _), (w1, l1, _) = rows
        detail[mode] = {'work': [round(w0, 2), round(w1, 2)], 'largest array': [round(l0, 2), round(l1, 2)]}
        per = 'per entry' if is_local else 'per entry and input coordinate'
        if w1 > 1.35 * w0 + 0.5:
            probs.append(f'{mode}: work {per} grows with the size, {w0:.2f} for 32 and {w1:.2f} for 64 inputs')
        if l1 > 1.35 * l0 + 0.5:
            probs.append(f'{mode}: the largest array {per} grows with the size, {l0:.2f} for 32 and {l1:.2f} for 64 inputs')
    return {
        'status': 'violation' if probs else ('ok' if ev['operations logged'] >= 20 else 'trivial'), 'problems': probs[:5], 'events': ev, 'evaluations': ev['programs'],
        'tags': ['local' if only_local else 'any'], 'detail': detail, 'key': [plan, scalar],
    }  # fmt: skip
