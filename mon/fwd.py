"""Running forward_laplacian on a case and judging the outcome."""

import traceback

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

import folx
from folx.api import FwdLaplArray

from . import gen
from .oracle import RefFn, compare, reference, xla_defect


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    frames = [f'{f.filename.split("/")[-1]}:{f.name}' for f in tb if '/folx/' in f.filename]
    return f'{type(e).__name__}: {str(e)[:300]} @ {" > ".join(frames[-4:])}'


def thresholds(rng, n, k=3):
    pool = [1, 2, 3, 4, 5, max(1, n - 1), n, n + 1, 1000, 0.3, 0.6, 0.99]
    return [pool[int(rng.randint(len(pool)))] for _ in range(k)]


def run(f, args, threshold, eager=False, **kw):
    try:
        out = folx.forward_laplacian(f, threshold, disable_jit=eager)(*args, **kw)
        return jax.block_until_ready(out)
    except Exception as e:
        if not xla_defect(e) or eager:
            raise
        return run(f, args, threshold, eager=True, **kw)


# -- is it folx or the compiler? ------------------------------------------------
# XLA's CPU backend miscompiles a few programs (e.g. jax.jit(f) != f for
# f(x) = x.at[np.array([1])].add(u) @ W). A difference counts only if it is there as
# well when the very program folx emitted is evaluated operation by operation, and
# against a reference evaluated operation by operation.
def _eval(jaxpr, consts, args):
    env = {}

    def read(v):
        return v.val if isinstance(v, jax.core.Literal) else env[v]

    for v, a in zip(jaxpr.constvars, consts):
        env[v] = a
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        vals = [read(v) for v in eqn.invars]
        if eqn.primitive.name == 'pjit':
            c = eqn.params['jaxpr']
            outs = _eval(c.jaxpr, c.consts, vals)
        else:
            subfuns, params = eqn.primitive.get_bind_params(eqn.params)
            outs = eqn.primitive.bind(*subfuns, *vals, **params)
            if not eqn.primitive.multiple_results:
                outs = [outs]
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def emitted(fn, *args):
    """Result of the program `fn` traces to, evaluated operation by operation."""
    flat, tree = jtu.tree_flatten(args)
    flat = [jnp.asarray(a) for a in flat]
    closed, shape = jax.make_jaxpr(lambda *a: fn(*tree.unflatten(a)), return_shape=True)(*flat)
    return jtu.tree_unflatten(
        jtu.tree_structure(shape), _eval(closed.jaxpr, closed.consts, flat)
    )


def same_ref(a, b):
    from .oracle import _close

    for (y, J, H), (y2, J2, H2) in zip(a.leaves, b.leaves):
        for u, v in ((y, y2), (J, J2), (H, H2)):
            if u is None or u.dtype.kind not in 'fc':
                continue
            if _close(u, v, np.abs(v)).any():
                return False
    return True


class Judge:
    """Compares outcomes with the reference of f; settles compiler defects."""

    def __init__(self, f, args, weights=None, n=None):
        self.f, self.args, self.weights = f, args, weights
        self.reffn = RefFn(f, args, weights=weights)
        self.ref = self.reffn.at(args)
        self.n = n if n is not None else self.ref.n
        self.settled = False
        self.ev = {'evals': 0}

    def move(self, args):
        """Continue at other arguments of the same shapes."""
        self.args, self.ref, self.settled = args, self.reffn.at(args), False

    def settle(self):
        if not self.settled:
            self.settled = True
            plain = reference(self.f, self.args, jit=False, weights=self.weights)
            if not same_ref(self.ref, plain):
                self.ev['xla_reference_defect'] = 1
            self.ref = plain

    def check(self, fn, args, dense=None, eager=False, rtol=None, view=None):
        """fn(*args) must equal the reference. Returns (problems, facts, outputs)."""
        kw = {} if rtol is None else {'rtol': rtol}
        view = view or (lambda o: o)

        def comp(out):
            return compare(view(out), self.ref, self.n, dense=dense, **kw)

        out = None
        try:
            try:
                out = jax.block_until_ready(fn(*args))
            except Exception as e:
                if not xla_defect(e):
                    raise
                self.ev['xla_refused'] = self.ev.get('xla_refused', 0) + 1
                out = emitted(fn, *args)
                eager = True
            probs, facts = comp(out)
        except Exception as e:
            return [f'raised {short_tb(e)}'], [], out
        if probs:
            self.settle()
            probs, facts = comp(out)
        if probs and not eager:
            try:
                again, facts2 = comp(emitted(fn, *args))
            except Exception as e:
                again = probs
            if not again:
                self.ev['xla_defect'] = self.ev.get('xla_defect', 0) + 1
                probs, facts = [], facts2
        self.ev['evals'] += 1
        for fc in facts:
            k = fc.get('kind', '')
            key = 'sparse_out' if k.startswith('sparse') else f'{k}_out'
            self.ev[key] = self.ev.get(key, 0) + 1
        return probs, facts, out

    def moved(self):
        return any(
            J is not None and J.dtype.kind in 'fc' and np.abs(J).max(initial=0) > 1e-9
            for _, J, _ in self.ref.leaves
        )

    def curved(self):
        return any(
            H is not None and H.dtype.kind in 'fc' and np.abs(H).max(initial=0) > 1e-9
            for _, _, H in self.ref.leaves
        )

    def result(self, probs, **kw):
        self.ev['curved'] = int(self.curved())
        return {
            'status': 'violation' if probs else ('ok' if self.moved() else 'trivial'),
            'problems': probs[:6],
            'events': self.ev,
            **kw,
        }


def judge_program(recipe, configs, rtol=None, allow=None):
    """configs: list of (threshold, eager). Returns a result dict."""
    f, args = gen.build(recipe), gen.inputs_of(recipe)
    j = Judge(f, args, n=gen.n_inputs(recipe))
    if not j.ref.finite():
        return {'status': 'trivial', 'events': j.ev}
    probs = []
    for T, eager in configs:
        fn = folx.forward_laplacian(f, T, disable_jit=eager)
        p, facts, _ = j.check(fn, args, dense=(T == 0), eager=eager, rtol=rtol)
        if allow is not None and p and allow(p):
            j.ev['refused'] = j.ev.get('refused', 0) + 1
            continue
        if T == 0 and any(fc.get('kind', '').startswith('sparse') for fc in facts):
            p.append('sparse Jacobian although the threshold is 0')
        probs += [f'T={T} eager={eager}: {q}' for q in p]
    return j.result(probs, ops=sorted({s[0] for s in recipe['steps']}))


def plain_triplet(f):
    """x -> list of (value, Jacobian, Laplacian) of the array outputs, without folx."""

    def out(*args):
        from .oracle import flatten_args

        leaves, tree = jtu.tree_flatten(args)
        leaves = [jnp.asarray(l) for l in leaves]
        flat = jnp.concatenate([l.ravel() for l in leaves])
        sizes = [l.size for l in leaves]

        def g(z):
            o, parts = 0, []
            for l, s in zip(leaves, sizes):
                parts.append(z[o : o + s].reshape(l.shape))
                o += s
            return tuple(jtu.tree_leaves(f(*tree.unflatten(parts))))

        eye = jnp.eye(flat.size, dtype=flat.dtype)
        J = jax.vmap(lambda v: jax.jvp(g, (flat,), (v,))[1])(eye)
        H = jax.vmap(
            lambda v: jax.jvp(lambda z: jax.jvp(g, (z,), (v,))[1], (flat,), (v,))[1]
        )(eye)
        return [(y, j, h.sum(0)) for y, j, h in zip(g(flat), J, H)]

    return out


def tree_diff(a, b, rtol=1e-6, atol=1e-8):
    la, ta = jtu.tree_flatten(a)
    lb, tb = jtu.tree_flatten(b)
    if ta != tb:
        return [f'structure differs: {ta} and {tb}'[:300]]
    probs = []
    for i, (u, v) in enumerate(zip(la, lb)):
        u, v = np.asarray(u), np.asarray(v)
        if u.shape != v.shape:
            probs.append(f'leaf {i}: shape {u.shape}, expected {v.shape}')
            continue
        top = max(1.0, float(np.abs(v[np.isfinite(v)]).max(initial=0.0)))
        with np.errstate(all='ignore'):
            bad = ~((np.abs(u - v) <= rtol * top + atol * top) | (u == v) | ((u != u) & (v != v)))
        if bad.any():
            k = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
            probs.append(f'leaf {i}: differs in {int(bad.sum())} of {bad.size} entries, at {[int(q) for q in k]}: got {u[k]}, expected {v[k]}')
    return probs


def finite(t, huge=1e8):
    return all(
        np.all(np.isfinite(l)) and np.abs(l).max(initial=0) < huge
        for l in map(np.asarray, jtu.tree_leaves(t))
        if l.dtype.kind in 'fc'
    )


def agree(fn, ref, args, ev, rtol=1e-6):
    """fn(*args) equals ref(*args). Returns (problems, reference value)."""
    try:
        want = ref(*args)
    except Exception as e:
        if not xla_defect(e):
            raise
        want = emitted(ref, *args)
    if not finite(want):
        return None, want
    try:
        got = jax.block_until_ready(fn(*args))
    except Exception as e:
        if not xla_defect(e):
            return [f'raised {short_tb(e)}'], want
        got = None
    ev['evals'] = ev.get('evals', 0) + 1
    probs = tree_diff(got, want, rtol) if got is not None else ['refused by XLA']
    if probs:
        want2 = emitted(ref, *args)
        again = tree_diff(got, want2, rtol) if got is not None else probs
        if again:
            again = tree_diff(emitted(fn, *args), want2, rtol)
        if not again:
            ev['xla_defect'] = ev.get('xla_defect', 0) + 1
        probs = again
    return probs, want
