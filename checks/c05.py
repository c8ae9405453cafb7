from mon import std

RULE = (
    'Random Jacobian containers: dense ones and sparse ones with 1-4 stored rows, repeated entries of one input, '
    'unused (-1) entries, repeated or constant patterns along axes, axes of size one, real/complex/32/64 bit data, '
    'value shapes of 0-3 axes. Every view and operation is compared with a loop over the entries in numpy. '
    'Non-trivial: the container is not all zero.'
)
MIN_OK = 80
MIN_EVENTS = {'views': 1500, 'sparse': 80, 'dense': 20, 'repeated': 40, 'unused': 40, 'sums': 100}


def cases(tier, seed):
    n = 240 if tier == 'quick' else 6000
    large = [{'seed': seed, 'i': 10**6 + i, 'stratum': 'many inputs'} for i in range(24 if tier == 'quick' else 300)]
    return [{'seed': seed, 'i': i} for i in range(n)] + large


def to_dense(data, idx, n):
    """Entry by entry."""
    import numpy as np

    D = np.zeros((n, *data.shape[1:]), data.dtype)
    for pos in np.ndindex(*data.shape):
        if idx[pos] >= 0:
            D[(int(idx[pos]), *pos[1:])] += data[pos]
    return D


def rand_jac(r, n, shape, dtype, dense=None):
    """(data, idx or None, dense matrix of n rows)"""
    import numpy as np

    def data(*s):
        a = r.randn(*s)
        if np.issubdtype(dtype, np.complexfloating):
            a = a + 1j * r.randn(*s)
        return a.astype(dtype)

    if dense if dense is not None else r.rand() < 0.2:
        d = data(n, *shape)
        return d, None, d
    k = int(r.randint(1, 5))
    mode = r.randint(5)
    if mode == 0:  # any
        idx = r.randint(-1, n, (k, *shape))
    elif mode == 1:  # the same pattern for all outputs
        idx = np.broadcast_to(r.randint(0, n, (k,) + (1,) * len(shape)), (k, *shape)).copy()
    elif mode == 2:  # constant along one axis
        s = list(shape)
        if s:
            s[r.randint(len(s))] = 1
        idx = np.broadcast_to(r.randint(-1, n, (k, *s)), (k, *shape)).copy()
    elif mode == 3:  # distinct entries per output
        idx = np.stack([r.permutation(max(n, k))[:k] for _ in range(int(np.prod(shape, dtype=int)))], -1).reshape(k, *shape)
        idx = np.where(idx >= n, -1, idx)
    else:  # one input per output
        idx = (np.arange(int(np.prod(shape, dtype=int))) % n).reshape(1, *shape)
        k = 1
    idx = idx.astype(np.int32 if r.rand() < 0.5 else np.int64)
    d = data(k, *shape)
    return d, idx, to_dense(d, idx, n)


def run(case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from folx.api import FwdJacobian, FwdLaplArgs, FwdLaplArray

    r = std.rng_of('C05', case['seed'], case['i'])
    # row numbers that need more than one byte
    n = int(r.randint(1, 8)) if 'stratum' not in case else int(r.choice([128, 129, 200, 257, 300]))
    shape = [(), (3,), (1,), (2, 3), (3, 1), (1, 2), (2, 2, 2), (2, 1, 3), (5,)][r.randint(9)]
    dtype = [np.float64, np.float64, np.float32, np.complex128, np.complex64][r.randint(5)]
    eps = 1e-4 if np.dtype(dtype).itemsize in (4,) or dtype == np.complex64 else 1e-10
    d, idx, D = rand_jac(r, n, shape, dtype)
    probs = []
    ev = {'views': 0, 'sums': 0, 'sparse': int(idx is not None), 'dense': int(idx is None)}
    if idx is not None:
        flat = idx.reshape(idx.shape[0], -1)
        ev['unused'] = int((idx < 0).any())
        ev['repeated'] = int(any(len(set(c[c >= 0])) < (c >= 0).sum() for c in flat.T))

    def same(what, got, want, dt=None):
        ev['views'] += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            probs.append(f'{what}: shape {got.shape}, expected {want.shape}')
        elif want.size and not np.all(np.abs(got - want) <= (1e-4 if got.dtype.itemsize < 8 or got.dtype == np.complex64 else eps) * (1 + np.abs(want))):
            probs.append(f'{what}: wrong entries')
        elif dt is not None and got.dtype != np.dtype(dt):
            probs.append(f'{what}: dtype {got.dtype}, expected {np.dtype(dt)}')

    def rows(D, want_rows):
        """A dense view may leave out trailing rows that are not stored."""
        return D[:want_rows]

    def dense_same(what, J, D, dt=None):
        got = np.asarray(J.dense_array)
        top = got.shape[0]
        if top > n or (top < D.shape[0] and np.abs(D[top:]).max(initial=0) > eps):
            probs.append(f'{what}: dense view has {top} rows and loses entries')
            return
        same(what, got, D[:top], dt)

    try:
        J = FwdJacobian(jnp.asarray(d), None if idx is None else idx)
        dense_same('dense view', J, D, dtype)
        if idx is None:
            same('dense view', J.dense_array, D)
        if J.weak != (idx is not None):
            probs.append('sparse flag is wrong')
        if tuple(J.data_shape) != shape or J.ndim != d.ndim:
            probs.append('data shape is wrong')
        A = J.as_dense
        if A.weak:
            probs.append('the dense form is flagged sparse')
        dense_same('dense form', A, D, dtype)
        # which inputs appear
        used = sorted(set(int(i) for i in (np.arange(n) if idx is None else idx.ravel())))
        if sorted(int(i) for i in J.unique_idx) != used:
            probs.append('set of used inputs is wrong')
        m = np.asarray(J.mask)
        ev['views'] += 2
        if m.shape != d.shape:
            probs.append('pattern shape is wrong')
        else:
            same('pattern view', to_dense(d, m, n), D)
        # selected rows
        pick = r.randint(0, n, int(r.randint(1, 4)))
        if idx is None:
            same('selected rows', J.construct_jac_for(pick), D[pick])
        else:
            pick = np.unique(pick)
            ext = pick.reshape(-1, *(1,) * len(shape))
            same('selected rows', J.construct_jac_for(ext), D[pick])
            # a selection per output, unused entries marked -1
            kk = int(r.randint(1, n + 1))
            per = np.stack([r.permutation(n)[:kk] for _ in range(int(np.prod(shape, dtype=int)))], -1).reshape(kk, *shape)
            want = np.take_along_axis(D, per, 0)
            same('rows selected per output', J.construct_jac_for(per), want)
            same('rows selected per output (traced)', jax.jit(lambda v, p: FwdJacobian(v, idx).construct_jac_for(p))(d, per), want)
            pad = np.where(r.rand(*per.shape) < 0.3, -1, per)
            got = np.asarray(J.construct_jac_for(pad))
            same('rows selected per output with padding', np.where(pad < 0, 0, got), np.where(pad < 0, 0, want))
            # index of each stored entry among the given outputs
            im = np.asarray(J.get_index_mask(per))
            w = np.full(idx.shape, -1)
            for pos in np.ndindex(*idx.shape):
                hit = np.where(per[(slice(None), *pos[1:])] == idx[pos])[0]
                if len(hit):
                    w[pos] = hit[0]
            same('index among selected', im, w)
        same('rows of an empty selection', np.abs(np.asarray(J.construct_jac_for(np.zeros((0, *shape), int)))).max(initial=0), 0.0)
        same('all rows', np.asarray(J.construct_jac_for(None)), np.asarray(J.dense_array))
        # elementwise views
        dense_same('real part', J.real, D.real)
        dense_same('imaginary part', J.imag, D.imag)
        dense_same('conjugate', J.conj(), D.conj())
        tgt = np.complex128 if np.issubdtype(dtype, np.complexfloating) else [np.float64, np.float32, np.complex128][r.randint(3)]
        dense_same('converted', J.astype(tgt), D, tgt)
        # sums
        for _ in range(2):
            d2, idx2, D2 = rand_jac(r, n, shape, dtype)
            if r.rand() < 0.3 and idx is not None:
                idx2 = idx.copy()
                d2 = (d2[:1] * np.ones((idx.shape[0],) + (1,) * len(shape))).astype(dtype) if d2.shape[0] else d2
                D2 = to_dense(d2, idx2, n)
            K = FwdJacobian(jnp.asarray(d2), idx2)
            S = J + K
            ev['sums'] += 1
            if S.weak != (J.weak and K.weak):
                probs.append('sum: sparse flag is wrong')
            dense_same('sum', S, D + D2, dtype)
            dense_same('jitted sum', FwdJacobian(jax.jit(lambda a, b: (FwdJacobian(a, idx) + FwdJacobian(b, idx2)).data)(d, d2), S.x0_idx), D + D2)
        # triplets
        x, L = (np.asarray(r.randn(*shape)).astype(dtype) for _ in range(2))
        a = FwdLaplArray(jnp.asarray(x), J, jnp.asarray(L))
        if a.shape != shape or a.ndim != len(shape) or a.size != x.size or a.dtype != np.dtype(dtype):
            probs.append('triplet: shape attributes are wrong')
        if a.is_jacobian_weak != J.weak:
            probs.append('triplet: sparse flag is wrong')
        for what, b, fn in (
            ('triplet', a, lambda v: v), ('dense triplet', a.dense, lambda v: v), ('real triplet', a.real, np.real),
            ('imaginary triplet', a.imag, np.imag), ('conjugate triplet', a.conj(), np.conj), ('converted triplet', a.astype(tgt), lambda v: v),
        ):  # fmt: skip
            same(what + ' value', b.x, fn(x))
            same(what + ' Laplacian', b.laplacian, fn(L))
            dense_same(what + ' Jacobian', b.jacobian, fn(D))
            same(what + ' full Jacobian', b.dense_jacobian, np.asarray(b.jacobian.dense_array))
        if a.dense.jacobian.weak:
            probs.append('dense triplet is flagged sparse')
        if not np.issubdtype(dtype, np.complexfloating):
            i = a.astype(np.int32)
            if isinstance(i, FwdLaplArray) or not np.array_equal(np.asarray(i), x.astype(np.int32)):
                probs.append('conversion to integers must drop the derivatives')
        # groups of triplets
        ds, idxs, Ds = zip(*[rand_jac(r, n, shape, dtype) for _ in range(2)])
        arrs = [FwdLaplArray(jnp.asarray(x), FwdJacobian(jnp.asarray(p), q), jnp.asarray(L)) for p, q in zip(ds, idxs)]
        g = FwdLaplArgs(tuple(arrs))
        if g.all_jacobian_weak != all(q is not None for q in idxs) or g.any_jacobian_weak != any(q is not None for q in idxs):
            probs.append('group: sparse flags are wrong')
        for q, (b, Dq) in enumerate(zip(g.dense.arrays, Ds)):
            dense_same(f'group member {q}', b.jacobian, Dq)
        if len(g) != 2 or len(g.x) != 2:
            probs.append('group: length is wrong')
        if g.all_jacobian_weak:
            oh = g.one_hot_sparse_jacobian
            for q in range(2):
                for s in range(2):
                    w = np.asarray(ds[s]) if q == s else np.zeros((ds[q].shape[0], *shape), dtype)
                    same('one hot rows', oh[q][s], w)
    except Exception as e:
        from mon import fwd

        probs.append(f'raised {fwd.short_tb(e)}')
    return {
        'status': 'violation' if probs else ('ok' if np.abs(D).max(initial=0) > 0 else 'trivial'),
        'problems': probs[:6],
        'events': ev,
        'evaluations': ev['views'],
        'detail': {'n': n, 'shape': shape, 'dtype': np.dtype(dtype).name, 'pattern': None if idx is None else idx.tolist()},
        'tags': [np.dtype(dtype).name, f'{len(shape)}d', 'sparse' if idx is not None else 'dense'],
    }
