"""Set-up: the reference against closed forms, so that the oracle is known to work here."""

import sys


def main():
    from mon import env

    env.load()
    import jax.numpy as jnp
    import numpy as np

    from mon.oracle import reference

    x = np.linspace(-1.0, 1.5, 4)
    r = reference(lambda x: (jnp.sin(x).sum() * x[0], x**3), (x,))
    (y, J, H), (y3, J3, H3) = r.leaves
    s, c = np.sin(x), np.cos(x)
    want = x[0] * c
    want[0] += s.sum()
    h = -x[0] * s
    h[0] += 2 * c[0]
    ok = np.allclose(y, s.sum() * x[0]) and np.allclose(J, want) and np.allclose(H, h)
    ok &= np.allclose(J3, np.diag(3 * x**2)) and np.allclose(H3, np.diag(6 * x))
    z = reference(lambda x: jnp.exp(1j * x).prod(), (x,)).leaves[0]
    ok &= np.allclose(z[2].sum(), -4 * np.exp(1j * x.sum()))
    print('reference self test', 'passed' if ok else 'FAILED')
    return 0 if ok else 1


if __name__ == '__main__':
    sys.exit(main())
