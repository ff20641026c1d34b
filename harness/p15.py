"""Continued fractions."""
import ctypes
import numpy as np
from edpyt._continued_fraction import continued_fraction
from edpyt.gf_lanczos import continued_fraction as cf

try:
    _omp = ctypes.CDLL('libgomp.so.1').omp_set_num_threads
except OSError:
    _omp = lambda k: None


def run(rec, rng):
    for i in range(40 if rec.quick else 300):
        n = int(rng.choice([1, 2, 3, 5, 8, 20, 60] if i % 8 < 7 else [500, 501, 1200]))
        kind = ('herglotz', 'large', 'stieltjes', 'zeros')[i % 4]
        a, b = rng.randn(n), rng.rand(n) + .01
        m = int(rng.choice([1, 2, 3, 7])) if n < 500 else 1
        eta = rng.choice([.01, .1, 1.]) * rng.choice([-1, 1])
        e = rng.randn(m) * 2
        tol = '1e-9'
        if kind == 'large':
            s = 10. ** rng.randint(-3, 4)
            a, b, e, eta = a * s, b * s * s, e * s, eta * s
        elif kind == 'stieltjes':                   # all denominators are positive on the negative axis
            a = np.abs(a) + 1 + 4 * b.max()
            e, eta = -np.abs(e), 0. if rng.rand() < .5 else eta
        elif kind == 'zeros' and n < 500:
            b[rng.randint(n)] = 0.
        elif n >= 500:                              # a clean chain: every level counts
            a, b, eta = np.zeros(n), np.ones(n), eta * 1e-2
            e = rng.uniform(-1.5, 1.5, m)
        z = e + 1j * eta

        def fn():
            a0, b0, z0 = a.copy(), b.copy(), z.copy()
            out = np.atleast_1d(continued_fraction(z, a, b))
            same = np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(z, z0)
            one = [complex(np.squeeze(continued_fraction(z[k:k + 1].copy(), a, b))) for k in range(m)]
            f = cf(a, b)
            w = np.atleast_1d(f(e, eta))
            s0 = complex(np.squeeze(f(float(e[0]), float(eta))))
            rec.emit('fraction', a=a0, b=b0, z=z0, out=out, same=bool(same), tol=tol,
                     alone=bool(len(one) == len(out) and np.allclose(one, out, 1e-12, 0)),
                     wrapped=bool(w.shape == out.shape and np.allclose(w, out, 1e-10, 1e-300) and np.allclose(s0, out[0], 1e-10, 1e-300)))
        rec.case(kind, fn, n=n)

    # many frequencies at once, on several threads, again and again
    for i in range(2 if rec.quick else 20):
        n, m = int(rng.choice([30, 60, 200])), int(rng.choice([65, 400, 3001]))
        a, b = rng.randn(n), rng.rand(n) + .01
        z = rng.randn(m) * 2 + 1j * rng.choice([.1, 1.])

        def many():
            one = np.array([complex(np.squeeze(continued_fraction(z[k:k + 1].copy(), a, b))) for k in range(m)])
            worst, far = None, -1.
            for r in range(60 if rec.quick else 300):
                _omp(int((8, 2, 4, 7, 16, 3)[r % 6]))
                out = np.atleast_1d(continued_fraction(z, a, b))
                d = np.abs(out - one)
                d = np.where(np.isnan(d), np.inf, d)
                if worst is None or d.max() > far:
                    worst, far = out, d.max()
            k = np.unique(np.r_[np.argmax(np.abs(worst - one)), 0, m - 1, rng.randint(0, m, 3)])
            rec.emit('fraction', a=a, b=b, z=z[k], out=worst[k], same=True, tol='1e-9', alone=bool(np.allclose(one, worst, 1e-12, 0)), wrapped=True)
        rec.case('many', many, n=n, m=m)
