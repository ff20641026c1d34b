"""Tridiagonal eigensolver."""
import numpy as np
from edpyt.tridiag import eigh_tridiagonal, egs_tridiag


def tri(rng, n, kind):
    a, b = rng.randn(n), np.abs(rng.randn(n - 1))
    if kind == 'split' and n > 1:
        b[rng.rand(n - 1) < .5] = 0.
    elif kind == 'degenerate':
        a[:] = rng.randint(0, 2, n)
        b[:] = np.where(rng.rand(n - 1) < .5, 0., 1.)
    elif kind == 'tiny':
        b *= 10. ** rng.randint(-18, -6, n - 1)
    elif kind == 'scaled':
        a *= 1e4
        b *= 10. ** rng.randint(-3, 4, n - 1)
    elif kind == 'negative':
        b *= rng.choice([-1, 1], n - 1)
    return a, b


def run(rec, rng):
    kinds = ['plain', 'split', 'degenerate', 'tiny', 'scaled', 'negative']
    for i in range(60 if rec.quick else 400):
        kind = kinds[i % 6]
        n = int(rng.choice([1, 2, 3, 4, 6, 9, 14]))
        a, b = tri(rng, n, kind)
        lo = int(rng.randint(n))
        hi = int(rng.randint(lo, n))
        sel = int(rng.choice([0, 2]))
        if rng.rand() < .3:
            lo = 0

        def fn():
            for only in (True, False):
                a0, b0 = a.copy(), b.copy()
                kw = dict(select=sel, eigvals_only=only)
                if sel:
                    kw['select_range'] = (lo, hi)
                r = eigh_tridiagonal(a, b, **kw)
                w, v = (r, None) if only else r
                rec.emit('tri', a=a0, b=b0, select=sel, lo=lo, hi=hi, w=w, vec=not only,
                         v=[] if only else [v[:, k] for k in range(v.shape[1])],
                         same=bool(np.array_equal(a, a0) and np.array_equal(b, b0)))
            e = egs_tridiag(a, b)
            rec.emit('tri', a=a, b=b, select=2, lo=0, hi=0, w=[e], vec=False, v=[], same=True)
        rec.case(kind, fn, n=n)
