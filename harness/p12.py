"""Lanczos."""
import numpy as np
from edpyt.lanczos import build_sl_tridiag, sl_solve, ZeroNormInitialVector


def problem(rng, n, kind):
    A = rng.randn(n, n)
    A = A + A.T
    v = rng.randn(n)
    if kind == 'invariant' and n > 2:                 # the start vector lives in a block
        k = rng.randint(1, n)
        A[:k, k:] = 0
        A[k:, :k] = 0
        v[k:] = 0
    elif kind == 'eigenvector':
        A = np.diag(rng.randn(n))
        v = np.zeros(n)
        v[rng.randint(n)] = rng.randn() or 1.
    elif kind == 'degenerate':
        A = np.diag(rng.randint(0, 3, n).astype(float))
    elif kind == 'weak':                              # parts that hardly know of each other
        b = 10. ** rng.choice([0., 0., -3., -6., -9.], n)[:n - 1]
        A = np.diag(rng.randn(n)) + np.diag(b, 1) + np.diag(b, -1)
        v = np.zeros(n)
        v[0] = 1.
        p = rng.permutation(n)
        A, v = A[p][:, p], v[p]
    elif kind == 'scaled':
        v *= 10. ** rng.randint(-6, 7)
        A *= 10. ** rng.randint(-2, 3)
    return A, v


def run(rec, rng):
    kinds = ['random', 'invariant', 'eigenvector', 'degenerate', 'scaled', 'limited', 'weak', 'coarse']
    for i in range(56 if rec.quick else 320):
        kind = kinds[i % 8]
        n = int(rng.choice([1, 2, 3, 6, 10, 16, 24]))
        A, phi = problem(rng, n, kind)
        par = dict(maxn=500, delta=1e-15, tol=1e-10, ND=10)
        if kind == 'limited':
            par.update(maxn=int(rng.randint(2, n + 2)), ND=int(rng.choice([2, 3, 10])), tol=float(10. ** -rng.randint(2, 12)))

        if kind == 'coarse':                                # the change asked for is not relative to anything
            n = int(rng.choice([16, 24]))
            A, phi = problem(rng, n, 'random')
            s = 10. ** rng.choice([-3, 2, 4])
            A, par = A * s, dict(par, ND=int(rng.choice([2, 3])), tol=float(s * 10. ** -rng.randint(2, 5)))
            par['tol'] = par['tol'] if i % 16 < 8 else 1e-2

        def fn():
            rec.emit('start', A=A, phi0=phi.copy(), **par)

            def mv(v):
                rec.emit('step', v=v.copy())
                return A.dot(v)
            v0 = phi.copy()
            a, b = build_sl_tridiag(mv, v0, **(par if kind in ('limited', 'coarse') or i % 2 else {}))
            m, ND = len(a), par['ND']
            low = lambda k: float(np.linalg.eigvalsh(np.diag(a[:k]) + np.diag(b[1:k], 1) + np.diag(b[1:k], -1))[0])
            rec.emit('stop', a=a, b=b, egs=[low(m - ND), low(m)] if m > ND else [])
            # second pass on the orthonormal part
            k = min(m, 8)
            ex = np.where(b[1:] < 1e-8 * (1 + np.abs(A).sum()))[0]
            k = min(k, int(ex[0]) + 1) if ex.size else k
            full = bool(ex.size and k == int(ex[0]) + 1) or k == n
            a2, b2 = a[:k].copy(), b[:k].copy()
            for sel in (0, 2):
                lo = int(rng.randint(k))
                hi = int(rng.randint(lo, k))
                kw = dict(select=sel)
                if sel:
                    kw['select_range'] = (lo, hi)
                w, x = sl_solve(lambda v: A.dot(v), a2.copy(), b2.copy(), v0=phi.copy(), **kw)
                rec.emit('ritz', A=A, a=a2, b=b2, select=sel, lo=lo, hi=hi, w=w, x=[x[:, c] for c in range(x.shape[1])], full=full)
                w = sl_solve(None, a2.copy(), b2.copy(), eigvals_only=True, **kw)
                rec.emit('ritz', A=A, a=a2, b=b2, select=sel, lo=lo, hi=hi, w=w, x=[], full=False)
        rec.case(kind, fn, n=n)
    for n in (1, 4):
        def zero():
            A, _ = problem(rng, n, 'random')
            try:
                build_sl_tridiag(A.dot, np.zeros(n))
                rec.emit('zero', reported=False)
            except ZeroNormInitialVector:
                rec.emit('zero', reported=True)
        rec.case('zero', zero, n=n)
