"""Gram-Schmidt and block Lanczos."""
import numpy as np
from edpyt.lanczos import build_bd_tridiag, gram_schmidt_rows, gram_schmidt_columns


def run(rec, rng):
    for i in range(120 if rec.quick else 300):
        n = int(rng.choice([1, 2, 3, 5, 8]))
        k = int(rng.randint(1, min(n, 4) + 1))
        X = rng.randn(k, n)
        if i % 3 == 1:
            X *= 10. ** rng.randint(-3, 4, (k, 1))
        if i % 3 == 2:
            X += 10 * rng.randn(n)

        def fn():
            for norm in (True, False):
                for rows in (True, False):
                    inp = X.copy() if rows else X.T.copy()
                    keep = inp.copy()
                    Y = gram_schmidt_rows(inp, rows, norm)
                    rec.emit('span', x=X, y=Y if rows else Y.T, unit=norm, same=bool(np.array_equal(inp, keep)))
            inp = X.T.copy()
            Q = gram_schmidt_columns(inp)
            rec.emit('span', x=X, y=Q.T, unit=True, same=bool(np.array_equal(inp, X.T)))
        rec.case('gram-schmidt', fn, n=n, vectors=k)
    for i in range(120 if rec.quick else 300):
        kind = ('random', 'sparse', 'dependent', 'single')[i % 4]
        n = int(rng.choice([3, 4, 6, 8, 12]))
        L = 1 if kind == 'single' else int(rng.randint(1, min(4, n) + 1))
        A = rng.randn(n, n)
        A = A + A.T
        phi = [rng.randn(n) for _ in range(L)]
        full = False
        maxn = n + L + int(rng.randint(1, 4))
        if kind == 'sparse':                          # chains, started at their ends: exact arithmetic, must deflate
            A = np.diag(rng.randint(-2, 3, n).astype(float))
            order, sites = rng.permutation(n), []
            c = 0
            while c < n:
                m = int(rng.randint(1, n - c + 1))
                for x, y in zip(order[c:c + m - 1], order[c + 1:c + m]):
                    A[x, y] = A[y, x] = rng.choice([1., 2., -1.] + [2. ** -30, -2. ** -36] * (i % 8 == 1))
                sites += list(order[c:c + int(rng.randint(1, m + 1))])
                c += m
            sites = sites[:max(1, L)]
            phi = [np.eye(n)[s] * rng.choice([1., 2.]) for s in sites]
            maxn = 300
            full = True
        if kind == 'dependent' and L > 1:
            A = np.diag(rng.randint(-2, 3, n).astype(float))
            A[0, 1] = A[1, 0] = 1.
            phi = [np.eye(n)[0] * 2.] + [np.eye(n)[rng.randint(2)] * 1. for _ in range(L - 1)]
            maxn = 300
            full = True

        def fn():
            p0 = [p.copy() for p in phi]
            T = build_bd_tridiag(A.dot, [p.copy() for p in phi], maxn=maxn)
            rec.emit('block', A=A, phi=p0, T=T[:n + len(p0), :n + len(p0)] if full else T[:n, :n], full=full, exact=full, maxn=maxn, every=[])
            if i % 4 in (0, 3) and n > 3:                     # whatever the energies, asked for every so many steps: the second time
                every = int(rng.randint(1, (n - 1) // 2 + 1))
                T = build_bd_tridiag(A.dot, [p.copy() for p in p0], maxn=300, ND=every, tol=1e9)
                rec.emit('block', A=A, phi=p0, T=T[:n, :n], full=False, exact=False, maxn=300, every=[every])
        rec.case(kind, fn, n=n, L=L)
