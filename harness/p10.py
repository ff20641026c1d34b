"""Sparse eigensolver."""
import numpy as np
from edpyt.eigh_arpack import eigsh, ArpackParams
from edpyt.espace import build_empty_sector, solve_sector
from edpyt.build_mb_ham import build_mb_ham
from edpyt.matvec_product import matvec_operator


def matrix(rng, n, kind):
    Q, _ = np.linalg.qr(rng.randn(n, n))
    if kind == 'random':
        A = rng.randn(n, n)
        return A + A.T
    if kind == 'clustered':
        w = np.sort(rng.randn(n))
        w[1::3] = w[::3][:len(w[1::3])] + 1e-4
    elif kind == 'scaled':
        w = rng.randn(n) * 10. ** rng.randint(-2, 3, n)
    elif kind == 'sparse':
        A = np.where(rng.rand(n, n) < .3, rng.randn(n, n), 0.)
        return A + A.T + np.diag(rng.randn(n))
    else:
        w = np.arange(n) - n / 2.
    A = (Q * w).dot(Q.T)
    return (A + A.T) / 2


def run(rec, rng):
    kinds = ['random', 'clustered', 'scaled', 'sparse', 'equidistant']
    for i in range(25 if rec.quick else 150):
        kind = kinds[i % 5]
        n = int(rng.choice([3, 5, 9, 14, 22, 30] if rec.quick else [3, 5, 9, 14, 22, 30, 45, 60]))
        nev = int(rng.choice([1, 2, max(1, n // 3), n - 1]))
        nev = min(nev, n - 1)
        A = matrix(rng, n, kind)
        v0 = rng.randn(n) if rng.rand() < .5 else None

        def fn():
            keep = None if v0 is None else v0.copy()
            w, v = eigsh(n, nev, lambda x: A.dot(x), v0=v0)
            rec.emit('eigsh', A=A, nev=nev, w=w, v=[v[:, k] for k in range(v.shape[1])],
                     same=bool(v0 is None or np.array_equal(keep, v0)))
        rec.case(kind, fn, n=n, nev=nev)
    # one workspace for several operators of the same size
    for i in range(3 if rec.quick else 20):
        n = int(rng.choice([5, 14, 22, 30]))

        def again():
            nev = int(rng.randint(1, n))
            work = ArpackParams(n, min(max(2 * nev + 1, 20), n), n)
            for kind in [kinds[k] for k in rng.permutation(5)[:3]]:
                A = matrix(rng, n, kind)
                w, v = eigsh(n, nev, lambda x: A.dot(x), arpack_param=work)
                w, v = w.copy(), v.copy()
                rec.emit('eigsh', A=A, nev=nev, w=w, v=[v[:, k] for k in range(v.shape[1])], same=True)
        rec.case('again', again, n=n)
    # slowly converging spectra of larger operators, known by construction
    for i in range(3 if rec.quick else 12):
        n = int(rng.choice([120, 200, 300]))
        gap, top = [(1e-3, 3.), (1e-4, 5.), (1e-5, 8.), (1e-2, 20.)][(i + rec.shard) % 4]
        if rec.quick and gap < 1e-4 and i:
            gap = 1e-3
        m = int(rng.randint(2, 13))
        shift = float(rng.choice([0., -5., 5.]))
        d = np.r_[np.arange(m) * gap, np.linspace(1., top, n - m)] + shift
        u = rng.randn(n)
        u /= np.linalg.norm(u)
        order = rng.permutation(n)
        nev = int(rng.choice([1, 1, 2, 5]))

        def mul(x):
            y = x - 2 * u * u.dot(x)
            y = d[order] * y
            return y - 2 * u * u.dot(y)

        def fn():
            w, v = eigsh(n, nev, mul)
            cols = [np.ascontiguousarray(v[:, k]) for k in range(v.shape[1])]
            rec.emit('sector', nev=nev, w=w, dense=d[:nev], v=cols, Hv=[mul(c) for c in cols])
        rec.case('slow', fn, n=n, nev=nev, gap=gap, top=top)
    # large sectors
    for i in range(4 if not rec.quick else 1):
        if not rec.mine(i) and rec.quick:
            continue
        H = np.diag(rng.randn(7)) + np.diag(-rng.rand(6) - .2, 1)
        H = H + H.T
        V = np.diag(rng.rand(7) * 3)
        nev = int(rng.choice([1, 3, 6]))

        def fn():
            sct = build_empty_sector(7, 2, 3)
            w, v = solve_sector(H.copy(), V, sct, nev)
            full, _ = solve_sector(H.copy(), V, build_empty_sector(7, 2, 3))
            mv = matvec_operator(*build_mb_ham(H.copy(), V, sct))
            cols = [np.ascontiguousarray(v[:, k]) for k in range(v.shape[1])]
            rec.emit('sector', nev=nev, w=w, dense=full[:nev], v=cols, Hv=[mv(c) for c in cols])
        rec.case('large-sector', fn, n=735, nev=nev)
