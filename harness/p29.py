"""The distributed operator, Lanczos and occupations against the serial ones."""
import numpy as np
import fakempi
from p28 import errors
from p07 import csr
from edpyt.sector import generate_states
from edpyt.lookup import get_spin_indices
from edpyt.build_mb_ham import build_mb_ham
from edpyt.espace import build_empty_sector
from edpyt.matvec_product import matvec_operator
from edpyt.lanczos import build_sl_tridiag, sl_solve
from edpyt.observs import get_evecs_occupation

DIV = [(2, 1, 2), (3, 1, 3), (3, 2, 3), (4, 1, 2), (4, 1, 4), (4, 2, 2), (4, 2, 3), (4, 3, 4), (2, 1, 1), (5, 2, 2), (3, 0, 1), (4, 2, 6)]


def model(rng, n):
    H = rng.uniform(-1, 1, (n, n))
    H[rng.rand(n, n) < .2] = 0.
    H = H + H.T
    return H, np.diag(rng.uniform(0, 3, n))


def run(rec, rng):
    for i in range(16 if rec.quick else 300):
        n, k, P = DIV[i % len(DIV)]
        H, V = model(rng, n)
        seed = int(rng.randint(1 << 30))

        def fn():
            sct = build_empty_sector(n, k, k)
            ops = build_mb_ham(H, V, sct)
            if len(ops) != 3:
                return
            diag, up, dw = ops
            d = up.shape[0]
            m = d // P
            parts = dict(diag=np.array(diag), up=csr(up), dw=csr(dw))
            v = rng.randn(d * d)
            cut = lambda x, p: np.array(x[p * m * d:(p + 1) * m * d])
            held = [True] * P

            def product(c):
                mv = matvec_operator(cut(diag, c.rank), up, dw, comm=c)
                x = cut(v, c.rank)
                keep = x.copy()
                out = [mv(x).copy()]
                held[c.rank] = bool(np.array_equal(x, keep))
                out.append(mv(out[0].copy()).copy())
                return out
            val, exc, _ = fakempi.some(rng, P, product, seed)
            err = errors(exc)
            rec.emit('product', P=P, v=v, out=[] if err else [x[0] for x in val], kept=all(held), errors=err, **parts)
            if not err:
                rec.emit('product', P=P, v=np.concatenate([x[0] for x in val]), out=[x[1] for x in val], kept=True, errors=err, **parts)

            def lanc(c):
                mv = matvec_operator(cut(diag, c.rank), up, dw, comm=c)
                steps = [0]

                def counted(x):
                    steps[0] += 1
                    return mv(x)
                a, b = build_sl_tridiag(counted, cut(v, c.rank), comm=c)
                w, x = sl_solve(mv, a, b, v0=cut(v, c.rank), select=2, select_range=(0, 0), comm=c)
                return a, b, w, x, steps[0]
            sa, sb = build_sl_tridiag(matvec_operator(diag, up, dw), v.copy())
            serial, _ = sl_solve(matvec_operator(diag, up, dw), sa, sb, v0=v.copy(), select=2, select_range=(0, 0))
            val, exc, _ = fakempi.some(rng, P, lanc, seed + 1)
            err = errors(exc)
            same = len({x[4] for x in val if x}) == 1
            rec.emit('lanczos', P=P, v=v, exact=min(6, len(sa), d * d - 1 if d > 1 else 1), a=[] if err else [x[0] for x in val], b=[] if err else [x[1] for x in val],
                     steps=len(val[0][0]) if same and not err else -1, errors=err, **parts)
            rec.emit('ritz', P=P, w=[] if err else [x[2] for x in val], x=[] if err else [x[3].T for x in val], serial=serial, short=len(sa) < d * d // 2, errors=err, **parts)
        rec.case('operator', fn, n=n, filling=k, P=P)
    for i in range(24 if rec.quick else 200):
        n = int(rng.randint(1, 5))
        nup, ndw = int(rng.randint(0, n + 1)), int(rng.randint(0, n + 1))
        su, sd = generate_states(n, nup), generate_states(n, ndw)
        ps = [p for p in range(1, 5) if sd.size % p == 0]
        P = int(rng.choice(ps))
        nev = int(rng.randint(1, 4))
        E = rng.randn(su.size * sd.size, nev)
        co = rng.rand(nev) if i % 2 else None
        order = 'F' if i % 4 < 2 else 'C'

        def occ():
            m = sd.size // P * su.size

            def prog(c):
                ev = np.array(E[c.rank * m:(c.rank + 1) * m], order=order)
                return get_evecs_occupation(ev, su, sd, n, coeffs=co, comm=c)
            val, exc, _ = fakempi.some(rng, P, prog, i)
            err = errors(exc)
            rec.emit('occupation', P=P, n=n, su=su, sd=sd, evecs=E.T, coeffs=np.ones(nev) if co is None else co,
                     nup=[] if err else [x[0] for x in val], ndw=[] if err else [x[1] for x in val], errors=err)
        rec.case('occupation', occ, n=n, P=P)
    for i in range(10 if rec.quick else 60):
        n = int(rng.randint(2, 5))
        k = int(rng.randint(0, n + 1))
        k2 = int(rng.randint(0, n + 1))
        H, V = model(rng, n)
        d, d2 = generate_states(n, k).size, generate_states(n, k2).size
        P = int(rng.randint(2, 5))
        if d == d2 and d % P == 0:
            continue

        def refuse():
            ops = build_mb_ham(H, V, build_empty_sector(n, k, k2))
            if len(ops) == 3:
                _, exc, _ = fakempi.run(P, lambda c: matvec_operator(*ops, comm=c), i)
                rec.emit('refused', P=P, errors=errors(exc))
        rec.case('refused', refuse, n=n, P=P)
