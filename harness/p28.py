"""Distributed transposes on P processes."""
import numpy as np
import fakempi
from edpyt.vector_transpose import collect_dw, collect_up

TYPES = [np.float64, np.complex128, np.int64, np.float32, np.int32]


def plain(x):
    x = np.asarray(x)
    if np.iscomplexobj(x):
        x = x.real + 1000 * x.imag
    return [[int(v) for v in row] for row in x]


def errors(exc):
    return [type(e).__name__ if e else '' for e in exc] if any(exc) else []


def matrix(rng, N, t):
    G = rng.permutation(N * N).reshape(N, N)
    return (G + (1j * (G % 7) if t is np.complex128 else 0)).astype(t)


def run(rec, rng):
    done = 0
    for P in range(1, 5 if rec.quick else 8):
        for m in range(1, 5 if rec.quick else 8):
            for t in TYPES:
                done += 1
                if not rec.mine(done):
                    continue
                N = P * m
                for order in range(2 if rec.quick else 6):
                    G = matrix(rng, N, t)
                    seed = int(rng.randint(1 << 30))

                    def fn():
                        def prog(c):
                            p = c.Get_rank()
                            out = []
                            a = G[p * m:(p + 1) * m, :].copy()
                            b = collect_dw(a, c)
                            out.append(b.copy())
                            out.append(collect_up(b, c).copy())
                            if order % 2:
                                out.append(collect_dw(out[-1].copy(), c).copy())
                            return out
                        val, exc, _ = fakempi.some(rng, P, prog, seed)
                        k = 3 if order % 2 else 2
                        for i in range(k):
                            ok = [v[i] for v in val if v is not None]
                            rec.emit('transpose', P=P, fn='up' if i == 1 else 'dw', G=plain(G), blocks=[plain(b) for b in ok],
                                     typed=all(b.dtype == t for b in ok), errors=errors(exc))
                        # columns first
                        val, exc, _ = fakempi.some(rng, P, lambda c: collect_up(G[:, c.rank * m:(c.rank + 1) * m].copy(), c), seed + 1)
                        ok = [v for v in val if v is not None]
                        rec.emit('transpose', P=P, fn='up', G=plain(G), blocks=[plain(b) for b in ok],
                                 typed=all(b.dtype == t for b in ok), errors=errors(exc))
                    rec.case('transpose', fn, P=P, m=m)
                # default communicator, as the processes of a program have it
                G = matrix(rng, N, t)

                def world():
                    val, exc, _ = fakempi.run(P, lambda c: collect_dw(G[c.rank * m:(c.rank + 1) * m, :].copy()), done)
                    rec.emit('transpose', P=P, fn='dw', G=plain(G), blocks=[plain(b) for b in val if b is not None],
                             typed=True, errors=errors(exc))
                rec.case('world', world)
    for i in range(20 if rec.quick else 100):
        P = int(rng.randint(1, 5))
        m = int(rng.randint(1, 5))
        n = int(rng.randint(1, 12))
        if n == m * P:
            n += 1

        def fn():
            _, exc, _ = fakempi.run(P, lambda c: collect_dw(np.ones((m, n)), c), i)
            rec.emit('refused', P=P, errors=errors(exc))
            _, exc, _ = fakempi.run(P, lambda c: collect_up(np.ones((n, m)), c), i)
            rec.emit('refused', P=P, errors=errors(exc))
        rec.case('refused', fn, P=P, m=m, n=n)
