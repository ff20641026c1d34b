"""Clusters with equivalent sites, on one or several processes."""
import itertools
import numpy as np
import fakempi
from p36 import rational
from p28 import errors
from edpyt.nano_dmft import Gfloc


def cluster(rng, n, i):
    H = rng.uniform(-1, 1, (n, n))
    H = H + H.T
    S = np.eye(n)
    if i % 3 == 2:
        A = rng.uniform(-.1, .1, (n, n))
        S = S + np.triu(A, 1) + np.triu(A, 1).T
    return H, S


def maps(n):
    """All ways to call sites equivalent: (idx_neq, idx_inv) as numpy.unique gives them."""
    seen = []
    for f in itertools.product(range(n), repeat=n):
        u, neq, inv = np.unique(f, return_index=True, return_inverse=True)
        if len(u) == max(f) + 1 and not any(np.array_equal(inv, x[1]) for x in seen):
            seen.append((neq, inv))
    return seen


def local(sig, lo, hi, spins):
    def Sigma(z):
        a = np.array([[s(z) for s in sig[k]] for k in range(lo, hi)])
        return a[:, 0] if spins == 1 else a
    return Sigma


def by_spin(a, spins):
    a = np.asarray(a)
    return a[:, None] if spins == 1 else a


def run(rec, rng):
    cases = []
    for n in range(1, 5):
        for neq, inv in maps(n):
            k = len(neq)
            for P in [0] + [p for p in range(1, 4) if k % p == 0]:
                cases.append((n, neq, inv, P))
    order = np.random.RandomState(rec.seed).permutation(len(cases))
    order = sorted(order, key=lambda j: cases[j][0] > 2)        # small ones always
    take = [cases[j] for j in order[rec.shard::rec.nshards]]
    for i, (n, neq, inv, P) in enumerate(take[:14] if rec.quick else take * 4):
        def fn():
            H, S = cluster(rng, n, i)
            k, spins = len(neq), int(rng.choice([1, 1, 2, 2, 3]))     # 3: one spin, with an axis of its own
            A = rng.uniform(-.3, .3, (n, n))
            f = rational(rng, 2)
            Hyb = lambda z: (A @ A.T) * f(z)
            sig = [[(lambda z, a=rng.uniform(-1, 1), r=rational(rng, 2): a + r(z)) for _ in range(1 + (spins == 2))] for _ in range(k)]
            mu = float(rng.uniform(-1, 1))
            nz = int(rng.choice([1, 2, 3]))
            before = bool(rng.randint(2))
            z = rng.uniform(-2, 2, nz) + 1j * 10. ** rng.uniform(-1, .5, nz)

            def prog(c):
                r, p = (0, 1) if c is None else (c.Get_rank(), c.Get_size())
                lo, hi = r * k // p, (r + 1) * k // p
                g = Gfloc(H.copy(), S.copy(), Hyb, neq, inv, comm=c)
                g.update(0.)
                if before:                               # asked the same in an earlier state
                    g.set_local(local([[(lambda z: .1j * np.conj(z) / abs(z)) for _ in range(1 + (spins == 2))]] * k, lo, hi, spins))
                    g(z), g.Weiss(z), g.Delta(z)
                g.update(mu)
                g.set_local(local(sig, lo, hi, spins))
                return dict(first=lo, count=hi - lo, g=by_spin(g(z), spins), weiss=by_spin(g.Weiss(z), spins), delta=by_spin(g.Delta(z), spins),
                            free=[g.free(x, inverse=False) for x in z] if r == 0 else [], ed=g.ed)
            if P == 0:
                val, exc = [prog(None)], [None]
            else:
                val, exc, _ = fakempi.some(rng, P, prog, int(rng.randint(1 << 30)))
            rec.emit('processes', errors=errors(exc) or [])
            sg = np.array([[s(z) for s in x] for x in sig])                     # [rep][spin][z]
            for v in val:
                if v is not None:
                    rec.emit('cluster', H=H, S=S, mu=mu, z=z, neq=neq, inv=inv, D=[Hyb(x) for x in z], sigma=sg.transpose(2, 1, 0), **v)
        rec.case('cluster', fn, n=n, P=P)
        if i % 3 and rec.quick and n > 1:
            continue

        def fn():
            H, S = cluster(rng, n, 0)
            k, axis = len(neq), int(rng.choice([1, 2, 2, 3])) if n > 1 else 2 if P == 0 else 1
            spins = 1 + (axis == 2)
            shift = rng.uniform(-1, 1, (spins, k))
            mu = float(rng.uniform(-1, 1))
            zero = np.zeros((n, n))

            def prog(c):
                r, p = (0, 1) if c is None else (c.Get_rank(), c.Get_size())
                lo, hi = r * k // p, (r + 1) * k // p
                g = Gfloc(H.copy(), S.copy(), lambda z: zero, neq, inv, comm=c)
                g.update(.123)
                sg = [[(lambda z, a=shift[s, j]: a + 0. * z) for s in range(spins)] for j in range(k)]
                g.set_local(local(sg, lo, hi, axis))
                out = g.integrate(mu)
                return np.atleast_1d(out), g.mu == .123
            if P == 0:
                val, exc = [prog(None)], [None]
            else:
                val, exc, _ = fakempi.some(rng, P, prog, int(rng.randint(1 << 30)))
            rec.emit('processes', errors=errors(exc) or [])
            w, v = [], []
            for s in range(spins):
                a, b = np.linalg.eigh(H + np.diag(shift[s][inv]))
                w.append(a)
                v.append(b.T)
            for x in val:
                if x is not None:
                    rec.emit('occupations', H=H, shift=shift, neq=neq, inv=inv, mu=mu, beta=70., nmats=3000, w=w, v=v, out=x[0], restored=bool(x[1]))
        rec.case('occupations', fn, n=n, P=P)
