"""Samples, and the impurity models that stand for them."""
import numpy as np
import vshim
from edpyt import dedlib


class Numbers:
    """A generator that gives what it was given."""

    def __init__(self, us):
        self.us, self.k = list(us), 0

    def random(self):
        self.k += 1
        return self.us[self.k - 1]

    def uniform(self, a=0., b=1.):
        return a + (b - a) * self.random()


def density(rng, i, lo, hi):
    c, g, w = rng.uniform(lo, hi), (hi - lo) * 10. ** rng.uniform(-2, 0), hi - lo
    stored = rng.rand(5000)
    return [lambda e: .5 * g / np.pi / ((e - c)**2 + .25 * g * g),
            lambda e: np.ones_like(e),
            lambda e: np.where(np.abs(e - c) < w / 4, 1., 0.),
            lambda e: np.where(np.abs(e - c) > w / 5, e - e[0] + .1, 0.),
            lambda e: np.maximum(0., np.sin(9 * (e - c) / w)),
            lambda e: np.abs(e),
            lambda e: e if lo > 0 else np.exp(e),
            lambda e: stored[:e.size],
            lambda e: (np.abs(e - c) < w / 3).astype(float)][i]


def poles(rng, i):
    n = int(rng.randint(2, 9))
    p = [rng.uniform(-2, 2, n), rng.normal(0, .01, n), np.r_[rng.uniform(-2, 2, 1), 1 + rng.uniform(0, 1e-4, n - 1)],
         np.round(rng.uniform(-1, 1, n), 1), 10. ** rng.uniform(-4, 1, n), -3 + rng.rand(n) * 1e-2][i % 6]
    if i % 6 == 3 and np.ptp(p) == 0:
        p[0] -= .5
    return np.sort(p)


class Given:
    """In place of a sampler: the poles are those given."""

    def __init__(self, p):
        self.poles = p


def points(rng, p, k=5):
    s = max(np.ptp(p), 1e-3)
    return p.mean() + s * (rng.uniform(-1, 1, k) + 1j * rng.choice([-1, 1], k) * rng.uniform(.1, 1, k))


def fitted(p):
    g0 = dedlib.Gf0(Given(p))
    g = dedlib.Gfimp(p.size)
    with np.errstate(all='ignore'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g.fit(g0)
    return g0, g


def resolvent(H, z, i):
    b = np.zeros(len(H), complex)
    b[i] = 1
    return [np.linalg.solve(w * np.eye(len(H)) - H, b) for w in z]


def run(rec, rng):
    for i in range(45 if rec.quick else 600):
        def sample():
            lo = float(rng.uniform(-3, 2)) if i % 9 != 6 else float(rng.uniform(.1, 2))
            hi = lo + float(rng.uniform(.2, 3))
            per = float(rng.choice([20, 50, 90]))
            dos = density(rng, i % 9, lo, hi)
            n = int(rng.randint(1, 7))
            edge = [0., np.nextafter(1., 0), .5]
            draws = [rng.rand(n) if k else np.array((edge * 3)[:n]) for k in range(3)]
            us = Numbers(np.concatenate(draws))
            m = int((hi - lo) * per + 1)
            grid = np.linspace(lo, hi, m)
            want = np.array(dos(grid.copy()), float)
            rs = dedlib.RandomSampler(dos, [lo, hi], n, us, per)
            for k, d in enumerate(draws):
                rs()
                rec.emit('sampler', lo=lo, hi=hi, per=per, grid=rs.eners, density=want, us=us.us[us.k - n:us.k], poles=rs.poles,
                         kept=bool(np.array_equal(want, dos(grid.copy()))))
                keep = rs.poles.copy()
                if k == 1:                                        # a Green function follows its sampler
                    g = dedlib.Gf0(rs)
        rec.case('sample', sample, density=i % 9)
    for i in range(60 if rec.quick else 800):
        def fit():
            p = poles(rng, i)
            n = p.size
            g0, g = fitted(p)
            for again in range(2):
                z = points(rng, p)
                at = p.mean() + max(np.ptp(p), 1e-3) * rng.uniform(2, 3, 2)
                rec.emit('fit', p=p, e0=float(g.e0), ek=g.ek, vk2=g.vk2, z=z, free=g0(z), siam=g(z), delta=g.delta(z), at=at, slope=[g0.derivative(x) for x in at])
                H, V = np.zeros((n, n)), np.zeros((n, n))
                for U in (rng.uniform(.5, 4), 0.):                # building again over what is there
                    dedlib.build_siam(H, V, U, g)
                    rec.emit('matrix', H=H, V=V, U=U, p=[p], z=z, x=[resolvent(H, z, 0)])
                    H[0, 0] -= 1.3
                p = np.sort(rng.uniform(-2, 2, n))                # and fitting again
                g0.poles[:] = p
                g.fit(g0)
        rec.case('fit', fit)
    for i in range(20 if rec.quick else 200):
        def multi():
            nimp, nb = [(1, 2), (2, 1), (2, 2), (3, 1), (2, 3), (3, 2), (4, 2)][i % 7]
            ps = [np.sort(rng.uniform(-2, 2, nb + 1)) for _ in range(nimp)]
            H = np.zeros((nimp * (nb + 1),) * 2)
            for again in range(2):
                dedlib.build_moam(H, [fitted(p)[1] for p in ps])
                z = points(rng, np.concatenate(ps), 3)
                rec.emit('matrix', H=H, V=[], U=0., p=ps, z=z, x=[resolvent(H, z, k) for k in range(nimp)])
                H[0, 0] += .5
                ps = ps[::-1]
        rec.case('multi', multi)
