"""Occupation by integration over the poles of the Fermi function, and by Matsubara sums."""
import numpy as np
from edpyt.integrate_gf import integrate_gf, matsum_gf, zero_fermi


def run(rec, rng):
    for n in ([1, 2, 3, 4, 5, 8, 13] if rec.quick else list(range(1, 40))):
        if not rec.mine(n):
            continue

        def fn():
            zp, Rp = zero_fermi(n)
            rec.emit('fermi', n=n, z=zp, R=Rp, x=[float(x) for x in np.r_[rng.uniform(.1, 2 * n, n + 2), 30. * n]])
        rec.case('poles', fn, n=n)
    for i in range(40 if rec.quick else 300):
        T = float(10. ** rng.uniform(1.5, 4.5))
        k = int(rng.randint(1, 5))
        chan = int(rng.choice([1, 1, 2, 3]))
        form = ('scalar', 'matrix', 'mu-array', 'radius', 'default', 'mu-grid')[i % 6]
        nzp = int(rng.choice([5, 20, 60]))
        L = rng.uniform(-3, 3, (chan, k)) * 10. ** rng.randint(-2, 2)
        if i % 5 == 0:
            L[:, 0] = 0.
        Q = rng.rand(chan, k) + .05
        Q /= Q.sum(1)[:, None]
        if form == 'matrix' and i % 4 < 2:
            Q *= rng.choice([-1., .5, 2.], (chan, 1))
        radius = 1e10 if form != 'radius' else float(rng.choice([1e3, 1e5]))

        def fn():
            mus = rng.uniform(-1, 1, chan) * [1., 30., 1., 200.][i // 6 % 4]
            kw = dict(T=T, nzp=nzp, R=radius)
            if form == 'scalar' or form == 'radius':
                out = [integrate_gf(lambda z: (Q[c] / (z - L[c])).sum(), mus[c], **kw) for c in range(chan)]
            elif form == 'default':
                kw = dict(T=300., nzp=100, R=1e10)
                mus[:] = 0.
                out = [integrate_gf(lambda z: (Q[c] / (z - L[c])).sum()) for c in range(chan)]
            elif form == 'matrix':
                mus[:] = mus[0]
                out = np.diagonal(integrate_gf(lambda z: np.diag((Q / (z - L)).sum(1)), mus[0], **kw))
            elif form == 'mu-array':
                keep = mus.copy()
                if i % 4 < 2:                               # as a column
                    out = integrate_gf(lambda z: (Q / (z - L)).sum(1)[:, None], mus[:, None], **kw)
                    out = out[:, 0] if out.shape == (chan, 1) else []
                else:
                    out = integrate_gf(lambda z: (Q / (np.reshape(z, (-1, 1)) - L)).sum(1), mus, **kw)
                    out = out if out.shape == (chan,) else []
                assert np.array_equal(keep, mus)
            else:
                g = np.array([mus, mus + .3][:1 + int(rng.randint(2))])
                out = np.asarray(integrate_gf(lambda z: (Q / (np.asarray(z)[..., None] - L)).sum(-1), g, **kw))
                out = out if out.shape == g.shape else np.empty((len(g), 0))
                for c in range(chan if len(g) > 1 else 0):
                    rec.emit('occupation', q=Q[c], l=L[c], mu=g[1, c], T=kw['T'], n=kw['nzp'], R=radius, out=out[1, c])
                out = out[0]
            for c in range(chan):
                rec.emit('occupation', q=Q[c], l=L[c], mu=mus[c], T=kw['T'], n=kw['nzp'], R=radius, out=out[c])
        rec.case('integrate-' + form, fn, T=T)
    for i in range(12 if rec.quick else 100):
        beta = float(rng.choice([5., 20., 70.]))
        nm = int(rng.choice([300, 1000]))
        k = int(rng.randint(1, 4))
        chan = int(rng.choice([1, 2, 3]))
        L = rng.uniform(-1.5, 1.5, (chan, k))
        if i % 4 == 1:                                        # far from zero, on one side
            beta, nm = 5., 1000
            L = (250. + 30. * L) * (-1.) ** (i // 4)
        Q = rng.rand(chan, k) + .05
        Q /= Q.sum(1)[:, None]

        class G:
            mu = .37 if i % 3 else np.full((chan, 1, 1), .37)

            def __call__(self, z):
                g = (Q[:, :, None] / (np.asarray(z)[None, None, :] + self.mu - L[:, :, None])).sum(1)
                return g if chan > 1 else g[0]

        def fn():
            g = G()
            mu = float(rng.uniform(-.5, .5))
            kw = dict(nmats=nm, beta=beta)
            if i % 4 == 0:
                kw = dict()
            out = np.atleast_1d(matsum_gf(g, mu, **kw))
            rec.emit('matsubara', q=Q, l=L, mu=mu, n=kw.get('nmats', 3000), beta=kw.get('beta', 70.), out=out, restored=bool(np.all(g.mu == .37) and np.shape(g.mu) == np.shape(G.mu)))
        rec.case('matsubara', fn)
