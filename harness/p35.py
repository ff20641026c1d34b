"""Histories of the impurity solver."""
import numpy as np
import space
from p36 import rational
from edpyt.dmft import Gfimp, SpinGfimp
from edpyt.espace import get_espace_dim


def parts(g):
    return list(g) if isinstance(g, SpinGfimp) else [g]


def holds(g):
    ps = parts(g)
    return dict(H=[np.array(p.H) for p in ps], V=np.array(g.V), x=[np.array(p.Delta.x) for p in ps], mu=float(g.mu))


def shown(g, z, sigma):
    ps = parts(g)
    return dict(z=z, free=[p.free(z) for p in ps], freeinv=[p.free(z, inverse=True) for p in ps], g=[p(z) for p in ps], sigma=np.atleast_2d(sigma))


def solved(gs, solve):
    """What each solution is of."""
    before = [[] if g.neig is None else g.neig.copy() for g in gs]
    out = []
    with space.using(dict(hf=False, mu=0., z=None)):
        solve()
        for g, b in zip(gs, before):
            H = np.array([p.H for p in parts(g)])
            H = np.array([H[0], H[-1]])
            full = space.full(dict(n=H.shape[-1]), H.copy(), np.array(g.V))
            out.append(dict(full=full, espace=[dict(q=[int(a) for a in q], w=s.eigvals, v=s.eigvecs.T) for q, s in g.espace.items()],
                            egs=g.egs, before=b, after=[] if g.neig is None else g.neig.copy(), adapt=bool(g.adjust_neig)))
    return out


def somewhere(rng, w):
    """On the imaginary axis, and off it on both sides."""
    return np.concatenate([w[:3], rng.uniform(-3, 3, 4) + 1j * rng.uniform(.3, 1., 4) * [1, 1, 1, rng.choice([-1, 1])]])


def run(rec, rng):
    for i in range(7 if rec.quick else 90):
        def fn():
            n = [2, 3, 2, 3, 1 + 1][i % 5]
            spin = bool(i % 2)
            nm, beta, U = int(rng.randint(8, 24)), float(10. ** rng.uniform(.3, 1.3)), float(rng.choice([0., rng.uniform(.5, 6.), rng.uniform(.5, 6.), rng.uniform(-6., -.5)]))
            neig = None
            adapt = False
            if i % 3 == 1:
                neig = get_espace_dim(n, int(rng.randint(1, 4)))
                adapt = bool(i % 2)
            g = (SpinGfimp if spin else Gfimp)(n, nmats=nm, U=U, beta=beta, neig=neig, adjust_neig=adapt)
            w = 1j * (2 * np.arange(nm) + 1) * np.pi / beta
            rec.emit('imp', act='new', n=n, U=U, beta=beta, spins=1 + spin, x=[np.array(p.Delta.x) for p in parts(g)])
            todo = ['fit', 'update', 'solve', 'values', 'occupation']
            todo += ['fit', 'symmetrize', 'almost', 'solve', 'values'] if spin and i % 4 == 1 else []
            todo += [['fit', 'update', 'solve', 'values', 'occupation', 'both', 'up', 'dw', 'fit-up', 'symmetrize'][rng.randint(10 if spin else 6)]
                     for _ in range(8)] + ['solve', 'values', 'occupation']
            for k, act in enumerate(todo):
                if act in ('fit', 'both', 'fit-up'):
                    t = [rational(rng, int(rng.randint(1, 3)), .5)(w) for _ in parts(g)]
                    a = np.array(t) if spin else t[0]
                    keep = space.freeze(a)
                    if k and act != 'fit-up' and rng.rand() < .5:               # from anywhere, in any order
                        for p in parts(g):
                            p.Delta.x[:] = np.r_[rng.uniform(-2, 2, n - 1), rng.uniform(.2, .9, n - 1) * rng.choice([-1, 1], n - 1)]
                        rec.emit('imp', act='bath', x=[np.array(p.Delta.x) for p in parts(g)])
                    elif k and act != 'fit-up' and rng.rand() < .3:
                        g.reset_bath()
                        rec.emit('imp', act='reset', **holds(g))
                    if act == 'fit-up':
                        g.up.fit(t[0])
                        rec.emit('imp', act='fit-up', nmats=nm, target=t, **holds(g))
                    elif act == 'both':
                        mu = float(rng.uniform(-2, 4))
                        g.fit_update(a, mu)
                        rec.emit('imp', act='fit-update', nmats=nm, target=t, to=mu, **holds(g))
                    else:
                        g.fit(a)
                        rec.emit('imp', act='fit', nmats=nm, target=t, **holds(g))
                elif act in ('update', 'up', 'dw'):
                    mu = float(rng.uniform(-2, 4))
                    (g if act == 'update' else getattr(g, act)).update(mu)
                    rec.emit('imp', act='update' if act == 'update' else 'update-' + act, to=mu, **holds(g))
                elif act == 'almost':                        # levels that all but agree
                    for s, by in (('up', 0.), ('dw', 1.2e-5)):
                        getattr(g, s).update(mu + by)
                        rec.emit('imp', act='update-' + s, to=mu + by, **holds(g))
                elif act == 'symmetrize':
                    g.spin_symmetrize()
                    rec.emit('imp', act='symmetrize', **holds(g))
                elif act == 'solve':
                    rec.emit('solve', **solved([g], g.solve)[0])
                elif act == 'values':
                    z = somewhere(rng, w)
                    rec.emit('values', **shown(g, z, g.Sigma(z)))
                elif k % 2 == 0 or not rec.quick:
                    mu = float(rng.uniform(-1, 1))
                    given = bool(rng.rand() < .5)
                    out = g.integrate(mu) if given else g.integrate()
                    rec.emit('impocc', mu=mu if given else 0., out=np.atleast_1d(out))
        rec.case('history', fn)
