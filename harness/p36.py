"""Local Green functions of a lattice."""
import numpy as np
from space import freeze
from edpyt.dmft import Gfhilbert, Gfhybrid, ht


def rational(rng, k, scale=1., keep=None):
    """A causal function with k poles."""
    q, p = scale * rng.uniform(.05, 1, k), rng.uniform(-2, 2, k)
    if keep is not None:
        keep.extend([q, p])
    return lambda z: (q / (np.asarray(z)[..., None] - p)).sum(-1)


def frequencies(rng, i):
    k = int(rng.randint(1, 6))
    if i % 3 == 0:
        return 1j * (2 * np.arange(k) + 1) * np.pi / 10. ** rng.uniform(-1, 2)
    y = 10. ** rng.uniform(-2, 1, k)
    return rng.uniform(-3, 3, k) + 1j * (y if i % 3 == 1 else y * rng.choice([-1, 1], k))


def run(rec, rng):
    for i in range(60 if rec.quick else 800):
        def fn():
            dos = []
            if i % 2:
                hyb = rational(rng, int(rng.randint(1, 5)))
                g = Gfhybrid(hyb)
            else:
                hyb = None
                q, p = rng.uniform(.05, 1, 4), rng.uniform(-2, 2, 4)
                dos = [q / q.sum(), p]
                g = Gfhilbert(lambda z: (dos[0] / (np.asarray(z)[..., None] - dos[1])).sum(-1))
            for t in range(3):                            # a history of updates
                if t != 1:
                    shift = rng.uniform(-1, 1)
                    part = rational(rng, int(rng.randint(1, 4)))
                    sig = (lambda z: 0. * z) if rng.rand() < .2 else (lambda z: shift + part(z))
                    g.set_local(sig)
                if t != 2:
                    mu = float(rng.uniform(-2, 2))
                    g.update(mu)
                if t == 0 or i % 3 == 0:                  # else the same again
                    z = frequencies(rng, i + t)
                keep = freeze([z, dos])
                out = dict(g=g(z), weiss=g.Weiss(z), delta=g.Delta(z), free=g.free(z), ginv=g(z, inverse=True), freeinv=g.free(z, inverse=True))
                rec.emit('lattice', kind='hybrid' if i % 2 else 'hilbert', mu=mu, z=z, sigma=sig(z), hybrid=hyb(z) if hyb else [], dos=dos,
                         kept=freeze([z, dos]) == keep, **out)
        rec.case('lattice', fn)
    for i in range(6 if rec.quick else 60):
        def fn():
            z = rng.uniform(-2, 2, 6) * 10. ** rng.uniform(-2, 2, 6) + 1j * 10. ** rng.uniform(-9, 1, 6) * rng.choice([0, 1, 1], 6)
            z = np.concatenate([z, 1j * 10. ** rng.uniform(-2, 2, 3), [1. + 0j, -1. + 0j, 0j]])
            rec.emit('bethe', z=z, out=[complex(ht(x)) for x in z])
        rec.case('bethe', fn)
