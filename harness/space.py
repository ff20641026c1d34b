"""Eigenspaces of random models: what they hold and what is asked of them."""
import numpy as np
import ham
from edpyt.build_mb_ham import build_mb_ham
from edpyt.espace import build_empty_sector, build_espace, screen_espace
from edpyt.matvec_product import todense


def model(rng, n, kind='plain'):
    """kinds: plain, spin (spins alike), hubbard, cut (disconnected), levels (no hopping), exchange"""
    m = ham.model(rng, n, scales=(1., 1., 1., 1., -2.), hop=kind != 'levels', Jx=kind == 'exchange' and n > 1, Jp=kind == 'exchange' and n > 1,
                  spins=1 if kind in ('spin', 'hubbard') else 2)
    if kind == 'hubbard':
        h = np.zeros((n, n))
        for i in range(n - 1):
            h[i, i + 1] = h[i + 1, i] = -1.
        U = 2.
        np.fill_diagonal(h, 0. if m['hf'] else -U / 2)
        m.update(H=np.array([h, h]), U=np.eye(n) * U, mu=0., z=None)
    if kind == 'cut' and n > 1:
        k = rng.randint(1, n)
        m['H'][:, :k, k:] = m['H'][:, k:, :k] = 0.
    return m


def form(m, rng):
    fs = ham.forms(m, rng)
    return fs[rng.randint(len(fs))]


def using(m):
    return ham.settings(hfmode=m['hf'], mu=m['mu'], z=None if m['z'] is None else np.array(m['z']))


def sector(q, s):
    d = dict(q=[int(x) for x in q], d=int(s.d), w=s.eigvals, v=s.eigvecs.T)
    d.update(dict(states=s.states) if len(q) == 1 else dict(up=s.states.up, dw=s.states.dw))
    return d


def sectors(espace):
    return [sector(q, s) for q, s in espace.items()]


def freeze(x):
    """What x holds, bit for bit."""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, x.dtype.str, x.flags.writeable, x.tobytes())
    if isinstance(x, dict):
        return ('d', tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('l', tuple(freeze(y) for y in x))
    if hasattr(x, 'eigvals'):
        return ('s', freeze(x.states), x.d, freeze(x.eigvals), freeze(x.eigvecs))
    if hasattr(x, '__dict__'):
        return ('o', tuple((k, freeze(v)) for k, v in sorted(vars(x).items())))
    return x


def full(m, H, V):
    """All eigenpairs of all sectors."""
    out = []
    n = m['n']
    for a in range(n + 1):
        for b in range(n + 1):
            s = build_empty_sector(n, a, b)
            w, v = np.linalg.eigh(np.asarray(todense(*build_mb_ham(H, V, s))))
            out.append(dict(q=[a, b], up=s.states.up, dw=s.states.dw, w=w, v=v.T))
    return out


def counts(rng, n, how):
    """Requested numbers of eigenpairs per sector."""
    from math import comb
    dims = np.array([comb(n, a) * comb(n, b) for a in range(n + 1) for b in range(n + 1)])
    if how == 'all':
        return None
    if how == 'few':
        return np.minimum(dims, int(rng.randint(1, 4)))
    return np.minimum(dims, rng.randint(0 if how == 'holes' else 1, 5, dims.size))


def freqs(rng, m, far):
    r = 2 + sum(np.abs(m['H']).sum((1, 2))) / 2 + np.abs(m['U']).sum() + abs(m['mu'])
    for k in ('Jx', 'Jp'):
        if m[k] is not None:
            r += np.abs(m[k]).sum()
    x = rng.uniform(-r, r, 4)
    y = rng.choice([-1, 1], 4) * (10. ** rng.uniform(-1.5, .5, 4) if not far else r * rng.uniform(1, 2, 4))
    return x + 1j * y
