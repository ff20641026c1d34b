"""Eigenspaces to tunnel through: of models, and made up."""
import numpy as np
import space
from edpyt.espace import build_empty_sector, build_espace


def orthogonal(rng, d):
    return np.linalg.qr(rng.randn(d, d))[0]


def made_up(rng, n, sym, most, level=None):
    """Any orthonormal vectors with any energies."""
    qs = [(a, b) for a in range(n + 1) for b in range(n + 1)] if sym == 'sz' else [(k,) for k in range(2 * n + 1)]
    out = {}
    shared = rng.uniform(-1, 1)
    faint = 0. if rng.rand() < .6 else 3e-3                  # sites that hardly mix
    for q in qs:
        s = build_empty_sector(n, *q)
        k = min(s.d, int(rng.randint(1, most + 1)))
        s.eigvecs = np.array((orthogonal(rng, s.d) if not faint else np.linalg.qr(np.eye(s.d) + faint * rng.randn(s.d, s.d))[0])[:, :k], order=['C', 'F'][rng.randint(2)])
        w = rng.uniform(-1, 2, k)
        if rng.rand() < .3:
            w[:] = w[0]                                     # degenerate
        if rng.rand() < .3:
            w[0] = shared
        s.eigvals = np.sort(w)
        out[q] = s
    if sym == 'N' and n == 2 and rng.rand() < .5:            # even and odd orbitals: a uniform coupling does not see the odd ones
        h = np.kron(np.eye(2), np.array([[1., 1.], [1., -1.]]) / np.sqrt(2))[:, rng.permutation(4)]
        for q in ((1,), (3,)):
            k = out[q].eigvals.size
            out[q].eigvecs = h[:, :k].copy()
    return out, min(s.eigvals.min() for s in out.values())


def of_model(rng, n, sym, most):
    m = space.model(rng, n, ['plain', 'spin', 'hubbard', 'levels', 'exchange'][rng.randint(5)] if sym == 'sz' else ['levels', 'exchange'][rng.randint(2)])
    if n > 1 and rng.rand() < .4:                            # alike sites: states that a uniform coupling does not see
        m['H'] = np.array([np.eye(n) * h[0, 0] + (h[0, 1] if sym == 'sz' else 0.) * (1 - np.eye(n)) for h in m['H']])
        m['U'] = np.eye(n) * m['U'][0, 0] + m['U'][0, 1] * (1 - np.eye(n))
        m['z'] = None
        for k in ('Jx', 'Jp'):
            if m[k] is not None:
                m[k] = rng.uniform(-1, 1) * (1 - np.eye(n))
    H, V = space.form(m, rng)
    with space.using(m):
        dims = np.array([s for s in (np.minimum(10 ** 6, _dims(n, sym)))])
        k = None if rng.rand() < .4 else np.minimum(dims, most)
        return build_espace(H, V, k, symmetry=sym)


def _dims(n, sym):
    from edpyt.espace import get_espace_dim
    return get_espace_dim(n, symmetry=sym)


def any_space(rng, n, sym, most, i):
    espace, egs = made_up(rng, n, sym, most) if i % 2 else of_model(rng, n, sym, most)
    far = float(rng.choice([0., 0., -64., -300., 250.]))     # where zero energy is does not matter
    for s in espace.values():
        s.eigvals = s.eigvals + far
    if far:
        egs = min(s.eigvals.min() for s in espace.values())
    if sym == 'sz' and rng.rand() < .4:                      # sectors that share the lowest energy but for rounding, or nearly
        for q in rng.permutation(len(espace))[:2]:
            s = espace[list(espace)[q]]
            s.eigvals = s.eigvals - s.eigvals.min() + egs + float(rng.choice([1e-12, 3e-11, 2e-10, 1e-6]))
        egs = min(s.eigvals.min() for s in espace.values())
    return espace, egs


def start(rec, n, espace, egs):
    rec.emit('space', n=n, sectors=space.sectors(espace), egs=egs)


def leads(rng, n, beta, wide=3.):
    A = rng.uniform(-1, 1, (2, n))
    if rng.rand() < .2:
        A = np.ones((2, n))
    mu = rng.uniform(-1, 1, 2)
    if rng.rand() < .3:
        mu[1] = mu[0]
    return A, mu.tolist()


def sigma_parts(s, n):
    """The amplitudes a sigma holds, once each."""
    seen = []
    for x in vars(s).values():
        for y in (x if isinstance(x, (list, tuple)) else [x]):
            if hasattr(y, 'vF') and not any(y is z for z in seen):
                seen.append(y)
    return seen
