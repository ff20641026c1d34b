"""Random models, and what the assembled sector Hamiltonians are."""
import contextlib
import numpy as np
from edpyt.build_mb_ham import build_mb_ham
from edpyt.espace import build_empty_sector
from edpyt.matvec_product import todense, matvec_operator
from edpyt.shared import params


@contextlib.contextmanager
def settings(**kw):
    old = dict(params)
    params.update(kw)
    try:
        yield
    finally:
        params.clear()
        params.update(old)


def sym(A):
    return A + A.T


def coupling(rng, n, zero=.3):
    A = rng.uniform(-1, 1, (n, n))
    A[rng.rand(n, n) < zero] = 0.
    if rng.rand() < .2:
        A[rng.rand(n, n) < .2] = 1e-6
    A = np.triu(A, 1)
    return A + A.T


def model(rng, n, hop=True, Jx=False, Jp=False, spins=2, scales=(1., 1., 1., 1., -3., 20., 300.)):
    H = np.zeros((2, n, n))
    for s in range(2):
        H[s] = np.diag(rng.uniform(-2, 2, n))
        if hop:
            H[s] += coupling(rng, n)
    if spins == 1:
        H[1] = H[0]
    if spins == 2 and rng.rand() < .15:                      # all but alike
        H[1] = H[0] * (1 + rng.choice([1e-4, 4e-6, 1e-7]))
    U = np.diag(rng.uniform(-1, 5, n))
    if rng.rand() < .6:
        U = U + coupling(rng, n)
    U *= rng.choice(scales)
    J = []
    for on in (Jx, Jp):
        A = coupling(rng, n)
        if rng.rand() < .3:
            A = A + np.diag(rng.rand(n))
        J.append(A if on else None)
    hf = bool(rng.rand() < .4)
    mu = float(rng.choice([0., .7, -1.3]))
    z = None if rng.rand() < .5 else rng.uniform(0, 2, n)
    return dict(n=n, H=H, U=U, Jx=J[0], Jp=J[1], hf=hf, mu=mu, z=z)


def forms(m, rng):
    """Equivalent ways of giving the model to the library, the first the plainest."""
    H, U = m['H'], m['U']
    one = np.array_equal(H[0], H[1])
    if m['Jx'] is None and m['Jp'] is None:
        Vs = [U, dict(U=U), dict(U=U, Jx=None, Jp=None)]
    else:
        V = dict(U=U)
        for k in ('Jx', 'Jp'):
            if m[k] is not None:
                V[k] = m[k]
        Vs = [V, dict(U=U, Jx=m['Jx'], Jp=m['Jp'])]
    Hs = [H] + ([H[0].copy()] if one else []) + [np.asfortranarray(H)]
    return [(h, v) for h in Hs for v in Vs]


def assemble(H, V, m, q):
    with settings(hfmode=m['hf'], mu=m['mu'], z=None if m['z'] is None else np.array(m['z'])):
        sct = build_empty_sector(m['n'], *q)
        return sct, build_mb_ham(H, V, sct)


def copy(x):
    return {k: copy(v) for k, v in x.items()} if isinstance(x, dict) else None if x is None else np.array(x)


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if a is None:
        return b is None
    return np.array_equal(a, b)


def emit(rec, rng, m, q, limit):
    fs = forms(m, rng)
    H, V = fs[0]
    before = copy(H), copy(V)
    sct, ops = assemble(H, V, m, q)
    D = np.array(todense(*ops))
    v = rng.randint(-3, 4, sct.d).astype(float)
    Hv = matvec_operator(*ops)(v.copy()).copy()
    alike = []
    for h, w in fs[1:]:
        alike.append(bool(np.allclose(D, todense(*assemble(h, w, m, q)[1]), atol=1e-13)))
    d = D.shape[0]
    rows = np.arange(d) if d * d <= limit else np.sort(rng.choice(d, max(1, limit // d), replace=False))
    kw = dict(states=sct.states) if len(q) == 1 else dict(up=sct.states.up, dw=sct.states.dw)
    rec.emit('n' if len(q) == 1 else 'sz', m=m, q=list(q), rows=rows, all=d * d <= limit, ham=D[rows], v=v, Hv=Hv[rows],
             forms=alike, kept=same(before[0], H) and same(before[1], V), **kw)
    return D
