"""Building eigenspaces."""
import numpy as np
import space
from math import comb
from edpyt.build_mb_ham import build_mb_ham
from edpyt.espace import build_espace, build_empty_sector, get_espace_dim
from edpyt.matvec_product import todense

KINDS = ['plain', 'spin', 'hubbard', 'cut', 'levels', 'exchange']


def run(rec, rng):
    for i in range(16 if rec.quick else 240):
        n = [1, 2, 3, 2, 3, 3, 1, 2][i % 8] if i % 40 else 4
        kind = KINDS[rng.randint(len(KINDS))]
        sym = 'N' if i % 5 == 4 and n < 4 else 'sz'
        m = space.model(rng, n, 'levels' if sym == 'N' and rng.rand() < .5 else 'exchange' if sym == 'N' else kind)
        if sym == 'N':
            for s in range(2):
                m['H'][s] = np.diag(np.diag(m['H'][s]))
        H, V = space.form(m, rng)
        how = ['all', 'few', 'holes', 'some'][rng.randint(4)]
        if sym == 'N':
            dims = np.array([comb(2 * n, k) for k in range(2 * n + 1)])
            neig = None if how == 'all' else np.minimum(dims, rng.randint(0 if how == 'holes' else 1, 5, dims.size))
        else:
            neig = space.counts(rng, n, how)
        if neig is not None and not neig.any():
            neig[0] = 1

        def fn():
            with space.using(m):
                before = space.freeze([H, V, neig])
                kw = {} if sym == 'sz' and rng.rand() < .5 else dict(symmetry=rng.choice([sym.lower(), sym.upper()]) if sym == 'N' else 'sz')
                espace, egs = build_espace(H, V, neig, **kw)
            rec.emit('model', m=m)
            rec.emit('build', sym=sym, counts=neig, sectors=space.sectors(espace), egs=egs, kept=space.freeze([H, V, neig]) == before)
        rec.case(kind + '-' + how, fn, n=n, sym=sym)

    # sectors beyond the dense solver
    for i in range(2 if rec.quick else 6):
        sym = 'N' if (i + rec.shard + rec.seed) % 4 == 3 else 'sz'
        n = 6 if sym == 'N' else 7
        m = space.model(rng, n, 'levels' if sym == 'N' else ['plain', 'spin', 'hubbard'][rng.randint(3)])
        if sym == 'sz':                                      # chains: rows of a few elements
            m['H'] = np.array([np.triu(np.tril(h, 1), -1) + np.diag(rng.rand(n - 1) * .1 + .3, 1) + np.diag(np.zeros(n)) for h in m['H']])
            m['H'] = np.array([np.triu(h) + np.triu(h, 1).T for h in m['H']])
            if m['H'].shape[0] == 2 and rng.rand() < .5:
                m['H'][1] = m['H'][0]
        H, V = space.form(m, rng)
        big = [6] if sym == 'N' else [int(rng.choice([2 * 8 + 3, 3 * 8 + 2]))]
        if rec.shard == 0 and not rec.quick:
            big.append(3 * 8 + 3)
        neig = np.zeros(13 if sym == 'N' else 64, int)
        neig[big] = rng.randint(4, 8) if i % 2 else rng.randint(1, 4)
        neig[rng.randint(neig.size)] = 1
        if sym == 'N':
            neig[big] = 1                                    # levels: degenerate ones come once
        else:
            neig[[0, 1]] = 1

        def fn():
            with space.using(m):
                before = space.freeze([H, V, neig])
                espace, egs = build_espace(H, V, neig, symmetry=sym)
                secs = space.sectors(espace)
                for s in secs:
                    new = build_empty_sector(n, *s['q'])
                    a = np.asarray(todense(*build_mb_ham(H, V, new)))
                    s['reference'] = np.linalg.eigvalsh(a)[:8]
                    s['rows'] = [int(t) for t in rng.permutation(s['d'])[:8]]
            rec.emit('model', m=m)
            rec.emit('large', sym=sym, counts=neig, sectors=secs, egs=egs, kept=space.freeze([H, V, neig]) == before)
        rec.case('large', fn, n=n, sym=sym)

    def dims():
        for n in range(1, 7 if rec.quick else 11):
            for sym in ('sz', 'N'):
                for mx in (None, 1, int(rng.randint(2, 30))):
                    a = get_espace_dim(n, mx, sym) if mx else get_espace_dim(n, symmetry=sym)
                    rec.emit('dims', n=n, sym=sym, max=mx or 0, out=a)
        _, err = rec.attempt(get_espace_dim, 2, None, 'xy')
        _, err2 = rec.attempt(build_espace, np.eye(2), np.eye(2), None, 'xy')
        rec.emit('dims', n=0, sym='N', max=0, out=[1 if err and err2 else 0])
    if rec.mine(0):
        rec.case('dimensions', dims)
