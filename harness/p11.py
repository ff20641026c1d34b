"""Screening an eigenspace and adapting the counts; lifecycles of the specification."""
import json
import os
import numpy as np
import space
from edpyt.espace import build_espace, screen_espace, adjust_neigsector, get_espace_dim


def run(rec, rng):
    for i in range(30 if rec.quick else 300):
        n = [1, 2, 3, 2, 3][i % 5]
        kind = ['plain', 'spin', 'hubbard', 'cut', 'levels'][rng.randint(5)]
        m = space.model(rng, n, kind)
        H, V = space.form(m, rng)
        neig = space.counts(rng, n, ['few', 'some'][rng.randint(2)])
        if i % 3 == 0:
            neig = get_espace_dim(n)
        scale = float(rng.choice([.01, .1, .5, 1., 3., 1e3]))

        def fn():
            with space.using(m):
                rec.emit('model', m=m)
                for r in range(4):
                    espace, egs = build_espace(H, V, neig)
                    rec.emit('espace', sectors=space.sectors(espace), egs=egs)
                    w = np.sort(np.concatenate([s.eigvals for s in espace.values()])) - egs
                    how = rng.randint(3)
                    if how == 0:
                        kw = {}
                    elif how == 1:                         # between two levels
                        j = rng.randint(w.size)
                        kw = dict(beta=1., cutoff=float(np.exp(-(w[j] + w[min(j + 1, w.size - 1)]) / 2 - 1e-3)))
                    else:
                        kw = dict(beta=scale * 10 ** rng.uniform(-.3, .3), cutoff=float(10. ** rng.uniform(-6, -.3)))
                    for again in range(2):
                        screen_espace(espace, egs, **kw)
                        kw = dict(beta=1e6, cutoff=1e-9) if not kw else kw
                        rec.emit('screen', beta=kw['beta'], cutoff=kw['cutoff'], sectors=space.sectors(espace))
                    before = neig.copy()
                    keep = space.freeze(espace)
                    adjust_neigsector(espace, neig, n)
                    rec.emit('adapt', before=before, after=neig, kept=space.freeze(espace) == keep)
        rec.case(kind, fn, n=n)

    lives = json.load(open(os.environ['VERIF_GEN']))
    mine = [lives[i] for i in rng.permutation(len(lives))] if not rec.quick else [lives[i] for i in rng.choice(len(lives), 24)]
    for i, life in enumerate(mine):
        n = [1, 2, 2, 3][i % 4]
        m = space.model(rng, n, ['plain', 'spin', 'hubbard', 'cut', 'levels'][rng.randint(5)])
        H, V = space.form(m, rng)
        neig = space.counts(rng, n, ['few', 'some'][rng.randint(2)])

        def fn():
            with space.using(m):
                rec.emit('model', m=m)
                w = np.sort(np.concatenate([x['w'] for x in space.full(m, H, V)]))
                w -= w[0]
                gaps = (w[1:] + w[:-1])[np.diff(w) > 1e-6] / 2
                if not gaps.size:
                    gaps = w[-1:] + 1.
                cut = dict(hard=gaps[0], mild=gaps[rng.randint(gaps.size)])
                for op in life:
                    if op == 'build':
                        espace, egs = build_espace(H, V, neig)
                        rec.emit('espace', sectors=space.sectors(espace), egs=egs)
                    elif op == 'adapt':
                        before, keep = neig.copy(), space.freeze(espace)
                        adjust_neigsector(espace, neig, n)
                        rec.emit('adapt', before=before, after=neig, kept=space.freeze(espace) == keep)
                    else:
                        kw = dict(beta=float(rng.choice([1., 3.])))
                        kw['cutoff'] = float(np.exp(-kw['beta'] * cut[op]))
                        screen_espace(espace, egs, **kw)
                        rec.emit('screen', sectors=space.sectors(espace), **kw)
        rec.case('life', fn, n=n, life=life)
