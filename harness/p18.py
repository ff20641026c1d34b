"""Off-diagonal Green functions."""
import numpy as np
import space
from p16 import prepare, start
from edpyt.gf2_lanczos import build_gf_offdiag, build_gf2_lanczos


def run(rec, rng):
    for i in range(9 if rec.quick else 150):
        def fn():
            n, kind, how, m, H, V, beta, espace, egs = prepare(rec, rng, i, [2, 3, 2, 1], ['plain', 'spin', 'hubbard', 'cut', 'levels', 'cut', 'exchange'])
            spin = int(rng.randint(2))
            rep = ['cf', 'sp'][rng.randint(2)]
            sep = bool(rng.rand() < .4)
            with space.using(m):
                start(rec, m, H, V, espace, egs)
                z = space.freqs(rng, m, False)
                g = build_gf2_lanczos(H, V, espace, beta, egs, ispin=spin, repr=rep, separate=sep)
                val = g(z.real, z.imag)
                for a in range(n):
                    for b in range(n):
                        if a > b and rng.rand() < .5:
                            continue
                        for part, G in zip(('electron', 'hole'), val) if sep else (('both', val),):
                            rec.emit('off', pos=a, pos2=b, spin=spin, beta=beta, part=part, z=z, out=G[a, b])
                # one element by itself: + function of a pair is G_aa + G_bb + 2 G_ab
                a, b = int(rng.randint(n)), int(rng.randint(n))
                kw = dict(ispin=spin, egs=egs, repr=['cf', 'sp'][rng.randint(2)])
                if rng.rand() < .3:
                    del kw['ispin']
                if rng.rand() < .3:
                    del kw['repr']
                if rng.rand() < .4:
                    plus = build_gf_offdiag(H, V, espace, beta, a, b, separate=True, **kw)
                else:
                    plus = [build_gf_offdiag(H, V, espace, beta, a, b, **kw)]
                for part, f in zip(('electron', 'hole') if len(plus) == 2 else ('both',), plus):
                    rec.emit('plus', pos=a, pos2=b, spin=kw.get('ispin', 0), beta=beta, part=part, z=z, out=f(z.real, z.imag))
                a, b = (int(x) for x in rng.randint(0, n, 2))
                rec.emit('off', pos=a, pos2=b, spin=spin, beta=beta, part='both', z=z, out=g[a, b](z.real, z.imag))
        rec.case('matrix', fn)
