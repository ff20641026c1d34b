"""Free spectra and entropies."""
import numpy as np
import space
from p16 import start
from edpyt.espace import build_espace, build_non_interacting_espace, screen_espace
from edpyt import dedlib


class Imp:
    pass


def run(rec, rng):
    for i in range(24 if rec.quick else 200):
        n = 1 + i % 4
        ek = rng.uniform(-2, 2, n) * 10. ** rng.randint(-2, 2)
        if i % 3 == 0:
            ek = np.array([float(rng.randint(-1, 2)) for _ in range(n)])

        def fn():
            with space.using(dict(hf=bool(i % 2 and i % 5 == 0), mu=0., z=None)):
                keep = ek.copy()
                espace, egs = build_non_interacting_espace(ek)
            rec.emit('free', ek=keep, egs=egs, kept=bool(np.array_equal(ek, keep)),
                     sectors=[dict(q=[int(x) for x in q], up=s.states.up, dw=s.states.dw, w=s.eigvals) for q, s in espace.items()])
        rec.case('free', fn, n=n)
    for i in range(10 if rec.quick else 150):
        n = 1 + i % 3

        def fn():
            m = space.model(rng, n + (i % 2) * (n < 3), 'plain')
            H, V = space.form(m, rng)
            beta = float(10. ** rng.uniform(-1, 2))
            with space.using(m):
                espace, egs = build_espace(H, V)
                if i % 3 == 1:
                    screen_espace(espace, egs, beta, 1e-3)
            rec.emit('model', m=m)
            rec.emit('espace', sectors=[dict(q=s['q'], w=s['w'], v=[]) for s in space.sectors(espace)], egs=egs)
            g = Imp()
            g.ek = rng.uniform(-2, 2, n)
            with space.using(dict(hf=False, mu=0., z=None)):
                S = dedlib.get_entropy(g, espace, egs, beta)
            rec.emit('entropy', ek=g.ek, beta=beta, out=float(S), kB=float(dedlib.kB))
        rec.case('entropy', fn, n=n)
