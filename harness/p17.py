"""Green functions between the given eigenstates."""
import numpy as np
import space
from p16 import KINDS, start
from edpyt.espace import build_espace
from edpyt.gf_exact import build_gf_exact
from edpyt.gf2_exact import build_gf2_exact


def run(rec, rng):
    for i in range(12 if rec.quick else 160):
        def fn():
            n = [3, 1, 2, 3, 2][i % 5]
            m = space.model(rng, n, KINDS[rng.randint(len(KINDS))])
            H, V = space.form(m, rng)
            beta = float(10. ** (rng.uniform(1.5, 5) if i % 4 == 1 else rng.uniform(-.5, 1.5)))
            with space.using(m):
                espace, egs = build_espace(H, V, space.counts(rng, n, 'some') if i % 4 == 3 else None)
                if i % 3 == 2:                             # the order of sectors is no matter
                    q = list(espace)
                    rng.shuffle(q)
                    espace = {tuple(int(y) for y in x): espace[tuple(x)] for x in q}
                start(rec, m, H, V, espace, egs)
                z = space.freqs(rng, m, False)
                for spin in range(2):
                    pos = int(rng.randint(n))
                    g = build_gf_exact(H, V, espace, beta, egs, pos=pos, ispin=spin)
                    rec.emit('exact', pos=pos, pos2=pos, spin=spin, beta=beta, z=z, out=g(z.real, z.imag))
                    g = build_gf2_exact(H, V, espace, beta, egs, ispin=spin)
                    G = g(z.real, z.imag)
                    for _ in range(2):
                        a, b = int(rng.randint(n)), int(rng.randint(n))
                        rec.emit('exact', pos=a, pos2=b, spin=spin, beta=beta, z=z, out=G[a, b])
        rec.case('exact', fn)
