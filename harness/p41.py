"""Drawings of molecules, orbitals and spin densities."""
import numpy as np
import canvas
canvas.install()
from edpyt.cotools import draw_skeleton, draw_feynman_dyson_orbital, draw_spin_density
from edpyt.espace import build_empty_sector
from edpyt.sector import generate_states

PLANES = ['xy', 'xz', 'yz', 'yx', 'zx', 'zy']


def molecule(rng, n, i):
    pos = rng.uniform(-4, 4, (n, 3))
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    if i % 4 == 0:
        bonds = [(a, a + 1) for a in range(n - 1)]
    elif i % 4 == 1:
        bonds = [(a, a + 1) for a in range(n - 1)] + ([(0, n - 1)] if n > 2 else [])
    elif i % 4 == 2:
        bonds = [p for p in pairs if rng.rand() < .5]
    else:
        bonds = []
    return canvas.Atoms(pos, bonds)


def seen(ax):
    return dict(lines=ax.segments, marks=[dict(at=c.xy, r=c.radius, colour=str(c.color)) for c in ax.circles])


def run(rec, rng):
    for i in range(60 if rec.quick else 1200):
        kind = ['skeleton', 'orbital', 'density'][i % 3]
        n = int(rng.randint(1, 4 if kind == 'density' else 7))
        extra = int(rng.randint(0, 3)) if i % 2 else 0
        plane = PLANES[int(rng.randint(6))]

        def fn():
            atoms = molecule(rng, n + extra, i // 3)
            pos = atoms.positions.copy()
            own = canvas.Axes() if rng.rand() < .5 else None
            kw = {} if plane == 'xy' and rng.rand() < .5 else dict(plane=plane)
            chosen = list(range(n))
            if kind != 'skeleton' and (extra or rng.rand() < .3):
                chosen = [int(t) for t in rng.permutation(n + extra)[:n]]
                kw['subset'] = np.array(chosen) if rng.rand() < .5 else list(chosen)
            if own is not None:
                kw['axes'] = own
            before = len(canvas.made)
            f = dict(plane=['xyz'.index(plane[0]), 'xyz'.index(plane[1])], pos=pos, bonds=[list(b) for b in atoms.bonds],
                     chosen=chosen)
            if kind == 'skeleton':
                ax = draw_skeleton(atoms, **kw)
            elif kind == 'orbital':
                v = rng.randn(n) * 10. ** rng.randint(-2, 2)
                if rng.rand() < .3:
                    v[int(rng.randint(n))] = 0.
                scale = 3
                if rng.rand() < .6:
                    scale = kw['scale'] = float(rng.uniform(.2, 6))
                keep = v.copy()
                ax = draw_feynman_dyson_orbital(atoms, v, **kw)
                f.update(v=keep, scale=float(scale), kept=bool(np.array_equal(keep, v)))
            else:
                nup, ndw = int(rng.randint(n + 1)), int(rng.randint(n + 1))
                sct = build_empty_sector(n, nup, ndw)
                vec = rng.randn(sct.d)
                vec /= np.sqrt((vec**2).sum())
                shape = ['flat', 'column', 'strided'][int(rng.randint(3))]
                give = dict(flat=vec, column=vec[:, None], strided=np.repeat(vec, 2)[::2])[shape]
                ax = draw_spin_density(atoms, give, sct.states, n, **kw)
                f.update(n=n, v=vec, su=generate_states(n, nup), sd=generate_states(n, ndw))
            f['axes'] = bool(ax is own if own is not None else len(canvas.made) == before + 1 and ax is canvas.made[-1])
            f['kept'] = bool(np.array_equal(pos, atoms.positions)) and f.get('kept', True)
            rec.emit(kind, **f, **seen(ax))
        rec.case(kind, fn, n=n)
