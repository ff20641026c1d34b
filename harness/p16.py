"""Lanczos Green functions against the Lehmann representation."""
import numpy as np
import space
from edpyt.espace import build_espace, screen_espace
from edpyt.gf_lanczos import build_gf_lanczos

KINDS = ['plain', 'spin', 'hubbard', 'cut', 'levels', 'exchange']


def prepare(rec, rng, i, sizes, kinds=KINDS):
    n = sizes[i % len(sizes)]
    kind = kinds[rng.randint(len(kinds))]
    m = space.model(rng, n, kind)
    H, V = space.form(m, rng)
    beta = float(10. ** (rng.uniform(-.5, 1.5) if n == 4 or rng.rand() < .8 else rng.uniform(1.5, 5)))
    with space.using(m):
        espace, egs = build_espace(H, V)
        how = 'full'
        if n == 4 or rng.rand() < .4:
            how = 'screened'
            cut = float(10. ** rng.uniform(-4, -.5))
            if n == 4:                                    # as many states as can be summed, in several sectors
                w = np.sort(np.concatenate([x.eigvals for x in espace.values()])) - egs
                j = 1 + np.flatnonzero(np.diff(w) > 1e-6)
                j = int(rng.choice(j[:max(1, (j < 24).sum())]))
                beta = min(beta, float(6. / w[j]))
                cut = float(np.exp(-beta * (w[j] + w[j - 1]) / 2))
            screen_espace(espace, egs, beta, cut)
        elif rng.rand() < .3:
            how = 'truncated'
            espace, egs = build_espace(H, V, space.counts(rng, n, 'holes'))
            if not espace:
                how = 'full'
                espace, egs = build_espace(H, V)
    return n, kind, how, m, H, V, beta, espace, egs


def start(rec, m, H, V, espace, egs):
    rec.emit('model', m=m)
    rec.emit('full', sectors=space.full(m, H, V))
    rec.emit('espace', sectors=space.sectors(espace), egs=egs)


def run(rec, rng):
    for i in range(11 if rec.quick else 180):
        def fn():
            four = i in (0, 6)
            n, kind, how, m, H, V, beta, espace, egs = prepare(rec, rng, i, [4] if four else [3, 1, 2, 3, 2, 3],
                                                               ['levels', 'cut'] if four and (rec.shard + i // 6) % 2 else KINDS)
            if rng.rand() < .5:                               # as the sparse solver stores them
                for x in espace.values():
                    x.eigvecs = np.asfortranarray(x.eigvecs)
            shift = float(rng.choice([0., 0., .3])) if how == 'full' and beta < 40 else 0.
            with space.using(m):
                start(rec, m, H, V, espace, egs - shift)
                for t in range(2 if n < 4 or kind in ('levels', 'cut') else 1):
                    pos, spin = int(rng.randint(n)), int(rng.randint(2))
                    rep = ['cf', 'sp'][rng.randint(2)]
                    sep = bool(rng.rand() < .4)
                    z = space.freqs(rng, m, n == 4)
                    kw = dict(egs=egs - shift, pos=pos, repr=rep, ispin=spin, separate=sep)
                    g = build_gf_lanczos(H, V, espace, beta, **kw)
                    for part, f in zip(('electron', 'hole'), g) if sep else (('both', g),):
                        rec.emit('gf', pos=pos, spin=spin, beta=beta, part=part, z=z, out=f(z.real, z.imag), form=rep)
                    if t == 0:
                        big = 1e9
                        tot = sum(f(np.array([0.]), big) for f in (g if sep else (g,)))[0] * 1j * big
                        im, other = [], []
                        e = rng.uniform(-3, 3, 5)
                        im = sum(f(e, 2.).imag for f in (g if sep else (g,)))
                        if kind in ('spin', 'hubbard') and how != 'truncated':
                            o = build_gf_lanczos(H, V, espace, beta, egs=egs, pos=pos, ispin=1 - spin, repr='cf')
                            other = o(e, 2.).imag
                        rec.emit('sumrule', pos=pos, spin=spin, beta=beta, part='both', total=tot, complete=how == 'full', im=im, other=other)
        rec.case('gf', fn)
