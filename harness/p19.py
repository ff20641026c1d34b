"""Occupations."""
import numpy as np
import space
from p16 import prepare, start
from edpyt.sector import generate_states
from edpyt.observs import get_occupation, get_evecs_occupation
from edpyt import dedlib


def run(rec, rng):
    for i in range(14 if rec.quick else 200):
        def fn():
            n, kind, how, m, H, V, beta, espace, egs = prepare(rec, rng, i, [3, 1, 2, 3, 2] if i % 7 else [4])
            with space.using(m):
                start(rec, m, H, V, espace, egs)
            up, dw = get_occupation(espace, egs, beta, n)
            rec.emit('occ', beta=beta, up=up, dw=dw)
        rec.case('thermal', fn)
    for i in range(40 if rec.quick else 400):
        n = int(rng.randint(1, 5))
        su, sd = generate_states(n, int(rng.randint(0, n + 1))), generate_states(n, int(rng.randint(0, n + 1)))
        k = int(rng.randint(1, 4))
        d = su.size * sd.size

        def fn():
            base = rng.randn(2 * d, 2 * k)
            how = ['C', 'F', 'columns', 'rows', 'both'][i % 5]
            v = dict(C=np.array(base[:d, :k], order='C'), F=np.array(base[:d, :k], order='F'), columns=base[:d, ::2],
                     rows=base[::2, :k], both=np.asfortranarray(base)[::2, ::2])[how]
            keep = space.freeze([v, v.strides])
            c = rng.uniform(-1, 1, k) if i % 2 else None
            a, b = get_evecs_occupation(v, su, sd, n, c)
            rec.emit('vecocc', n=n, su=su, sd=sd, v=v.T, c=np.ones(k) if c is None else c, nup=a, ndw=b, kept=space.freeze([v, v.strides]) == keep)
            x = np.ascontiguousarray(v[:, 0])
            keep = x.copy()
            p = int(rng.randint(n))
            rec.emit('number', pos=p, su=su, sd=sd, v=keep, out=float(dedlib.get_occupation(x, su, sd, p)))
        rec.case('vectors', fn, n=n)
