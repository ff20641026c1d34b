"""Bases, searches, index maps and neighbouring sectors."""
import numpy as np
from edpyt.sector import generate_states, get_sector_dim, get_cdg_sector, get_c_sector
from edpyt.lookup import binsearch, get_spin_indices, get_state_index, get_num_spins, get_sector_index
from edpyt.espace import build_empty_sector, get_espace_dim


def modes(s):
    s = int(s)
    return [i for i in range(40) if s >> i & 1]


def tup(x):
    return [int(y) for y in x]


def run(rec, rng):
    top = 9 if rec.quick else 13
    for n in range(1, top):
        if not rec.mine(n):
            continue

        def bases():
            for p in range(n + 1):
                st = generate_states(n, p)
                dims = [get_sector_dim(n, p, k) for k in range(n + 1)]
                rec.emit('basis', n=n, p=p, states=st, dims=dims)
                q = np.r_[st, rng.randint(0, 2**n, 12)].astype(np.uint32)
                if st.size > 60:
                    q = np.r_[q[:2], rng.choice(st, 40), st[-2:], q[-12:]].astype(np.uint32)
                rec.emit('search', states=st, q=q, out=[binsearch(st, x) for x in q])
        rec.case('bases', bases, n=n)

        def sectors():
            N = (n + 1)**2
            mv = []
            for a in range(n + 1):
                for b in range(n + 1):
                    for sp in (0, 1):
                        for add in (True, False):
                            t, err = rec.attempt(get_cdg_sector, n, a, b, sp) if add else rec.attempt(get_c_sector, a, b, sp)
                            mv.append(dict(add=add, q=[a, b], spin=sp, to=[] if t is None else tup(t), error=err))
            rec.emit('sectors', n=n, charges=[tup(get_num_spins(k, n)) for k in range(N)],
                     number=[get_sector_index(n, k // (n + 1), k % (n + 1)) for k in range(N)], moves=mv)
            for sym in ('sz', 'N', 'Sz'):
                for mx in (None, 1, 3, 20):
                    rec.emit('dims', n=n, sym='N' if sym == 'N' else 'sz', max=mx or 0, dims=get_espace_dim(n, mx, symmetry=sym))
        rec.case('sectors', sectors, n=n)

        def empty():
            if n > 6:
                return
            for a in range(n + 1):
                for b in range(n + 1):
                    s = build_empty_sector(n, a, b)
                    rec.emit('empty-sector', n=n, q=[a, b], up=s.states.up, dw=s.states.dw, d=s.d)
            for k in range(2 * n + 1):
                s = build_empty_sector(n, k)
                rec.emit('empty-sector', n=n, q=[k], states=s.states, d=s.d)
        rec.case('empty-sector', empty, n=n)
    for i in range(20 if rec.quick else 100):
        dup, dwn = int(rng.randint(1, 40)), int(rng.randint(1, 40))

        def maps():
            N = dup * dwn
            rec.emit('index', dup=dup, dwn=dwn, spin=[tup(get_spin_indices(k, dup, dwn)) for k in range(N)],
                     state=[get_state_index(k % dup, k // dup, dup) for k in range(N)])
        rec.case('index', maps, dup=dup, dwn=dwn)
    for n in range(top, 33):
        if not rec.mine(n):
            continue
        for p in [p for p in list(range(0, 4)) + list(range(n - 3, n + 1))]:
            lim = 500 if rec.quick else 5000
            from math import factorial as f
            if f(n) // f(p) // f(n - p) > lim:
                continue

            def wide():
                st = generate_states(n, p)
                rec.emit('wide', n=n, p=p, modes=[modes(s) for s in st])
                q = np.r_[st[:2], st[-2:], rng.choice(st, 10), rng.randint(0, 2**n, 5)].astype(np.uint32)
                st = st if st.size < 60 else np.sort(rng.choice(st, 60, False))
                rec.emit('search', states=[modes(s) for s in st], q=[modes(x) for x in q], out=[binsearch(st, x) for x in q])
            rec.case('wide', wide, n=n, p=p)
