"""Cotunnelling through spin-resolved eigenspaces."""
import numpy as np
import tunnel
from space import freeze
from edpyt.cotunneling import (build_transition_elements, build_rate_matrix, build_transition_matrix, get_active_neig,
                               find_active_sectors, screen_transition_elements)


def part(g):
    return dict(vF=g.vF, vI=g.vI, E=g.E, nsJ=g.nsJ)


def elements(sd, n):
    out = []
    for (f, i), sigmas in sd.items():
        ss = []
        for s in sigmas:
            e = [g for g in tunnel.sigma_parts(s, n) if sum(g.nsJ) > sum(i[:2])]
            h = [g for g in tunnel.sigma_parts(s, n) if sum(g.nsJ) < sum(i[:2])]
            ss.append(dict(dE=s.dE, e=part(e[0]) if e else None, h=part(h[0]) if h else None))
        out.append(dict(f=f, i=i, sigma=ss))
    return out


def process(s, i):
    """(spin that leaves, spin that enters)"""
    p = [None, None]
    for g in tunnel.sigma_parts(s, 0):
        d = [g.nsJ[k] - i[k] for k in (0, 1)]
        if sum(d) > 0:
            p[1] = d.index(1)
            p[0] = [k for k in (0, 1) if s.dS[k] == (k == p[1]) - 1] + [p[1]]
        else:
            p[0] = [d.index(-1)]
            p[1] = ([k for k in (0, 1) if s.dS[k] == 1 - (k == p[0][0])] + [p[0][0]])[0] if p[1] is None else p[1]
        p[0] = p[0][0]
    return [p[0], p[1]]


def run(rec, rng):
    for i in range(12 if rec.quick else 160):
        def fn():
            n = [1, 2, 1, 2][i % 4]
            espace, egs = tunnel.any_space(rng, n, 'sz', 3, i // 4 + i)
            for s in espace.values():
                s.eigvals, s.eigvecs = s.eigvals[:3], s.eigvecs[:, :3]
            tunnel.start(rec, n, espace, egs)
            for c in (0., 1e-4)[i // 2 % 2:][:1]:             # next to nothing, or nothing, passes
                rec.emit('co', N=[], cutoff=[c], out=elements(build_transition_elements(n, egs, espace, c), n))
                rec.emit('co', N=[], cutoff=[c], out=elements(screen_transition_elements(build_transition_elements(n, egs, espace), egs, espace, c), n))
            cut = None if rng.rand() < .5 else float(rng.uniform(.2, 1.5))
            sd = build_transition_elements(n, egs, espace, None if cut is None or i % 3 else cut)
            if cut is not None and i % 3:
                sd = screen_transition_elements(sd, egs, espace, cut)
            rec.emit('co', N=[], cutoff=[] if cut is None else [cut], out=elements(sd, n))
            keys = list(sd)
            for t in range(6):
                f, i0 = keys[rng.randint(len(keys))]
                s = sd[f, i0][rng.randint(len(sd[f, i0]))]
                A, mu = tunnel.leads(rng, n, 1.)
                ext, inj = (int(x) for x in rng.randint(0, 2, 2))
                z = rng.uniform(-2, 3, int(rng.choice([1, 1, 2, 3, 4])))
                rec.emit('value', f=f, i=i0, p=process(s, i0), A=A, ext=ext, inj=inj, z=z, out=s(z, A, ext, inj))
            few = len({f for f, _ in keys}) <= 4
            for how in ('approximate', 'exact') if few else ('approximate',):
                beta = float(10. ** rng.uniform(-.5, 1.7))
                A, mu = tunnel.leads(rng, n, beta)
                ext, inj = (int(x) for x in rng.permutation(2))
                ap = how == 'approximate'
                before = freeze(dict(sd))
                W = build_rate_matrix(sd, beta, mu, A, approx_integral=ap)
                M = build_transition_matrix(sd, beta, mu, A, ext, inj, approx_integral=ap)
                rec.emit('corate', how=how, beta=beta, mu=mu, A=A, ext=ext, inj=inj, W=W, M=M)
                rec.emit('kept', kept=freeze(dict(sd)) == before)
            beta = float(10. ** rng.uniform(2, 6))            # cold: bias of many temperatures
            A, mu = tunnel.leads(rng, n, beta)
            W = build_rate_matrix(sd, beta, mu, A, approx_integral=True)
            M = build_transition_matrix(sd, beta, mu, A, 0, 1, approx_integral=True)
            rec.emit('corate', how='approximate', beta=beta, mu=mu, A=A, ext=0, inj=1, W=W, M=M)
        rec.case('elements', fn)
    for n in range(1, 6):
        def fn():
            for t in range(6):
                gs = sorted({(int(rng.randint(n + 1)), int(rng.randint(n + 1))) for _ in range(rng.randint(1, 3))})
                gs = [(n, n)] if t == 0 else [(0, n)] if t == 1 else [(0, 0)] if t == 2 else gs
                val = int(rng.randint(1, 5))
                rec.emit('active', fn='cotunneling', n=n, gs=gs, val=val, neig=get_active_neig(n, list(gs), val),
                         list=find_active_sectors(list(gs)))
        if rec.mine(n):
            rec.case('active', fn)
