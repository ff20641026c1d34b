"""Sequential tunnelling through spin-resolved eigenspaces."""
import numpy as np
import tunnel
from edpyt.sqtunneling import (build_transition_elements, build_rate_matrix, build_transition_matrix, get_active_neig,
                               find_active_sectors, screen_transition_elements, getdns, getdud, Gfe)


def elements(gf):
    return [dict(f=f, i=i, kind='electron' if isinstance(g, Gfe) else 'hole', v=g.v, E=g.E) for (f, i), g in gf.items()]


def run(rec, rng):
    for i in range(16 if rec.quick else 220):
        def fn():
            n = [1, 2, 2, 3, 1, 2, 2, 4][i % 8]
            espace, egs = tunnel.any_space(rng, n, 'sz', 3, i // 4 + i)
            if n > 2:
                for s in espace.values():
                    s.eigvals, s.eigvecs = s.eigvals[:5 - n], s.eigvecs[:, :5 - n]
            tunnel.start(rec, n, espace, egs)
            for c in (0., 1e-4)[i // 2 % 2:][:1]:             # next to nothing, or nothing, passes
                rec.emit('sq', cutoff=[c], out=elements(build_transition_elements(n, egs, espace, c)))
                rec.emit('sq', cutoff=[c], out=elements(screen_transition_elements(build_transition_elements(n, egs, espace), egs, espace, c)))
            cut = None if rng.rand() < .5 else float(rng.uniform(.1, 1.5))
            if cut is not None and rng.rand() < .5:
                gf = screen_transition_elements(build_transition_elements(n, egs, espace), egs, espace, cut)
            else:
                gf = build_transition_elements(n, egs, espace, cut)
            rec.emit('sq', cutoff=[] if cut is None else [cut], out=elements(gf))
            for t in range(2):
                beta = float(10. ** rng.uniform(-1, 2.5))
                A, mu = tunnel.leads(rng, n, beta)
                rec.emit('sqrate', beta=beta, mu=mu, A=A, W=build_rate_matrix(gf, beta, mu, A))
                rec.emit('sqcurrent', beta=beta, mu=mu[0], a=A[0], M=build_transition_matrix(gf, beta, mu[0], A[0]))
            beta = float(rng.uniform(1, 500))
            A, mu = tunnel.leads(rng, n, beta)
            rec.emit('sqrate', beta=beta, mu=tuple(mu), A=A, W=build_rate_matrix(gf, beta, tuple(mu), A))
        rec.case('elements', fn)
    for n in range(1, 6):
        def fn():
            for t in range(6):
                gs = sorted({(int(rng.randint(n + 1)), int(rng.randint(n + 1))) for _ in range(rng.randint(1, 3))})
                if t == 0:
                    gs = [(n, n)]
                if t == 1:
                    gs = [(0, 0)]
                val = int(rng.randint(1, 5))
                rec.emit('active', fn='sequential', n=n, gs=gs, val=val, neig=get_active_neig(n, list(gs), val),
                         list=find_active_sectors(n, list(gs)))
        if rec.mine(n):
            rec.case('active', fn)

    def fn():
        for dn in (-1, 1):
            for spin in (-1, 1):
                du, dd = getdud(dn, spin)
                rec.emit('dud', du=du, dd=dd, out=getdns(du, dd), back=getdud(*getdns(du, dd)))
    if rec.mine(0):
        rec.case('change', fn)
