"""Sequential tunnelling with the total charge only."""
import numpy as np
import tunnel
from edpyt.sqtnl import build_transition_elements, build_rate_and_transition_matrices, extract_sequential_from_cotunneling, Gfe
import edpyt.cotnl


def elements(gf):
    return [dict(f=f, i=i, gf=[dict(spin=g.spin, kind='electron' if isinstance(g, Gfe) else 'hole', v=g.v, E=g.E) for g in gs])
            for (f, i), gs in gf.items()]


def run(rec, rng):
    for i in range(16 if rec.quick else 220):
        def fn():
            n = [1, 2, 2, 1][i % 4]
            espace, egs = tunnel.any_space(rng, n, 'N', 4, i // 4 + i)
            for s in espace.values():
                s.eigvals, s.eigvecs = s.eigvals[:4], s.eigvecs[:, :4]
            tunnel.start(rec, n, espace, egs)
            for N in range(2 * n + 1):
                low = [q[0] for q, s in espace.items() if s.eigvals.min() == egs]
                auto = low[0] == N and rng.rand() < .7
                gf = build_transition_elements(n, espace, egs=egs) if auto else build_transition_elements(n, espace, N)
                rec.emit('sqn', N=N, out=elements(gf))
                for t in range(2):
                    beta = float(10. ** rng.uniform(-1, 2.5))
                    A, mu = tunnel.leads(rng, n, beta)
                    ext, inj = (int(x) for x in rng.permutation(2))
                    W, M = build_rate_and_transition_matrices(gf, beta, mu, A, ext, inj)
                    rec.emit('sqnrate', beta=beta, mu=mu, A=A, inject=inj, W=W, M=M)
                gx = extract_sequential_from_cotunneling(edpyt.cotnl.build_transition_elements(n, espace, N))
                rec.emit('sqn', N=N, out=elements(gx))
        rec.case('elements', fn)
