"""Cotunnelling with the total charge only."""
import numpy as np
import tunnel
from edpyt.cotnl import build_transition_elements, build_rate_and_transition_matrices, screen_transition_elements, Gf2e


def part(g):
    return dict(vF=g.vF, vI=g.vI, E=g.E)


def elements(sd, n):
    out = []
    for (f, i), sigmas in sd.items():
        ss = []
        for s in sigmas:
            e = [g for g in s.gf2 if isinstance(g, Gf2e)]
            h = [g for g in s.gf2 if not isinstance(g, Gf2e)]
            ss.append(dict(dE=s.dE, spins=s.spins, e=part(e[0]) if e else None, h=part(h[0]) if h else None))
        out.append(dict(f=f, i=i, sigma=ss))
    return out


def run(rec, rng):
    for i in range(9 if rec.quick else 180):
        def fn():
            n = [1, 2, 1][i % 3]
            espace, egs = tunnel.any_space(rng, n, 'N', [2, 3, 1][i % 3], i // 3 + (i % 3 != 1) * i)
            for s in espace.values():
                k = int(rng.randint(1, 4))
                s.eigvals, s.eigvecs = s.eigvals[:k], s.eigvecs[:, :k]
            tunnel.start(rec, n, espace, egs)
            for N in range(2 * n + 1) if n == 1 else rng.permutation(2 * n + 1)[:2]:
                N = int(N)
                low = [q[0] for q, s in espace.items() if s.eigvals.min() == egs]
                auto = low[0] == N and rng.rand() < .7
                sd = build_transition_elements(n, espace, egs=egs) if auto else build_transition_elements(n, espace, N)
                rec.emit('co', N=[N], cutoff=[], out=elements(sd, n))
                keys = list(sd)
                for t in range(4):
                    f, i0 = keys[rng.randint(len(keys))]
                    s = sd[f, i0][rng.randint(len(sd[f, i0]))]
                    A, mu = tunnel.leads(rng, n, 1.)
                    ext, inj = (int(x) for x in rng.randint(0, 2, 2))
                    z = rng.uniform(-2, 3, int(rng.choice([1, 1, 2, 3, 4])))
                    rec.emit('value', f=f, i=i0, p=s.spins, A=A, ext=ext, inj=inj, z=z, out=s(z, A, ext, inj))
                every = [s for ss in sd.values() for s in ss]
                sizes = {sum(len(g.E) for g in s.gf2) for s in every}
                for how in ('approximate', 'exact', 'integrate', 'cold'):
                    beta = float(10. ** (rng.uniform(2, 6) if how == 'cold' else rng.uniform(-.5, 1.7)))
                    how = 'approximate' if how == 'cold' else how
                    A, mu = tunnel.leads(rng, n, beta)
                    if how == 'exact' and not sizes <= {1, 2, 4}:
                        continue
                    if how == 'integrate':                  # the poles have to stay out of the window
                        beta *= 30
                        edges = [x for s in every for m in mu for x in (m - s.dE, m)]
                        poles = [x for s in every for g in s.gf2 for x in g.E]
                        lo, hi = min(edges) - 45 / beta, max(edges) + 45 / beta
                        if any(lo < x < hi for x in poles) or hi - lo > 120 / beta:
                            mu = [0., 0.]
                            shift = max(poles) + 3.
                            mu = [shift, shift + float(rng.uniform(-2, 2)) / beta]
                            spread = max(abs(s.dE) for s in every)
                            beta = min(beta, 20. / max(spread, 1e-9))
                            if 45 / beta + spread > 2.5:
                                continue
                    ext, inj = (int(x) for x in rng.permutation(2))
                    W, M = build_rate_and_transition_matrices(sd, beta, mu, A, ext, inj, how)
                    rec.emit('corate', how=how, beta=beta, mu=mu, A=A, ext=ext, inj=inj, W=W, M=M)
                cut = float(rng.uniform(.5, 3))
                s2 = rec.attempt(build_transition_elements, n, espace, N, egs, cut)
                if s2[0]:
                    rec.emit('co', N=[N], cutoff=[] if cut is None else [cut], out=elements(s2[0], n))
                    keys = list(s2[0])
                    for t in range(3):
                        f, i0 = keys[rng.randint(len(keys))]
                        s = s2[0][f, i0][rng.randint(len(s2[0][f, i0]))]
                        A, mu = tunnel.leads(rng, n, 1.)
                        z = rng.uniform(-2, 3, 2)
                        rec.emit('value', f=f, i=i0, p=s.spins, A=A, ext=t % 2, inj=1 - t % 2, z=z, out=s(z, A, t % 2, 1 - t % 2))
                    beta = float(10. ** rng.uniform(-.5, 1.7))
                    mu = rng.uniform(-1, 1, 2).tolist()
                    for A in (np.ones((2, n)), tunnel.leads(rng, n, beta)[0], np.eye(n)[rng.randint(0, n, 2)]):
                        W, M = build_rate_and_transition_matrices(s2[0], beta, mu, A, 0, 1)
                        rec.emit('corate', how='approximate', beta=beta, mu=mu, A=A, ext=0, inj=1, W=W, M=M)
        rec.case('elements', fn)
