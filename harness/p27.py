"""Stationary distributions."""
import numpy as np
from edpyt.rates import stationary_solution


def run(rec, rng):
    for i in range(60 if rec.quick else 400):
        kind = ('plain', 'decades', 'ring', 'sparse', 'tiny', 'huge', 'slow')[i % 7]
        n = int(rng.choice([1, 2, 3, 4, 7, 12]))
        W = rng.rand(n, n) + .05
        if kind == 'decades':
            W = 10. ** (rng.rand(n, n) * 4 - 2)
        elif kind == 'ring':
            W = np.roll(np.eye(n), 1, 0) * (rng.rand(n) + .1)
        elif kind == 'sparse':
            W = np.where(rng.rand(n, n) < .4, W, 0) + np.roll(np.eye(n), 1, 0) * .3
        elif kind == 'slow':                               # groups joined by slow rates, in balance
            g = rng.randint(2, size=n)
            W = np.where(g[:, None] == g[None, :], W + W.T, 10. ** rng.uniform(-11, -7) * W)
        elif kind == 'tiny':
            W *= 10. ** -rng.randint(3, 20)
        elif kind == 'huge':
            W *= 10. ** rng.randint(3, 15)
        np.fill_diagonal(W, 0.)
        W -= np.diag(W.sum(0))
        s = 10. ** rng.randint(-12, 13)
        o = rng.permutation(n)

        def fn():
            keep = W.copy()
            p = stationary_solution(W)
            same = bool(np.array_equal(W, keep))
            scaled = stationary_solution(W * s)
            perm = np.empty(n)
            perm[o] = stationary_solution(W[np.ix_(o, o)])
            if kind == 'slow':                             # ill-conditioned: only the equation is judged
                scaled, perm = [], []
            rec.emit('rates', W=keep, p=p, scaled=scaled, perm=perm, same=same)
        rec.case(kind, fn, n=n)
