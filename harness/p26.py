"""Regularised tunnelling integrals."""
import numpy as np
from edpyt.integrals import I1, I2, Gamma1, Gamma2, Gamma4


def run(rec, rng):
    n = 48 if rec.quick else 600
    near = [0., 1e-17, 3e-16, 1e-12, 1e-9, 1e-7, 3e-6, 1e-4, 1e-2]
    for i in range(n):
        beta = float(10. ** rng.uniform(-1, 3))
        e = (rng.uniform(-2, 2, 4) * 10. ** rng.uniform(-2, 1)).tolist()
        mu = rng.uniform(-1, 1, 2).tolist()
        if i % 12 == 8:                                     # everything within a few kT, at any kT
            beta = float(10. ** rng.uniform(-2, 5))
            e = (rng.uniform(-12, 12, 4) / beta).tolist()
            mu = (rng.uniform(-6, 6, 2) / beta).tolist()
        if i % 4 == 1:
            mu[1] = mu[0] + near[(i // 4) % len(near)] * rng.choice([-1, 1]) / beta
        if i % 4 == 2:
            e[1] = e[0] + near[(i // 4) % len(near)] * rng.choice([-1, 1]) / beta
        if i % 4 == 3:
            k = rng.randint(len(near), size=2)
            mu[1] = mu[0] + near[k[0]] / beta
            e[1] = e[0] - near[k[1]] / beta
            if i % 8 == 3:
                e[2], e[3] = e[0], e[1]
        if abs(mu[1] - mu[0]) * beta > 250 or i % 3 and abs(mu[1] - mu[0]) * beta > 30:
            mu[1] = mu[0] + (250 if i % 3 == 0 else 30) * np.sign(mu[1] - mu[0]) / beta * rng.rand()
        a = rng.uniform(-1, 1, 4).tolist()
        if i % 6 == 5:
            a[rng.randint(2)] = 0.

        def fn():
            f = float
            for fn_, k, args in (('I1', 1, ()), ('Gamma1', 1, ()), ('I2', 2, ()), ('Gamma2', 2, ()), ('Gamma4', 4, ())):
                if fn_ == 'I1':
                    out = I1(a[0], e[0], mu, beta)
                elif fn_ == 'Gamma1':
                    out = Gamma1(a[1], e[1], mu, beta)
                    rec.emit('integral', fn='square', a=[a[1]], e=[e[1]], mu=mu, beta=beta, out=f(out))
                    continue
                elif fn_ == 'I2':
                    out = I2(a[0], a[1], e[0], e[1], mu, beta)
                    sw = I2(a[1], a[0], e[1], e[0], mu, beta)
                    rec.emit('integral', fn='cross', a=[a[1], a[0]], e=[e[1], e[0]], mu=mu, beta=beta, out=f(sw))
                    rec.emit('integral', fn='cross', a=a[:2], e=e[:2], mu=mu, beta=beta, out=f(out))
                    continue
                elif fn_ == 'Gamma2':
                    out = Gamma2(a[0], a[1], e[0], e[1], mu, beta)
                else:
                    if i % 2 and rec.quick:
                        continue
                    out = Gamma4(*a, *e, mu, beta)
                rec.emit('integral', fn='square', a=a[:k], e=e[:k], mu=mu, beta=beta, out=f(out))
        rec.case('integrals', fn)
