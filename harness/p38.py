"""Searches for the chemical potential."""
import numpy as np
from p34 import Imp, Loc, causal, loop, quiet
from p37 import local
from edpyt.dmft import DMFT, adjust_mu, dmft_step_adjust
from edpyt.nano_dmft import Gfloc


class Filling:
    """Occupations per site of levels at inverse temperature beta."""

    def __init__(self, levels, weights, beta):
        self.levels, self.weights, self.beta = levels, weights, beta

    def integrate(self, mu=0.):
        with np.errstate(over='ignore'):
            return (self.weights / (1 + np.exp(self.beta * (self.levels - mu)))).sum(-1)


def search(rec, g, goal, bracket, levels, weights, beta):
    out, why = rec.attempt(lambda: adjust_mu(g, goal, bracket) if bracket else adjust_mu(g, goal))
    rec.emit('adjust', levels=np.ravel(levels), weights=np.ravel(weights), beta=beta, goal=np.ravel(goal), bracket=bracket or [-20., 20.],
             mu=0. if out is None else float(out), raised=why)
    return out


def run(rec, rng):
    for i in range(40 if rec.quick else 600):
        def fn():
            sites, k = int(rng.randint(1, 4)), int(rng.randint(1, 5))
            levels = rng.uniform(-3, 3, (sites, k)) * 10. ** rng.randint(-1, 2)
            weights = rng.uniform(.05, 1, (sites, k))
            beta = float(10. ** rng.uniform(-1, 3))
            g = Filling(levels, weights, beta)
            total = weights.sum()
            goal = rng.uniform(.02, .98, sites) * weights.sum(1)
            if i % 5 == 1:
                goal = weights.sum(1) * rng.uniform(1.01, 2., sites)            # more than there is room for
            bracket = None if i % 3 else sorted(rng.uniform(-8, 8, 2).tolist())
            search(rec, g, goal, bracket, levels, weights, beta)
            search(rec, g, np.array([goal.sum()]), bracket, levels, weights, beta)
            for by in (1e-2, 1e-5, 1e-3)[:1 + i % 3]:          # the function knows its potential, close to the next one
                g.mu = search(rec, g, goal * (1 - by * rng.rand()), bracket, levels, weights, beta)
                if g.mu is None:
                    del g.mu
        rec.case('search', fn)
    for i in range(10 if rec.quick else 150):
        def fn():
            levels = rng.uniform(-3, 3, (1, 4))
            weights = rng.uniform(.1, 1, (1, 4))
            beta = float(10. ** rng.uniform(0, 2))
            nm = int(rng.randint(2, 6))
            imp = Imp(nm, 10.)
            loc = Loc(float(rng.uniform(-1, 1)), imp, lambda z: causal(rng, z))
            f = Filling(levels, weights, beta)
            loc.integrate = f.integrate
            goal = weights.sum(1) * rng.uniform(.1, .9)
            mu = float(rng.uniform(-1, 1))
            loc.update(mu)
            d = causal(rng, 1j * np.arange(1, nm + 1))
            if i % 2:
                dmft_step_adjust(d, imp, loc, goal)
            else:
                D = DMFT(imp, loc, occupancy_goal=goal, adjust_mu=True, max_iter=3, tol=1e-12)
                with quiet():
                    D(d)
            rec.emit('stepmu', mu=loc.mu, want=adjust_mu(f, goal), impmu=[imp.mus], impnow=[imp.mu], wantimp=[mu - loc.ed])
            rec.emit('adjust', levels=levels[0], weights=weights[0], beta=beta, goal=goal, bracket=[-20., 20.], mu=float(loc.mu), raised='')
            mu = loc.mu                                       # the impurity takes it with the next step
            if i % 2:
                dmft_step_adjust(d, imp, loc, goal)
            else:
                with quiet():
                    D(d)
            rec.emit('stepmu', mu=loc.mu, want=adjust_mu(f, goal), impmu=[imp.mus], impnow=[imp.mu], wantimp=[mu - loc.ed])
        rec.case('step', fn)
