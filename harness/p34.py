"""Self-consistency loops: the histories of the specification, mixing, and physical ones."""
import contextlib
import io
import json
import os
import numpy as np
import space
from p36 import rational
from edpyt.dmft import (DMFT, Converged, FailedToConverge, Gfhilbert, Gfhybrid, Gfimp, SpinGfimp, adjust_mu, dmft_step, dmft_step_adjust,
                        dmft_step_magnetic)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class Imp:
    """An impurity that notes what it is given."""

    def __init__(self, nmats, beta):
        self.nmats, self.beta = nmats, beta
        self.used, self.mu, self.steps, self.resets, self.mus = None, None, 0, 0, None

    def fit(self, delta):
        self.used = np.array(delta)

    def update(self, mu):
        self.mu = mu

    def fit_update(self, delta, mu):
        self.fit(delta)
        self.update(mu)

    def reset_bath(self):
        self.resets += 1

    def solve(self):
        self.steps += 1
        self.solved, self.mus = np.array(self.used), np.array(self.mu)

    def Sigma(self, z):
        return self.solved * 0. + self.steps


class Loc:
    """A lattice whose hybridisation is a rule of what was solved."""

    def __init__(self, ed, imp, rule):
        self.ed, self.imp, self.rule, self.mu, self.Sigma = ed, imp, rule, None, None

    def update(self, mu):
        self.mu = mu

    def set_local(self, Sigma):
        self.Sigma = Sigma

    def Delta(self, z):
        self.new = self.rule(z)
        return np.array(self.new)


def sigma_of_solution(loc, imp, z):
    return bool(loc.Sigma is not None and np.array_equal(loc.Sigma(z), imp.Sigma(z)))


def causal(rng, z):
    return rational(rng, 3, .4)(z)


def call(rec, D, imp, loc, d):
    """One call of the loop."""
    given = np.array(d)
    before = imp.steps
    flat = lambda x: None if x is None else np.ravel(x)
    imp.used = None
    end, out = '', []
    try:
        with quiet():
            out = D(d)
    except (Converged, FailedToConverge) as e:
        end = type(e).__name__
    assert end or np.shape(out) == given.shape
    rec.emit('iterate', given=flat(given), used=flat(imp.used), steps=imp.steps - before, new=flat(loc.new), out=flat(out), last=flat(D.delta), end=end,
             it=D.it, mu=loc.mu, ed=np.atleast_1d(loc.ed), impmu=np.atleast_1d(imp.mus), impnow=np.atleast_1d(imp.mu), sigma=sigma_of_solution(loc, imp, D.z))
    return end, out


def loop(rec, imp, loc, **kw):
    D = DMFT(imp, loc, **kw)
    rec.emit('loop', z=D.z, w=D.weights, nmats=imp.nmats, beta=imp.beta, alpha=float(kw.get('alpha', 0)), max=D.max_iter, tol=D.tol)
    return D


def history(rec, rng, h, goal):
    nm, beta = int(rng.randint(1, 7)), float(10. ** rng.uniform(0, 2))
    tol = float(10. ** rng.uniform(-4, -1))
    imp = Imp(nm, beta)
    want = {}
    rows = int(rng.choice([0, 0, 2, 3]))                     # one site, or several
    shape = (rows, nm) if rows else (nm,)
    causals = lambda z: np.array([causal(rng, z) for _ in range(rows)]) if rows else causal(rng, z)

    def rule(z):
        if imp.steps == 0 or want.get('start'):
            return want['first']
        step = rng.randn(*shape) + 1j * rng.randn(*shape)
        step *= tol * want['by'] / np.linalg.norm(step)
        return imp.solved + step
    loc = Loc(rng.uniform(-1, 1, rows) if rows else float(rng.uniform(-1, 1)), imp, rule)
    D = loop(rec, imp, loc, max_iter=h['max'], tol=tol, occupancy_goal=goal, alpha=float(rng.choice([-1., 0., .5, 1., 2.])))

    def begin():
        want['start'], want['first'] = True, causals(D.z)
        U = float(rng.uniform(0, 4))
        mu = None if rng.rand() < .5 else float(rng.choice([0., rng.uniform(-1, 1)]))
        r = imp.resets
        sig = lambda z: 0 * z
        out = D.initialize(U, sig, mu)
        rec.emit('initialize', U=U, given=[] if mu is None else [mu], mu=loc.mu, impmu=np.atleast_1d(imp.mu), ed=np.atleast_1d(loc.ed), reset=imp.resets > r,
                 sigma=loc.Sigma is sig, out=np.ravel(out), want=np.ravel(want['first']))
        want['start'] = False
        return out
    for again in range(1 + int(rng.rand() < .3)):
        d = begin()
    for t, (dist, sign) in enumerate(h['calls']):
        if t and rng.rand() < .15:                           # starts over on the way
            d = begin()
        want['by'] = float(rng.choice([.1, .9, .999])) if dist == 'close' else float(rng.choice([1.001, 1.1, 30.]))
        d = np.array(d)
        bad = rng.rand(*shape) < .5
        bad.flat[rng.randint(bad.size)] = True
        by = rng.choice([1e-40, 1e-25, 1e-20, 1e-15, 1e-12, 1e-3, .4], shape)
        d.imag = np.where(bad & (sign == 'positive'), np.abs(d.imag) * (by > 1e-4) + by, -np.abs(d.imag))
        end, out = call(rec, D, imp, loc, d)
        d = out if end == '' and rng.rand() < .7 else causals(D.z) * rng.uniform(.5, 2)


def mixing(rec, rng, i):
    nm, beta = int(rng.randint(2, 6)), float(rng.uniform(.5, 3.))
    imp = Imp(nm, beta)
    z = 1j * (2 * np.arange(nm) + 1) * np.pi / beta
    shape = ((nm,), (2, nm), (2, 2, nm))[int(rng.choice([0, 0, 1, 2]))]
    fix, c = np.reshape([causal(rng, z) for _ in range(int(np.prod(shape)) // nm)], shape), rng.uniform(0, .7, shape)
    loc = Loc(0., imp, lambda z: fix + c * (imp.solved - fix) if imp.steps else d0)
    d0 = fix + (rng.uniform(-1, 1, shape) + 1j * rng.uniform(-1, 0, shape)) * .5
    how = ['linear', 'broyden'][i % 2]
    alpha = float(rng.uniform(.2, 1.)) if how == 'linear' else float(rng.uniform(.2, .6))
    D = loop(rec, imp, loc, max_iter=int(rng.choice([2, 40])), tol=1e-3, occupancy_goal=np.array([1.]), alpha=float(rng.randint(3)))
    tried, gave = [], []
    inner = D.step

    def step(delta):
        r = inner(delta)
        tried.append(np.ravel(imp.solved))
        gave.append(np.ravel(loc.new))
        return r
    D.step = step
    loc.update(.3)
    imp.update(.3)
    end = ''
    kw = dict(iter=50) if how == 'linear' else dict(verbose=bool(i % 3 == 0))
    try:
        with quiet():
            D.solve(np.array(d0), how, alpha=alpha, **kw)
    except (Converged, FailedToConverge) as e:
        end = type(e).__name__
    rec.emit('mix', how=how, alpha=alpha, w=np.ravel(np.broadcast_to(D.weights, shape)), tried=tried, gave=gave, end=end, iter=kw.get('iter', 0))


def physical(rec, rng, i):
    """The real solver and lattice, each call recorded."""
    n, nm, beta = 2 + i % 2, 16, 10.
    imp = Gfimp(n, nmats=nm, U=float(rng.uniform(0, 4)), beta=beta)
    q, p = rng.uniform(.1, 1, 3), rng.uniform(-1, 1, 3)
    q /= q.sum()
    loc = Gfhilbert(lambda z: (q / (np.asarray(z)[..., None] - p)).sum(-1)) if i % 2 else Gfhybrid(rational(rng, 2, .4))
    loc.ed = 0.
    log = {}
    fit, solve, Delta = imp.fit, imp.solve, loc.Delta

    def fit_(d):
        log['used'] = np.array(d)
        fit(d)

    def solve_():
        log['steps'] = log.get('steps', 0) + 1
        log['mu'] = imp.mu
        solve()

    def Delta_(z):
        log['new'] = Delta(z)
        return np.array(log['new'])
    imp.fit, imp.solve, loc.Delta = fit_, solve_, Delta_
    D = loop(rec, imp, loc, max_iter=2, tol=1e-2, occupancy_goal=np.array([1.]) if i % 3 else None)
    d = D.initialize(3., lambda z: 0 * z)
    for _ in range(4):
        given, k = np.array(d), log.get('steps', 0)
        end, out = '', []
        try:
            with quiet():
                out = D(d)
        except (Converged, FailedToConverge) as e:
            end = type(e).__name__
        zz = np.array([.3 + .4j, 1.1j])
        rec.emit('iterate', given=given, used=log['used'], steps=log['steps'] - k, new=log['new'], out=out, last=D.delta, end=end, it=D.it,
                 mu=loc.mu, ed=[loc.ed], impmu=[log['mu']], impnow=[imp.mu], sigma=bool(np.array_equal(loc.Sigma(zz), imp.Sigma(zz))))
        if end:
            break
        d = .5 * (out + given) if rng.rand() < .5 else out


def run(rec, rng):
    gen = json.load(open(os.environ['VERIF_GEN']))
    order = np.random.RandomState(rec.seed).permutation(len(gen))
    mine = [gen[k] for k in order[rec.shard::rec.nshards]]
    for h in mine[:40] if rec.quick else mine * 3:
        rec.case('history', lambda: history(rec, rng, h, None if rng.rand() < .3 else np.array([1.])), max=h['max'])
    for i in range(6 if rec.quick else 100):
        rec.case('mixing', lambda: mixing(rec, rng, i))
    for i in range(2 if rec.quick else 30):
        rec.case('physical', lambda: physical(rec, rng, i))
    for i in range(3 if rec.quick else 40):
        def fn():
            n, nm, beta = 2 + i % 2, 12, 8.
            imp = SpinGfimp(n, nmats=nm, U=2., beta=beta)
            loc = Gfhybrid(rational(rng, 2, .4))
            loc.ed = float(rng.uniform(-1, 1))
            D = DMFT(imp, loc, max_iter=2, tol=1e-2)
            rec.emit('imp', act='new', n=n, U=2., beta=beta, spins=2, x=[np.array(p.Delta.x) for p in imp])
            mu, sign, field = float(rng.uniform(0, 2)), float(rng.choice([-1, 1])), float(rng.uniform(0, .5))
            with quiet():
                d = D.initialize_magnetic(2., lambda z: 0 * z, sign, field, mu)
            rec.emit('stepmu', mu=loc.mu, want=mu, impmu=[imp.up.mu, imp.dw.mu],
                     wantimp=[mu + sign * field - loc.ed, mu - sign * field - loc.ed], impnow=[imp.up.mu, imp.dw.mu])
            rec.emit('same', a=imp.up.Delta.x, b=imp.dw.Delta.x, c=imp.H[0] - np.diag(np.diag(imp.H[0])), d=imp.H[1] - np.diag(np.diag(imp.H[1])))
            rec.emit('same', a=np.array(loc.Sigma(D.z)).ravel().view(float), b=np.array(imp.Sigma(D.z)).ravel().view(float), c=[], d=[])
            rec.emit('same', a=np.array(d).ravel().view(float), b=np.array(loc.Delta(D.z)).ravel().view(float), c=[], d=[])
        rec.case('magnetic', fn)
