"""Collections of impurities: each of them has a history of its own, and loops over clusters."""
import numpy as np
import space
from p34 import call, loop, quiet
from p35 import holds, parts, shown, solved, somewhere
from p36 import rational
from p37 import cluster, maps
from edpyt.dmft import Converged, FailedToConverge, DMFT, Gfimp as One, SpinGfimp
from edpyt.espace import get_espace_dim
from edpyt.nano_dmft import Gfimp, Gfloc


class Lives:
    """The events of every site, to be told one site after the other."""

    def __init__(self, k):
        self.of = [[] for _ in range(k)]

    def __call__(self, op, each):
        for mine, kw in zip(self.of, each):
            mine.append((op, kw))

    def tell(self, rec, **kw):
        for k, mine in enumerate(self.of):
            def fn():
                for op, x in mine:
                    rec.emit(op, **x)
            rec.case('site', fn, site=k, **kw)


def collection(rng, k, spin, n, nm, beta, neig=None):
    U = [float(rng.choice([0., rng.uniform(.5, 6.), rng.uniform(-4., -.5)])) for _ in range(k)]
    gs = [(SpinGfimp if spin else One)(n, nmats=nm, U=u, beta=beta, neig=None if neig is None else neig.copy(), adjust_neig=neig is not None) for u in U]
    return Gfimp(gs), gs, U


def history(rec, rng, i):
    k, n, spin = int(rng.randint(1, 4)), 2 + (i % 5 == 4), bool(i % 2)
    nm, beta = int(rng.randint(6, 16)), float(10. ** rng.uniform(.3, 1.2))
    g, gs, U = collection(rng, k, spin, n, nm, beta, get_espace_dim(n, int(rng.randint(1, 4))) if i % 3 == 2 else None)
    w = 1j * (2 * np.arange(nm) + 1) * np.pi / beta
    tell = Lives(k)
    every = lambda act, **kw: tell('imp', [dict(act=act, **{a: b[j] for a, b in kw.items()}, **holds(x)) for j, x in enumerate(gs)])
    tell('imp', [dict(act='new', n=n, U=u, beta=beta, spins=1 + spin, x=[np.array(p.Delta.x) for p in parts(x)]) for x, u in zip(gs, U)])
    tell('first', [dict(same=bool(len(g) == k and all(g[j] is gs[j] for j in range(k)) and all(a is b for a, b in zip(g, gs))
                                  and g.nmats == nm and g.beta == beta and g.n == n and (g.mu == gs[0].mu)))] * k)
    todo = ['fit', 'update', 'solve', 'values'] + (['moments'] if spin else [])
    todo += [['fit', 'update', 'solve', 'values', 'reset', 'up', 'dw', 'fit-up', 'symmetrize'][rng.randint(9 if spin else 5)] for _ in range(5)]
    todo += ['solve', 'values'] + (['moments'] if spin else [])
    for act in todo:
        if act == 'reset':
            g.reset_bath()
            every('reset')
        if act in ('fit', 'reset'):
            t = [[rational(rng, int(rng.randint(1, 3)), .5)(w) for _ in parts(x)] for x in gs]
            g.fit(np.array(t) if spin else np.array(t)[:, 0])
            every('fit', nmats=[nm] * k, target=t)
        elif act == 'fit-up':
            t = [[rational(rng, int(rng.randint(1, 3)), .5)(w)] for _ in gs]
            g.up.fit(np.array(t)[:, 0])
            every('fit-up', nmats=[nm] * k, target=t)
        elif act in ('update', 'up', 'dw'):
            mu = rng.uniform(-2, 4, k)
            if rng.rand() < .4:
                mu[:] = mu[0]
            (g if act == 'update' else getattr(g, act)).update(mu if np.ptp(mu) or rng.rand() < .5 else float(mu[0]))
            every('update' if act == 'update' else 'update-' + act, to=mu)
        elif act == 'symmetrize':
            g.spin_symmetrize()
            every('symmetrize')
        elif act == 'solve':
            tell('solve', solved(gs, g.solve))
        elif act == 'values':
            z = somewhere(rng, w)
            S = g.Sigma(z)
            tell('values', [shown(x, z, S[j] if len(S) == k else []) for j, x in enumerate(gs)])
        elif act == 'moments':
            m = g.get_local_moments()
            tell('moment', [dict(out=m[j] if len(m) == k else 1e9) for j in range(k)])
    return tell


class Seen(Gfimp):
    """Notes what the loop does with the impurities."""
    used, steps, mus = None, 0, None

    def fit(self, delta):
        self.used = np.array(delta)
        super().fit(delta)

    def solve(self):
        self.steps += 1
        self.mus = self.mu
        super().solve()

    @property
    def mu(self):
        return np.array([g.mu for g in self])


class Lattice(Gfloc):
    def Delta(self, z):
        self.new = np.array(super().Delta(z))
        return np.array(self.new)


def lattice(rng, n, neq, inv, i):
    H, S = cluster(rng, n, i)
    A = rng.uniform(-.3, .3, (n, n))
    f = rational(rng, 2)
    return Lattice(H, S, lambda z: (A @ A.T) * f(z), neq, inv), H


def cycle(rec, rng, i):
    """A loop over the sites of a cluster."""
    n = 2 + i % 2
    ms = maps(n)
    neq, inv = ms[rng.randint(len(ms))]
    k, nm, beta = len(neq), 8, 8.
    _, gs, U = collection(rng, k, False, 2, nm, beta)
    imp = Seen(gs)
    loc, H = lattice(rng, n, neq, inv, i)
    D = loop(rec, imp, loc, max_iter=2, tol=1e-3, alpha=float(rng.choice([0., 1.])))
    mu = float(rng.uniform(-1, 2))
    given = bool(rng.randint(2))
    sig = lambda z: np.zeros((k, np.size(z)), complex)
    x0 = [np.array(g.Delta.x) for g in gs]
    for g in gs:
        g.Delta.x[:] = 0.
    d = D.initialize(2 * mu, sig, mu if given else None)
    rec.emit('initialize', U=2 * mu, given=[mu] if given else [], mu=loc.mu, impmu=imp.mu, ed=H.diagonal()[neq], sigma=loc.Sigma is sig,
             reset=all(np.array_equal(a, g.Delta.x) for a, g in zip(x0, gs)), out=np.ravel(d), want=np.ravel(loc.new))
    for _ in range(3):
        with space.using(dict(hf=False, mu=0., z=None)):
            end, out = call(rec, D, imp, loc, d)
        if end:
            break
        d = .5 * (out + d)


def magnetic(rec, rng, i):
    n = 2 + i % 2
    ms = maps(n)
    neq, inv = ms[rng.randint(len(ms))]
    k, nm, beta = len(neq), 8, 8.
    _, gs, U = collection(rng, k, True, 2, nm, beta)
    imp = Gfimp(gs)
    loc, H = lattice(rng, n, neq, inv, i)
    D = DMFT(imp, loc, max_iter=2, tol=1e-3)
    mu, sign, field = float(rng.uniform(0, 2)), rng.choice([-1., 1.], k) if i % 2 else float(rng.choice([-1., 1.])), float(rng.uniform(0, .5))
    with quiet(), space.using(dict(hf=False, mu=0., z=None)):
        d = D.initialize_magnetic(2., lambda z: np.zeros((k, np.size(z)), complex), sign, field, mu)
    now = [p.mu for g in gs for p in (g.up, g.dw)]
    e = H.diagonal()[neq]
    rec.emit('stepmu', mu=loc.mu, want=mu, impmu=now, impnow=now, wantimp=np.ravel([mu + sign * field - e, mu - sign * field - e], 'F'))
    off = lambda A: A - np.diag(np.diag(A))
    flat = lambda x: np.ravel(x).view(float)
    for g in gs:
        rec.emit('same', a=g.up.Delta.x, b=g.dw.Delta.x, c=off(g.H[0]), d=off(g.H[1]))
    rec.emit('same', a=flat(loc.Sigma(D.z)), b=flat([[p.Sigma(D.z) for p in g] for g in gs]), c=[], d=[])
    rec.emit('same', a=flat(d), b=flat(loc.Delta(D.z)), c=[], d=[])


def run(rec, rng):
    for i in range(4 if rec.quick else 60):
        box = []
        rec.case('collection', lambda: box.append(history(rec, rng, i)))
        for t in box:
            t.tell(rec)
    for i in range(2 if rec.quick else 30):
        rec.case('cycle', lambda: cycle(rec, rng, i))
        rec.case('magnetic', lambda: magnetic(rec, rng, i + rec.shard))
