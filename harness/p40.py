"""Averages over accepted samples: the histories of the specification."""
import json
import os
import numpy as np
import space
import vshim
from p39 import Numbers, fitted
from edpyt import dedlib
from edpyt.espace import build_espace


def matrix(fits, n):
    H = np.zeros((n, n))
    dedlib.build_moam(H, fits)
    return H


class Pool:
    """Samples by what the solver makes of them."""

    def __init__(self, rng, nimp, nb, W, U, sigma0, beta):
        self.rng, self.nimp, self.nb, self.W, self.U, self.s0, self.beta = rng, nimp, nb, W, U, sigma0, beta
        self.n = nimp * (nb + 1)
        c = rng.uniform(-.5, .5, nimp) * W
        g = W * 10. ** rng.uniform(-1, 0)
        self.dos = [lambda e, c=c[i]: g / ((e - c)**2 + g * g) for i in range(nimp)]
        self.lims = [-W, W]
        self.samplers = []
        for d in self.dos:
            self.samplers.append(dedlib.RandomSampler(d, self.lims, nb + 1, Numbers([])))
        self.found = {}

    def draw(self):
        us = self.rng.uniform(1e-6, 1 - 1e-6, (self.nimp, self.nb + 1))
        ps = []
        for s, u in zip(self.samplers, us):
            s.rng = Numbers(u)
            s()
            ps.append(s.poles.copy())
        fits = [fitted(p)[1] for p in ps]
        H = matrix(fits, self.n)
        V = np.zeros((self.n, self.n))
        V[:self.nimp, :self.nimp] = self.U
        H.flat[:self.nimp * (self.n + 1):self.n + 1] -= self.s0
        with space.using(dict(hf=False, mu=0., z=None)):
            full = space.full(dict(n=self.n), np.array([H, H]), V)
        w = np.sort(np.concatenate([s['w'] for s in full])) - min(s['w'][0] for s in full)
        if np.any((w > 1e-11) & (w < 2e-6)) or np.abs(ps).min() < 2e-6:     # which state is lowest must be clear
            return None
        low = [s for s in full if s['w'][0] < min(t['w'][0] for t in full) + 1e-9][0]
        occ = self.occupation(low)
        acc = []
        for i in range(self.nimp):
            sites = [i] + list(range(self.nimp + i * self.nb, self.nimp + (i + 1) * self.nb))
            d = abs(occ[sites].sum() - 2 * (ps[i] < 0).sum())
            if 1e-9 < d < 1e-3:
                return None
            if d < 1e-6:
                acc.append(i + 1)
        return dict(us=us, p=ps, fit=[dict(e0=float(f.e0), ek=f.ek, vk2=f.vk2) for f in fits], full=full), tuple(acc)

    def occupation(self, s):
        v = np.asarray(s['v'][0]).reshape(len(s['dw']), len(s['up']))**2
        up = [(np.asarray(s['up']) >> k) & 1 for k in range(self.n)]
        dw = [(np.asarray(s['dw']) >> k) & 1 for k in range(self.n)]
        return np.array([v.sum(0).dot(up[k]) + v.sum(1).dot(dw[k]) for k in range(self.n)])

    def get(self, acc, k=0, tries=24):
        """The k-th sample that is accepted for just these impurities."""
        while len(self.found.setdefault(acc, [])) <= k and tries:
            tries -= 1
            d = self.draw()
            if d:
                self.found.setdefault(d[1], []).append(d[0])
        return self.found[acc][k] if len(self.found[acc]) > k else None


def averages(rec, rng, pool, todo, z, solve, single):
    """Histories, given as lists of what the draws are accepted for."""
    sent = {}
    for asked, accepts in todo:
        ds, uses = [], {}
        for a in accepts:
            k = uses.get(a, 0)
            uses[a] = k + 1
            d = pool.get(a, k % 2)
            if d is None:
                break
            ds.append(d)
        else:
            for d in ds:
                if id(d) not in sent:
                    sent[id(d)] = len(sent) + 1
                    rec.emit('sample', p=d['p'], fit=d['fit'], full=d['full'], U=pool.U, sigma0=pool.s0, beta=pool.beta, z=z)
            us = [u for d in ds for u in d['us'].ravel()]
            extra = [u for d in ds for u in d['us'].ravel()] * 4
            rng2 = Numbers(us + extra)
            given = bool(rng.rand() < .5)
            shape = (z.size,) if single else (pool.nimp, z.size)
            buf = (rng.rand(*shape) + 1j * rng.rand(*shape)) * pool.W if given else None
            zz = z.copy()
            out = solve(zz, buf, asked, rng2)
            sigma = buf if given else out[0]
            rest = out if given else out[1:]
            rec.emit('average', draws=[sent[id(d)] for d in ds], accepts=[list(a) for a in accepts], asked=asked, used=rng2.k, numbers=pool.nimp * (pool.nb + 1),
                     occ0=np.atleast_1d(rest[0]), occ1=np.atleast_1d(rest[1]), entropy=[float(rest[2])] if single else [], sigma=np.atleast_2d(sigma), nz=z.size,
                     scale=pool.W, kept=bool(np.array_equal(zz, z)))


def frequencies(rng, W):
    return np.linspace(-W, W, 4) + 1j * W * rng.uniform(.3, 1., 4)


def run(rec, rng):
    def gen(name):
        d, f = os.path.split(os.environ['VERIF_GEN'])
        p = os.path.join(d, name + '_thorough.json')
        return [(g['asked'], [tuple(sorted(a)) for a in g['draws']]) for g in json.load(open(p if os.path.exists(p) else os.path.join(d, name + '.json')))]
    one, two = gen('MCDed'), gen('MCDed2')
    for i in range(3 if rec.quick else 60):
        def fn():
            nb = [1, 2, 1, 2][i % 4] if rec.quick else [1, 2, 2, 3][i % 4]
            W = float(rng.choice([.01, .02]))
            U = W * float(rng.choice([rng.uniform(.5, 4), 0.2, -rng.uniform(.5, 2)]))
            s0 = [None, 0., -W * float(rng.uniform(.2, 1)), W * float(rng.uniform(0, 2))][i % 4]
            beta = float(10. ** rng.uniform(.5, 2.5) / W)
            pool = Pool(rng, 1, nb, W, np.array([[U]]), np.array([U / 2 if s0 is None else s0]), beta)
            z = frequencies(rng, W)
            def solve(zz, buf, asked, numbers):
                kw = dict(sigma=buf, n=nb + 1, N=asked, U=U, beta=beta, rng=numbers)
                if s0 is not None:
                    kw['sigma0'] = s0
                return dedlib.siam_solve(pool.dos[0], zz, **kw)
            some = [one[k] for k in rng.permutation(len(one))[:3 if rec.quick else 12]]
            averages(rec, rng, pool, some, z, solve, True)
        rec.case('siam', fn)
    for i in range(3 if rec.quick else 40):
        def fn():
            nimp, nb = (2, 1) if i % 3 else (1, 1)
            W = float(rng.choice([.01, .02]))
            form = ['matrix', 'number', 'dict', 'matrix'][i % 4]
            u = W * rng.uniform(.5, 4, nimp)
            if form == 'number':
                u[:] = u[0]
            M = np.diag(u)
            if form != 'number' and nimp > 1:
                M[0, 1] = M[1, 0] = W * rng.uniform(0, 1)
            s0 = W * float(rng.uniform(.5, 2))
            if form == 'number' and rng.rand() < .7:
                s0 = None
            beta = float(10. ** rng.uniform(.5, 2.5) / W)
            pool = Pool(rng, nimp, nb, W, M, np.ones(nimp) * (u[0] / 2 if s0 is None else s0), beta)
            z = frequencies(rng, W)
            def solve(zz, buf, asked, numbers):
                arg = {'matrix': M.copy(), 'number': float(u[0]), 'dict': {'U': M.copy()}}[form]
                kw = dict(sigma=buf, n=pool.n, N=asked, U=arg, beta=beta, rng=numbers)
                if s0 is not None:
                    kw['sigma0'] = s0
                return dedlib.moam_solve(pool.dos, zz, **kw)
            todo = two if nimp > 1 else one
            some = [todo[k] for k in rng.permutation(len(todo))[:3 if rec.quick else 12]]
            averages(rec, rng, pool, some, z, solve, False)
        rec.case('moam', fn)
    for i in range(12 if rec.quick else 150):
        def fn():
            while True:
                lo, n = round(float(rng.uniform(-6, 0)), 2), int(rng.randint(100, 900))
                e = np.linspace(lo, lo + (n - 1) * 1e-2, n)
                if int((e.max() - e.min()) / 1e-2 + 1) == n:
                    break
            cutoff = float(rng.choice([2, 2, .7, 5.]))
            at = np.r_[rng.permutation(n)[:6], rng.permutation(n - 1)[:4] + .5]
            parts, total = [], np.zeros(n, complex)
            for k in [0] + list(rng.permutation(int(min(n // 2 - 1, 8 * n * 1e-2)))[:6]):
                if abs(k / (n * 1e-2) - cutoff) < 1e-6:
                    continue
                c = rng.normal(size=4)
                ph = 2 * np.pi * k * np.arange(n) / n
                v = c[0] * np.cos(ph) + c[1] * np.sin(ph) + 1j * (c[2] * np.cos(ph) + c[3] * np.sin(ph))
                total += v
                parts.append(dict(f=float(k / (n * 1e-2)), v=np.interp(at, np.arange(n), v.real) + 1j * np.interp(at, np.arange(n), v.imag)))
            # the samples may come in any order
            order = [np.arange(n), np.arange(n), np.arange(n)[::-1], rng.permutation(n)][i % 4]
            e0 = e[0], e[-1]
            e, total = e[order].copy(), total[order].copy()
            keep = total.copy(), e.copy()
            f = dedlib.smooth(e, total) if cutoff == 2 else dedlib.smooth(e, total, cutoff)
            rec.emit('smooth', parts=parts, cutoff=cutoff, out=f(e0[0] + at * 1e-2 * (1 - 1e-13)), outside=f(np.array([e0[0] - .1, e0[1] + 3.])),
                     kept=bool(np.array_equal(keep[0], total) and np.array_equal(keep[1], e)))
        rec.case('smooth', fn)
