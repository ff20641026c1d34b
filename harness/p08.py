"""Sessions: queries on one eigenspace, in the orders the specification generates."""
import contextlib
import copy
import hashlib
import io
import json
import os
import numpy as np
import space
import ham
from edpyt.build_mb_ham import build_mb_ham
from edpyt.espace import (adjust_neigsector, build_empty_sector, build_espace, build_non_interacting_espace, get_espace_dim,
                          screen_espace, solve_sector)
from edpyt.eshow import eprint
from edpyt.gf2_exact import build_gf2_exact
from edpyt.gf2_lanczos import build_gf2_lanczos, build_gf_offdiag
from edpyt.gf_exact import build_gf_exact
from edpyt.gf_lanczos import build_gf_lanczos
from edpyt.matvec_product import matvec_operator, todense
from edpyt.observs import get_evecs_occupation, get_occupation
from edpyt import cotnl, cotunneling, dedlib, sqtnl, sqtunneling


def digest(x):
    return hashlib.sha256(repr(space.freeze(x)).encode()).hexdigest()


def numbers(x):
    """Any answer as a short list of numbers."""
    out = []

    def walk(y):
        if isinstance(y, str):
            out.extend([float(len(y)), float(int(hashlib.sha256(y.encode()).hexdigest()[:8], 16))])
        elif isinstance(y, dict):
            for k, v in y.items():
                walk(list(k))
                walk(v)
        elif isinstance(y, (list, tuple, map)):
            for v in y:
                walk(v)
        else:
            a = np.asarray(y)
            out.extend(a.real.ravel().tolist())
            if np.iscomplexobj(a):
                out.extend(a.imag.ravel().tolist())
    walk(x)
    out = np.array([v if np.isfinite(v) else 1e300 for v in out], float)
    if out.size > 40:
        p = np.random.RandomState(out.size).uniform(-1, 1, (14, out.size))
        out = np.concatenate([p @ out, [out.size]])
    return out


class Imp:
    pass


class Data:
    """What the caller owns."""

    def __init__(self, rng, n, sym, m):
        self.m, self.n, self.sym = m, n, sym
        self.H, self.V = space.form(m, rng) if sym == 'sz' else ham.forms(m, rng)[0]
        self.args = dict(ek=rng.uniform(-1, 1, n), e=rng.uniform(-2, 2, 3), c=rng.uniform(0, 1, 64),
                         A=rng.uniform(.2, 1, (2, n)), mu=rng.uniform(-.5, .5, 2).tolist())
        self.locked = bool(rng.rand() < .3)                  # nobody may write to the caller's matrix
        self.H.flags.writeable = not self.locked
        with space.using(m):
            self.neig = get_espace_dim(n, None if rng.rand() < .5 else 4, symmetry=sym)
            self.espace, self.egs = build_espace(self.H, self.V, self.neig, symmetry=sym)
        w = np.unique(np.concatenate([s.eigvals for s in self.espace.values()]).round(6)) - self.egs
        k = len(w) // 2
        self.cut = dict(mild=dict(beta=1., cutoff=float(np.exp(-(w[k] + w[min(k + 1, len(w) - 1)]) / 2 - 1e-3))),
                        hard=dict(beta=1., cutoff=float(np.exp(-w[:2].sum() / 2))))
        self.beta = float(10. ** rng.uniform(-.3, 1.))
        self.pos = int(rng.randint(n))
        self.spin = int(rng.randint(2))

    def digests(self):
        return [digest(self.espace), digest([self.H, self.V]), digest(self.args)]

    def copy(self, version='built'):
        d = copy.deepcopy(self)
        d.H.flags.writeable = not self.locked
        for c in ('mild', 'hard'):
            if version == c:
                screen_espace(d.espace, d.egs, **d.cut[c])
        return d


def sector(d, i):
    q = list(d.espace)
    return d.espace[q[i % len(q)]]


def dense(d):
    s = sector(d, 1)
    ops = build_mb_ham(d.H, d.V, s)
    a = np.asarray(todense(*ops))
    return [a, matvec_operator(*ops)(d.args['c'][:s.d].copy())]


def solve(d):
    q = list(d.espace)[0]
    s = build_empty_sector(d.n, *q)
    w, v = solve_sector(d.H, d.V, s)
    return [w, np.abs(v).sum()]


def printed(d):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        eprint(d.espace, d.n)
    return f.getvalue()


def entropy(d):
    g = Imp()
    g.ek = d.args['ek']
    with space.using(dict(hf=False, mu=0., z=None)):
        return float(dedlib.get_entropy(g, d.espace, d.egs, d.beta))


def sequential(d):
    if d.sym == 'N':
        gf = sqtnl.build_transition_elements(d.n, d.espace, egs=d.egs)
        return [list(gf), sqtnl.build_rate_and_transition_matrices(gf, d.beta, d.args['mu'], d.args['A'], 0, 1)]
    gf = sqtunneling.build_transition_elements(d.n, d.egs, d.espace)
    return [list(gf), sqtunneling.build_rate_matrix(gf, d.beta, d.args['mu'], d.args['A']),
            sqtunneling.build_transition_matrix(gf, d.beta, d.args['mu'][0], d.args['A'][0])]


def cotunnel(d):
    if d.sym == 'N':
        sd = cotnl.build_transition_elements(d.n, d.espace, egs=d.egs)
        return [list(sd), cotnl.build_rate_and_transition_matrices(sd, d.beta, d.args['mu'], d.args['A'], 0, 1)]
    sd = cotunneling.build_transition_elements(d.n, d.egs, d.espace)
    return [list(sd), cotunneling.build_rate_matrix(sd, d.beta, d.args['mu'], d.args['A'], approx_integral=True),
            cotunneling.build_transition_matrix(sd, d.beta, d.args['mu'], d.args['A'], 0, 1, approx_integral=True)]


def vectors(d):
    s = sector(d, 2)
    return get_evecs_occupation(s.eigvecs, s.states.up, s.states.dw, d.n, d.args['c'][:s.eigvals.size])


def gf(d):
    return build_gf_lanczos(d.H, d.V, d.espace, d.beta, egs=d.egs, pos=d.pos, ispin=d.spin, repr=['cf', 'sp'][d.pos % 2])


def gf2(d):
    return build_gf2_lanczos(d.H, d.V, d.espace, d.beta, d.egs, ispin=d.spin)


def at(g, d):
    return g(d.args['e'], .4)


QUERIES = {
    'dense': dense, 'solve': solve, 'print': printed, 'entropy': entropy, 'sequential': sequential, 'cotunnelling': cotunnel,
    'vectors': vectors, 'gf': lambda d: at(gf(d), d), 'matrix': lambda d: at(gf2(d), d),
    'exact': lambda d: at(build_gf_exact(d.H, d.V, d.espace, d.beta, d.egs, pos=d.pos, ispin=d.spin), d),
    'exact-matrix': lambda d: at(build_gf2_exact(d.H, d.V, d.espace, d.beta, d.egs, ispin=d.spin), d),
    'off': lambda d: at(build_gf_offdiag(d.H, d.V, d.espace, d.beta, 0, d.n - 1, ispin=d.spin, egs=d.egs), d),
    'occupation': lambda d: get_occupation(d.espace, d.egs, d.beta, d.n),
    'free': lambda d: [[q, s.eigvals] for q, s in build_non_interacting_espace(d.args['ek'])[0].items()]}
HOLDS = {'gf': gf, 'gf2': gf2}
TOTAL = {'dense', 'solve', 'print', 'sequential', 'cotunnelling', 'free', 'entropy'}      # of the total charge alone


def perform(rec, d, act, name, held, counts):
    """One operation: (answer, what it raised)."""
    if act == 'query':
        out, why = rec.attempt(lambda: numbers(QUERIES[name](d)))
    elif act == 'screen':
        out, why = rec.attempt(lambda: screen_espace(d.espace, d.egs, **d.cut[name]))
    elif act == 'adapt':
        out, why = rec.attempt(lambda: adjust_neigsector(d.espace, counts, d.n)) if d.sym == 'sz' else (None, '')
    elif act == 'hold':
        held[name], why = rec.attempt(lambda: HOLDS[name](d))
        out = None
    else:
        out, why = rec.attempt(lambda: numbers(at(held[name], d))) if held[name] is not None else (None, 'NotHeld')
    return (out if isinstance(out, np.ndarray) else []), why


def run(rec, rng):
    gen = json.load(open(os.environ['VERIF_GEN']))
    order = np.random.RandomState(rec.seed).permutation(len(gen))
    mine = [gen[k] for k in order[rec.shard::rec.nshards]][:1500]
    models = 3 if rec.quick else 60
    per = (30 if rec.quick else -(-len(mine) // models))
    for i in range(models):
        hists = mine[i * per:(i + 1) * per] or mine[:per]

        def fn():
            n = [2, 1, 2, 3, 2][(i + rec.shard) % 5]
            sym = 'N' if (i * 3 + rec.shard) % 4 == 2 else 'sz'
            if n == 3 and sym == 'N':
                n = 2
            m = space.model(rng, n, ['plain', 'spin', 'hubbard', 'exchange', 'levels'][rng.randint(5)] if sym == 'sz' else 'levels')
            d0 = Data(rng, n, sym, m)
            with space.using(m):
                for v in ('built', 'mild', 'hard'):
                    rec.emit('data', version=v, digest=d0.copy(v).digests()[0])
                    for q in QUERIES:
                        if sym == 'sz' or q in TOTAL:
                            d = d0.copy(v)
                            before = d.digests()
                            out, why = perform(rec, d, 'query', q, {}, None)
                            rec.emit('fresh', name=q, version=v, out=out, raised=why, before=before, after=d.digests())
                            if q == 'gf':
                                rec.emit('fresh', name='gf', version=v, out=out, raised=why, before=before, after=d.digests())
                            if q == 'matrix':
                                rec.emit('fresh', name='gf2', version=v, out=out, raised='NotHeld' if why else '', before=before, after=d.digests())
                for h in hists:
                    if sym == 'N':
                        h = [x for x in h if x[0] in ('screen', 'adapt') or x[1] in TOTAL]
                    d, held, counts = d0.copy(), {}, d0.neig.copy()
                    rec.emit('begin')
                    for act, name in h:
                        before = d.digests()
                        out, why = perform(rec, d, act, name, held, counts)
                        rec.emit('step', act=act, name=name, out=out, raised=why, before=before, after=d.digests())
        rec.case('session', fn)
