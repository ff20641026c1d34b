"""Fermion operators on every pattern of few modes, and on random ones of many."""
import numpy as np
from edpyt.operators import flip, fsgn, get_parity, cdg, c, cdgc, check_full, check_empty
from edpyt.lookup import count_bits
from p01 import modes

u = np.uint32


def run(rec, rng):
    for n in range(1, 7 if rec.quick else 10):
        if not rec.mine(n):
            continue

        def act():
            S = range(2**n)
            e = dict(cdg=[], c=[], hop=[], check=[], bits=[])
            for s in S:
                e['bits'].append([s, count_bits(u(s), n)])
                for i in range(n):
                    e['check'].append([s, i, int(check_full(u(s), i)), int(check_empty(u(s), i))])
                    if s >> i & 1:
                        sg, t = c(u(s), i, n)
                        e['c'].append([s, i, int(sg), int(t)])
                        for j in range(n):
                            if not s >> j & 1:
                                sg, t = cdgc(u(s), j, i)
                                e['hop'].append([s, j, i, int(sg), int(t)])
                    else:
                        sg, t = cdg(u(s), i, n)
                        e['cdg'].append([s, i, int(sg), int(t)])
            rec.emit('act', n=n, all=True, **e)
        rec.case('every-pattern', act, n=n)
    for k in range(80 if rec.quick else 2000):
        n = int(rng.randint(2, 33))
        occ = rng.rand(n) < rng.uniform(.1, .9)
        i = int(rng.choice([0, n - 1, rng.randint(n)]))
        j = int(rng.randint(n))
        s = u(sum(1 << m for m in range(n) if occ[m]))

        def wide():
            kw = dict(n=n, modes=modes(s), bits=count_bits(s, n), j=j)
            chk = lambda m: dict(full=int(check_full(s, m)), empty=int(check_empty(s, m)))
            if occ[i]:
                sg, t = c(s, i, n)
                b, r = cdg(u(t), i, n)
                rec.emit('wide-act', kind='c', i=i, sign=sg, to=modes(t), back=dict(sign=int(b * sg), modes=modes(r)), **kw, **chk(i))
                if not occ[j]:
                    sg, t = cdgc(s, j, i)
                    b, r = cdgc(u(t), i, j)
                    rec.emit('wide-act', kind='hop', n=n, modes=modes(s), i=j, j=i, sign=sg, to=modes(t), bits=kw['bits'],
                             back=dict(sign=int(b * sg), modes=modes(r)), **chk(j))
            else:
                sg, t = cdg(s, i, n)
                b, r = c(u(t), i, n)
                rec.emit('wide-act', kind='cdg', i=i, sign=sg, to=modes(t), back=dict(sign=int(b * sg), modes=modes(r)), **kw, **chk(i))
            if i != j:
                op = lambda m, x: c(x, m, n) if int(x) >> m & 1 else cdg(x, m, n)
                s1, x1 = op(i, s)
                s2, x2 = op(j, u(x1))
                t1, y1 = op(j, s)
                t2, y2 = op(i, u(y1))
                rec.emit('algebra', n=n, ab=[int(s1 * s2), modes(x2)], ba=[int(t1 * t2), modes(y2)])
        rec.case('wide', wide, n=n, i=i, j=j)
