"""What states and eigenspaces look like when displayed."""
import contextlib
import io
import re
import numpy as np
from edpyt.lookup import binrep, intrep, count_bits
from edpyt.eshow import eprint, fock, pdisplay
from edpyt.espace import build_espace, screen_espace

u = np.uint32


def plain(t):
    return t.replace('\u2191', 'u').replace('\u2193', 'd')


def parse(text):
    lines = []
    for block in [b for b in text.split('\n\n') if b.strip()]:
        head, body = block.strip().split('\n')
        m = re.match(r'\((.*)\): (\S+)$', head)
        q = [int(x) for x in m.group(1).split(',') if x.strip()]
        terms = [re.match(r'(\S+?)(\|.*>)$', plain(t)).groups() for t in body.strip().split(' + ')]
        lines.append(dict(q=q, e=m.group(2), coef=[a for a, _ in terms], labels=[b for _, b in terms]))
    return lines


def sectors(espace):
    out = []
    for q, s in espace.items():
        d = dict(q=[int(x) for x in q], w=s.eigvals, v=s.eigvecs.T)
        d.update(dict(states=s.states) if len(q) == 1 else dict(up=s.states.up, dw=s.states.dw))
        out.append(d)
    return out


def run(rec, rng):
    for k in range(60 if rec.quick else 1000):
        n = int(rng.randint(1, 31))
        s = int(rng.randint(0, 2**n))

        def rep():
            arr = binrep(u(s), n)
            rec.emit('rep', n=n, s=s, array=binrep(u(s), n), arr=binrep(s, n, 'arr'), string=binrep(s, n, 'string'), str=binrep(s, n, 'str'),
                     fromarray=intrep(arr), fromlist=intrep([int(x) for x in arr]), fromstring=intrep(binrep(s, n, 'string')), bits=count_bits(u(s), n))
        rec.case('representation', rep, n=n)
        m = int(rng.randint(1, 7))
        a, b = rng.randint(0, 2**m, 2)
        rec.case('label', lambda: rec.emit('label', n=m, u=a, d=b, text=plain(fock(u(a), u(b), m))), n=m)
    for k in range(6 if rec.quick else 60):
        n = int(rng.choice([1, 2, 2, 3] if k % 2 else [1, 2]))
        H = rng.randn(n, n)
        H = H + H.T
        V = np.diag(rng.uniform(0, 4, n))
        sym = 'sz' if k % 2 else 'N'
        if sym == 'N':
            H = np.diag(np.diag(H))
        if k % 4 > 1:                                     # levels of different sectors, close to each other
            H = np.array([H, H + 10. ** rng.uniform(-9, -3) * rng.choice([-1, 1]) * np.eye(n)])

        def show():
            es, egs = build_espace(H, V, symmetry=sym)
            if k % 3 == 2:
                screen_espace(es, egs, beta=2., cutoff=.05)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                eprint(es, n)
            rec.emit('summary', n=n, scts=sectors(es), lines=parse(out.getvalue()))
            marks = []

            class Ax:
                def hlines(self, y, a, b, *x, **kw):
                    marks.extend(zip(np.ravel(y).tolist(), np.ravel(a).tolist(), np.ravel(b).tolist()))
            pdisplay(es, Ax())
            rec.emit('draw', n=n, scts=sectors(es), marks=[list(x) for x in marks])
        rec.case('summary-' + sym, show, n=n)
