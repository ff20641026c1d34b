"""Sparse kernels and the operator built from them."""
import ctypes
import numpy as np
import scipy.sparse as sp
from edpyt import _psparse
from edpyt.ham_hopping import UpHopping, DwHopping
from edpyt.ham_non_local import NonLocal
from edpyt.ham_local import Local
from edpyt.matvec_product import matvec_operator, todense

try:
    _omp = ctypes.CDLL('libgomp.so.1').omp_set_num_threads
except OSError:
    _omp = lambda k: None

KERNEL = {'up': _psparse.UPmultiply, 'dw': _psparse.DWmultiply, 'full': _psparse.Multiply}


def csr(A):
    A = sp.csr_matrix(A)
    return dict(m=A.shape[0], n=A.shape[1], indptr=A.indptr, indices=A.indices, data=A.data)


def sparse(rng, m, density, ints, dup=False):
    """A random matrix; some rows empty, indices unsorted, perhaps duplicates."""
    M = (rng.rand(m, m) < density)
    M[rng.rand(m) < .2] = False
    rows, cols = M.nonzero()
    if dup and rows.size:
        pick = rng.randint(0, rows.size, rows.size // 3 + 1)
        rows, cols = np.r_[rows, rows[pick]], np.r_[cols, cols[pick]]
    o = rng.permutation(rows.size)
    rows, cols = rows[o], cols[o]
    o = np.argsort(rows, kind='stable')
    rows, cols = rows[o], cols[o]
    data = rng.randint(1, 4, rows.size).astype(float) * rng.choice([-1, 1], rows.size) if ints else rng.randn(rows.size) * 10. ** rng.randint(-3, 4)
    indptr = np.r_[0, np.cumsum(np.bincount(rows, minlength=m))].astype(np.int32)
    return sp.csr_matrix((data, cols.astype(np.int32), indptr), shape=(m, m))


def run(rec, rng):
    quick = rec.quick
    # kernels
    for i in range(60 if quick else 400):
        kind = ('up', 'dw', 'full')[i % 3]
        ints = rng.rand() < .5
        m = rng.choice([1, 2, 3, 5, 8, 13])
        other = 1 if kind == 'full' else rng.choice([1, 2, 3, 4, 7])
        A = sparse(rng, m, rng.choice([0., .1, .4, 1.]), ints, rng.rand() < .3)
        N = m * other
        w = rng.randint(-3, 4, N).astype(float) if ints else rng.randn(N)
        y = np.zeros(N) if rng.rand() < .3 else (rng.randint(-3, 4, N).astype(float) if ints else rng.randn(N))
        threads = int(rng.choice([1, 2, 3, 8, 16]))

        def kernel():
            _omp(threads)
            c = [A.indptr.copy(), A.indices.copy(), A.data.copy(), w.copy()]
            before = csr(A)
            out = y.copy()
            KERNEL[kind](A, w, out)
            same = all(np.array_equal(a, b) for a, b in zip(c, [A.indptr, A.indices, A.data, w]))
            rec.emit('kernel', kind=kind, A=before, w=c[3], y=y, out=out, threads=threads, same=same)
        rec.case('kernel', kernel)
    # long vectors, of lengths that are and are not multiples of powers of two
    for i in range(3 if quick else 24):
        kind = ('dw', 'up', 'full')[i % 3]
        long = int(rng.choice([255, 257, 513, 700, 1023, 1025, 1716, 2049, 4097]))
        m, other = dict(dw=(int(rng.randint(2, 5)), long), up=(long, 2), full=(3 * long, 1))[kind]
        A = sparse(rng, m, min(1., 3. / m), True)
        w, y = [rng.randint(-3, 4, m * other).astype(float) for _ in range(2)]

        def longer():
            _omp(int(rng.choice([1, 3, 8])))
            before, keep = csr(A), w.copy()
            out = y.copy()
            KERNEL[kind](A, w, out)
            rec.emit('kernel', kind=kind, A=before, w=keep, y=y, out=out, threads=0, same=bool(np.array_equal(w, keep)))
        rec.case('long', longer)
    # many threads on the same data, again and again
    for i in range(3 if quick else 12):
        kind = ('up', 'dw', 'full')[i % 3]
        m, other = (24, 24) if kind != 'full' else (400, 1)
        A = sparse(rng, m, 6. / m, True)
        w = rng.randint(-3, 4, m * other).astype(float)
        y = rng.randint(-3, 4, m * other).astype(float)

        def stress():
            outs = {}
            for r in range(200 if quick else 1000):
                _omp(int((1, 2, 4, 8, 7, 16)[r % 6]))
                out = y.copy()
                KERNEL[kind](A, w, out)
                outs.setdefault(out.tobytes(), out)
            outs = list(outs.values())[:3]
            rec.emit('stress', kind=kind, A=csr(A), w=w, y=y, outs=outs)
        rec.case('stress', stress)
    # the operator
    for i in range(30 if quick else 200):
        dup, dwn = int(rng.choice([1, 2, 3, 6])), int(rng.choice([1, 2, 3, 4, 6]))
        N = dup * dwn
        up, dw = sparse(rng, dup, .5, False), sparse(rng, dwn, .5, False)
        full = sparse(rng, N, 2. / N, False)
        diag = rng.randn(N)
        which = ('diag+hop', 'diag+hop+nl', 'diag+nl', 'diag')[i % 4]

        def operator():
            ops = [diag.copy().view(Local)]
            parts = [dict(kind='diag', diag=diag)]
            if 'hop' in which:
                ops += [UpHopping((up.data, up.indices, up.indptr), dwn, shape=up.shape),
                        DwHopping((dw.data, dw.indices, dw.indptr), dup, shape=dw.shape)]
                parts += [dict(kind='up', A=csr(up)), dict(kind='dw', A=csr(dw))]
            if 'nl' in which:
                ops.append(NonLocal((full.data, full.indices, full.indptr), shape=full.shape))
                parts.append(dict(kind='full', A=csr(full)))
            rec.emit('operator', parts=parts, N=N)
            mv = matvec_operator(*ops)
            for r in range(3):
                w = rng.randn(N)
                keep = w.copy()
                buf = np.full(N, 7.) if r == 1 else None
                out = mv(w, buf) if r == 1 else mv(w)
                held = r != 1 or np.array_equal(buf, out)
                rec.emit('apply', w=keep, out=out, same=bool(np.array_equal(w, keep)), held=held)
            D = todense(*ops)
            rec.emit('dense', D=np.asarray(D), same=bool(np.array_equal(ops[0], diag)))
            w = rng.randn(N)
            rec.emit('apply', w=w, out=mv(w), same=True, held=True)
        rec.case(which, operator)
