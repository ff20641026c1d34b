"""Hybridisation, cost and gradient, in C and in Python."""
import ctypes as ct
import numpy as np
import vshim
lib = vshim.backend()
from edpyt.fit_cg import Delta, DDelta, Chi2, dChi2

lib.eval_chi2.restype = ct.c_double
P = ct.c_void_p


def grid(nm, beta):
    return 1j * (2 * np.arange(nm) + 1) * np.pi / beta


class CBath:
    """The globals of the C library, for one target."""

    def __init__(self, k, t, beta):
        nm = t.size
        self.k, self.t = k, t
        self.z = grid(nm, beta)
        self.delta = np.full(nm, np.nan, complex)
        self.dd = np.full((nm, 2 * k), np.nan, complex)
        self.rows = (P * nm)(*[self.dd.ctypes.data + i * 16 * 2 * k for i in range(nm)])
        self.use()

    def use(self):
        ct.c_int.in_dll(lib, 'nbath').value = self.k
        ct.c_int.in_dll(lib, 'nmats').value = self.t.size
        P.in_dll(lib, 'vals_true').value = self.t.ctypes.data
        P.in_dll(lib, 'delta').value = self.delta.ctypes.data
        P.in_dll(lib, 'z').value = self.z.ctypes.data
        P.in_dll(lib, 'ddelta').value = ct.addressof(self.rows)

    def all(self, x):
        p = P(x.ctypes.data)
        c = lib.eval_chi2(p)
        d = self.delta.copy()
        self.delta[:] = np.nan
        lib.eval_delta(p)
        d2 = self.delta.copy()
        g = np.full(x.size, np.nan)
        self.dd[:] = np.nan
        lib.eval_dchi2(p, P(g.ctypes.data))
        dd = self.dd.copy()
        self.dd[:] = np.nan
        lib.eval_ddelta(p)
        same = np.array_equal(d, d2) and np.array_equal(dd, self.dd)
        return c, d, dd, g, bool(same)


def run(rec, rng):
    for i in range(30 if rec.quick else 400):
        k = int(rng.choice([1, 1, 2, 3, 4, 5]))
        nm = int(rng.choice([1, 2, 5, 9]))
        if i % 10 == 9:
            k, nm = int(rng.choice([1, 2])), int(rng.choice([300, 500, 1500]))
        beta = float(rng.choice([.1, 1., 7.5, 70., 1e4]))
        x = np.r_[rng.uniform(-3, 3, k), rng.uniform(-1, 1, k)]
        if i % 4 == 0:
            x[rng.randint(x.size)] = 0.
        if i % 5 == 0 and k > 1:
            x[1] = x[0]
        t = rng.randn(nm) + 1j * rng.randn(nm) if i % 3 else (x[k:]**2 / (grid(nm, beta)[:, None] - x[:k])).sum(1)
        keep = x.copy(), t.copy()
        held = lambda: bool(np.array_equal(keep[0], x) and np.array_equal(keep[1], t))

        def c():
            b = CBath(k, t, beta)
            z = b.z.copy()
            for _ in range(1 + i % 2):
                cost, d, dd, g, same = b.all(x)
            rec.emit('cost', x=x, t=t, beta=beta, delta=d, cost=cost, grad=g, ddelta=dd if k * nm < 12 else None,
                     same=held() and same and bool(np.array_equal(z, b.z)))
        rec.case('c', c, levels=k, nmats=nm)

        def py():
            z = grid(nm, beta)
            delta, ddelta = Delta(z), DDelta(z, x.size)
            chi, dchi = Chi2(delta, t), dChi2(delta, ddelta, t)
            other = x + .1
            chi(other), dchi(other)                      # state left by earlier points must not matter
            cost = chi(x)
            g = np.array(dchi(x))
            rec.emit('cost', x=x, t=t, beta=beta, delta=delta(x).copy(), cost=cost, grad=g, ddelta=ddelta(x).copy() if k * nm < 12 else None,
                     same=held() and bool(np.array_equal(z, grid(nm, beta))))
        rec.case('python', py, levels=k, nmats=nm)
