"""Bath fits through every interface."""
import ctypes as ct
import numpy as np
import vshim
lib = vshim.backend()
from edpyt import fit_cffi, fit_cg
from edpyt_backend import fit_wrap
from p31 import grid


def target(rng, i, k, nm, beta):
    z = grid(nm, beta)
    x = np.r_[np.sort(rng.uniform(-2, 2, k)), rng.uniform(.2, .8, k)]
    exact = (x[k:]**2 / (z[:, None] - x[:k])).sum(1)
    if i % 3 == 0:
        return exact, x
    if i % 3 == 1:
        d = rng.uniform(.5, 2.5)
        return 2 * (z - 1j * np.sqrt(-(z**2 - d)).real) * rng.uniform(.2, .5), x
    m = 40
    e = rng.uniform(-2, 2, m)
    return (rng.rand(m) / m / (z[:, None] - e)).sum(1), x


def run(rec, rng):
    for i in range(24 if rec.quick else 200):
        k = int(rng.choice([1, 2, 3, 4, 6]))
        nm = int(rng.choice([4, 10, 25]))
        beta = float(rng.choice([.5, 5., 20., 70.]))
        t, x = target(rng, i, k, nm, beta)
        exact, near = i % 6 == 0, i % 6 == 3
        x0 = x.copy() if exact else x + rng.uniform(-1, 1, 2 * k) * 1e-3 if near else np.array(fit_cg.get_initial_bath(nbath=k)) if i % 2 else x + rng.uniform(-.3, .3, 2 * k)
        keep = t.copy()
        kw = dict(beta=beta, t=t, exact=exact, near=near)

        def cffi():
            def call(tt):
                y = x0.copy()
                it, f = fit_cffi.fit_hybrid(y, nm, tt, beta)
                return y, f
            y, f = call(t)
            again, _ = call(t)
            rec.emit('fit', x0=x0, x1=y, fret=f, told=True, again=again, same=bool(np.array_equal(keep, t)), **kw)
            wide = np.full(3 * nm, np.nan, complex)
            wide[::3] = t
            rec.emit('interface', a=y, b=call(wide[::3])[0], what='strided')
            y2 = x0.copy()
            it, fr = ct.c_int(0), ct.c_double()
            lib.fit(ct.c_void_p(y2.ctypes.data), ct.byref(it), ct.byref(fr), ct.c_int(k), ct.c_int(nm), ct.c_void_p(t.ctypes.data), ct.c_double(beta))
            rec.emit('interface', a=y, b=y2, what='library')
        rec.case('cffi', cffi, levels=k, nmats=nm)

        def wrap():
            junk = [np.full(2 * k, v) for v in (1e5, -3., np.nan)]          # memory the fit might start from
            del junk
            y = fit_wrap.fit_hybrid(k, nm, t, beta)
            junk = [np.full(2 * k, v) for v in (7., 1e-3)]
            del junk
            again = fit_wrap.fit_hybrid(k, nm, t, beta)
            start = np.array(fit_cg.get_initial_bath(nbath=k))
            rec.emit('fit', x0=start, x1=y, fret=0., told=False, again=again, same=bool(np.array_equal(keep, t)), beta=beta, t=t, exact=False, near=False)
            z = start.copy()
            fit_cffi.fit_hybrid(z, nm, t, beta)
            rec.emit('interface', a=y, b=z, what='wrap')
        rec.case('wrap', wrap, levels=k, nmats=nm)

        def python():
            def call():
                y = x0.copy()
                fit_cg.fit_hybrid(y, nm, t, beta)
                return y
            y = call()
            rec.emit('fit', x0=x0, x1=y, fret=0., told=False, again=call(), same=bool(np.array_equal(keep, t)), **kw)
        if k * nm <= (24 if rec.quick else 60):
            rec.case('python', python, levels=k, nmats=nm)
