"""Initial baths, of the C library and of the Python module."""
import ctypes as ct
import numpy as np
import vshim
lib = vshim.backend()
from edpyt.fit_cg import get_initial_bath

CANARY = 7.25


def c_bath(k, fill):
    buf = np.full(2 * k + 8, CANARY)
    buf[4:-4] = fill
    ct.c_int.in_dll(lib, 'nbath').value = k
    lib.init_bath(ct.c_void_p(buf.ctypes.data + 4 * 8))
    return buf[4:-4].copy(), bool((buf[:4] == CANARY).all() and (buf[-4:] == CANARY).all())


def run(rec, rng):
    for k in list(range(1, 13)) + [15, 16, 21, 24, 33, 40, 64, 101, 150]:
        if not rec.mine(k):
            continue

        def c():
            for fill in (np.nan, 0., 1e300):
                x, ok = c_bath(k, fill)
                y, _ = c_bath(k, rng.randn())
                rec.emit('init', levels=k, band=2., x=x, margins=ok, again=bool(np.array_equal(x, y)))
            for band in (.5, 4.):
                b = ct.c_double.in_dll(lib, 'BANDWIDTH')
                old = b.value
                b.value = band
                try:
                    x, ok = c_bath(k, np.nan)
                finally:
                    b.value = old
                rec.emit('init', levels=k, band=band, x=x, margins=ok, again=True)
        rec.case('c', c, levels=k)

        def py():
            x = get_initial_bath(nbath=k)
            rec.emit('init', levels=k, band=2., x=x, margins=True, again=bool(np.array_equal(x, get_initial_bath(nbath=k))))
            buf = np.full(2 * k + 8, CANARY)
            p = buf[4:-4]
            p[:] = np.nan
            r = get_initial_bath(p=p)
            rec.emit('init', levels=k, band=2., x=p, margins=bool((buf[:4] == CANARY).all() and (buf[-4:] == CANARY).all()), again=bool(np.array_equal(r, x)))
            band = float(rng.uniform(.3, 5))
            rec.emit('init', levels=k, band=band, x=get_initial_bath(nbath=k, bandwidth=band), margins=True, again=True)
        rec.case('python', py, levels=k)
