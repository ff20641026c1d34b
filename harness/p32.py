"""Bracketing, line minimisation and conjugate gradients of the C library, every evaluation recorded."""
import ctypes as ct
import numpy as np
import vshim
lib = vshim.backend()

D = ct.c_double
F1 = ct.CFUNCTYPE(D, D)
FN = ct.CFUNCTYPE(D, ct.POINTER(D))
GN = ct.CFUNCTYPE(None, ct.POINTER(D), ct.POINTER(D))
lib.dbrent.restype = D


def one_dim(rng, i):
    """(f, df, its minima or [], is it convex): functions bounded below."""
    a, c, s = rng.uniform(.05, 20), rng.uniform(-30, 30), 10. ** rng.uniform(-2, 2)
    if i % 7 == 0:
        return lambda x: a * (x - c)**2 + 1, lambda x: 2 * a * (x - c), [c], True
    if i % 7 == 1:
        return lambda x: a * (x - c)**4 - 3, lambda x: 4 * a * (x - c)**3, [c], False
    if i % 7 == 2:
        return lambda x: np.hypot(1, (x - c) / s), lambda x: (x - c) / s / s / np.hypot(1, (x - c) / s), [c], True
    if i % 7 == 3:
        return lambda x: a * x * x + 3 * np.cos(s * x), lambda x: 2 * a * x - 3 * s * np.sin(s * x), [], False
    if i % 7 == 4:
        return lambda x: (x * x - c * c)**2 / (1 + c * c), lambda x: 4 * x * (x * x - c * c) / (1 + c * c), [c, -c], False
    if i % 7 == 5:
        return lambda x: np.log1p((x - c)**2), lambda x: 2 * (x - c) / (1 + (x - c)**2), [c], False
    return lambda x: -1 / (1 + (x - c)**2 / s) + 1e-4 * x * x, lambda x: 2 * (x - c) / s / (1 + (x - c)**2 / s)**2 + 2e-4 * x, [], False


def bracket(f, a, b):
    ev = []

    def g(x):
        y = float(f(x))
        ev.append((x, y))
        return y
    v = [D(a), D(b), D(np.nan), D(np.nan), D(np.nan), D(np.nan)]
    lib.mnbrak(*[ct.byref(x) for x in v], F1(g))
    return [x.value for x in v], ev


def multi(rng, i, n):
    """(f, grad, convex quadratic?, minimum)"""
    if i % 3 == 0:
        Q = np.linalg.qr(rng.randn(n, n))[0]
        A = Q @ np.diag(10. ** rng.uniform(-.5, .5, n)) @ Q.T
        c, m = rng.randn(n), rng.randn()
        return lambda x: float((x - c) @ A @ (x - c)) + m, lambda x: 2 * A @ (x - c), True, m
    if i % 3 == 1:
        c, s = rng.randn(n), 10. ** rng.uniform(-.5, .5, n)
        return lambda x: float(np.sum(np.hypot(1, (x - c) * s))), lambda x: s * s * (x - c) / np.hypot(1, (x - c) * s), False, 0.
    c = rng.randn(n)
    return (lambda x: float(np.sum((x * x - c)**2) + .1 * np.sum(x[:-1] * x[1:]) + .01 * np.sum(x**2)),
            lambda x: 4 * x * (x * x - c) + .1 * (np.r_[x[1:], 0] + np.r_[0, x[:-1]]) + .02 * x, False, 0.)


def run(rec, rng):
    arr = lambda p, n: np.array(p[:n])
    for i in range(70 if rec.quick else 1000):
        f, df, mins, convex = one_dim(rng, i)
        a, b = (0., 1.) if i % 2 else tuple(rng.uniform(-5, 5, 2))

        def line():
            (x, y, z, fx, fy, fz), ev = bracket(f, a, b)
            rec.emit('bracket', a=x, b=y, c=z, fa=fx, fb=fy, fc=fz, f0=f(a), f1=f(b), ev=ev, mins=mins, convex=convex)
            ev = []

            def g(t):
                r = float(f(t))
                ev.append((t, r))
                return r
            tol = float(rng.choice([2e-4, 1e-6, 1e-2]))
            xm = D(np.nan)
            lo, hi = (x, z) if i % 3 else (z, x)
            r = lib.dbrent(D(lo), D(y), D(hi), F1(g), F1(lambda t: float(df(t))), D(tol), ct.byref(xm))
            rec.emit('lowest', a=lo, b=y, c=hi, fb=f(y), x=xm.value, f=r, ev=ev, tol=tol, mins=mins, convex=convex)
        rec.case('line', line, form=i % 7)
    # a function known only by what it answers: each way a bracket can end
    told = [[10., 1., .9, .5], [10., 1., .9, 5.], [10., 1., .9, .95, 3.], [2., 1., 0., -1.], [2., 1., 0., .5], [2., 1., -.618035, -9., -8.], [2., 1.9, -5., -6.], [1., 2., .5, .4]]
    for i in range(40 if rec.quick else 400):
        says = told[i] if i < len(told) else [float(x) for x in rng.uniform(-5, 5, int(rng.randint(2, 9)))]
        a, b = (0., 1.) if i < len(told) else tuple(float(x) for x in rng.uniform(-5, 5, 2))

        def answers():
            known = {}

            def f(x):
                if x not in known:
                    known[x] = says[len(known)] if len(known) < len(says) else 1e3 + len(known)
                return known[x]
            (x, y, z, fx, fy, fz), ev = bracket(f, a, b)
            rec.emit('bracket', a=x, b=y, c=z, fa=fx, fb=fy, fc=fz, f0=f(a), f1=f(b), ev=ev, mins=[], convex=False)
        rec.case('answers', answers)
    for i in range(50 if rec.quick else 600):
        n = int(rng.randint(1, 6))
        f, g, quad, fmin = multi(rng, i, n)
        p = rng.randn(n) * 2
        xi = -g(p) if i % 4 else rng.randn(n)
        if i % 17 == 5:
            xi[:] = 0.
        fn = FN(lambda x: float(f(arr(x, n))))

        def gn_(x, out):
            for j, v in enumerate(g(arr(x, n))):
                out[j] = v
        gn = GN(gn_)

        def move():
            P, X = (D * n)(*p), (D * n)(*xi)
            fret = D(np.nan)
            lib.dlinmin(P, X, ct.c_int(n), ct.byref(fret), fn, gn)
            p1 = arr(P, n)
            rec.emit('line', p0=p, xi0=xi, p1=p1, xi1=arr(X, n), fret=fret.value, f0=f(p), f1=f(p1), g0=g(p), g1=g(p1), convex=i % 3 < 2)
        rec.case('along-a-line', move, n=n)

        def descend():
            ev = []
            room = 6000

            def lf(x):
                x = arr(x, n)
                r = f(x)
                ev.append(dict(k='f', x=x, f=r))
                return r

            def lg(x, out):
                x = arr(x, n)
                r = g(x)
                ev.append(dict(k='d', x=x, f=r))
                for j, v in enumerate(r):
                    out[j] = v
            P = (D * n)(*p)
            it, fret = ct.c_int(0), D(np.nan)
            lib.frprmn(P, ct.c_int(n), D(1e-5), ct.byref(it), ct.byref(fret), FN(lf), GN(lg))
            p1 = arr(P, n)
            rec.emit('descent', p0=p, p1=p1, f0=f(p), f1=f(p1), fret=fret.value, iter=it.value, quad=quad, fmin=fmin, ev=ev[:room])
        rec.case('descent', descend, n=n, form=i % 3)
