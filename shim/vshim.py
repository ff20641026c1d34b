"""Import before anything of edpyt: stand-ins for what this sandbox lacks."""
import os
import sys
import types as _t

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def _numba():
    try:
        import numba                                       # the real one, if there is one
        return
    except ImportError:
        pass
    sys.path.append(HERE)


def _scipy():
    """scipy.fft and scipy.spatial have pybind11 modules PyPy cannot load."""
    if sys.implementation.name != 'pypy':
        return
    import numpy as np

    def c2c(x, axes=None, forward=True, inorm=0, out=None, nthreads=1):
        f = np.fft.fftn if forward else np.fft.ifftn
        ax = tuple(range(np.ndim(x))) if axes is None else tuple(axes)
        r = f(x, axes=ax)
        n = np.prod([np.shape(x)[a] for a in ax])
        if forward:
            return r / (n if inorm == 2 else n ** .5 if inorm == 1 else 1)
        return r * (n if inorm == 0 else n ** .5 if inorm == 1 else 1)

    def r2r(x, axes=None, forward=True, inorm=0, out=None, nthreads=1):
        raise NotImplementedError

    def r2c(x, axes=None, forward=True, inorm=0, out=None, nthreads=1):
        r = np.fft.rfft(x, axis=axes[-1])
        return r if forward else np.conj(r)

    for name, known in (('scipy.fft._pocketfft.pypocketfft', {'c2c': c2c, 'r2c': r2c}),
                        ('scipy.spatial._distance_pybind', {})):
        m = _t.ModuleType(name)

        def ga(attr):
            if attr.startswith('__'):
                raise AttributeError(attr)
            return lambda *a, **k: None
        m.__dict__.update(known)
        m.__getattr__ = ga
        sys.modules[name] = m


def _ext(mod, path):
    import glob
    import importlib.util
    import importlib.machinery
    so = glob.glob(path)[0]
    loader = importlib.machinery.ExtensionFileLoader(mod, so)
    spec = importlib.util.spec_from_file_location(mod, so, loader=loader)
    m = importlib.util.module_from_spec(spec)
    sys.modules[mod] = m
    loader.exec_module(m)
    return m


def _built():
    """The compiled parts, built by lib/build.py from the tree under test."""
    import edpyt
    d = os.environ.get('VERIF_EXT')
    if d:
        for name in ('_psparse', '_continued_fraction'):
            setattr(edpyt, name, _ext('edpyt.' + name, os.path.join(d, 'edpyt', name + '*.so')))


def backend():
    """edpyt_backend with the C library built from the tree under test."""
    import ctypes
    d = os.environ['VERIF_BACKEND']
    real = ctypes.CDLL

    def cdll(name, *a, **k):
        if os.path.basename(str(name)) == 'libfit.so':
            name = os.path.join(d, 'libfit.so')
        return real(name, *a, **k)
    ctypes.CDLL = cdll
    lib = real(os.path.join(d, 'libfit.so'))
    _ext('edpyt_backend._fit', os.path.join(d, '_fit*.so'))
    import edpyt_backend
    edpyt_backend._fit = sys.modules['edpyt_backend._fit']
    return lib


def install(mpi=False):
    sys.dont_write_bytecode = True
    if mpi:
        import fakempi
        fakempi.install()
    _numba()
    _scipy()
    for name in ('traitlets', 'matplotlib', 'ase'):
        try:
            __import__(name)
        except ImportError:
            if HERE not in sys.path:
                sys.path.append(HERE)
    sys.path.insert(0, REPO)
    _built()
