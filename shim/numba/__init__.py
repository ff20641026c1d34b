"""A stand-in for numba (not installed here): it runs the decorated Python
bodies, but keeps numba's contract with its callers.  Scalars are converted to
the declared types, arrays must have the declared dtype, dimension and layout,
results are boxed as Python numbers."""
import functools
import inspect
import re
import numpy as np
from . import types
from .types import (float64, float32, int64, int32, uint32, uint64, boolean, complex128,
                    Type, Array, Tuple, UniTuple, void, Signature)

prange = range
_np = {'float64': np.float64, 'float32': np.float32, 'int64': np.int64, 'int32': np.int32,
       'uint32': np.uint32, 'uint64': np.uint64, 'boolean': np.bool_, 'complex128': np.complex128}


def _sigs(args):
    out = []
    for a in args:
        for s in (a if isinstance(a, list) else [a]):
            if isinstance(s, str):
                s = eval(s, {k: getattr(types, k) for k in dir(types)})
            if isinstance(s, tuple):
                s = Signature(None, s)
            out.append(s)
    return out


def _scalar_in(t, x):
    """The value numba would pass for x, or None if the call does not match."""
    if isinstance(x, np.ndarray):
        if x.ndim:
            return None
        x = x[()]
    k = t.name
    if isinstance(x, (bool, np.bool_)):
        kind = 'b'
    elif isinstance(x, (int, np.integer)):
        kind = 'i'
    elif isinstance(x, (float, np.floating)):
        kind = 'f'
    elif isinstance(x, (complex, np.complexfloating)):
        kind = 'c'
    else:
        return None
    if k == 'boolean':
        return bool(x)
    if k in ('float64', 'float32'):
        return None if kind == 'c' else float(x)
    if k == 'complex128':
        return complex(x)
    if kind in 'fc':
        return None                                  # no safe conversion to an integer
    v = int(x)
    if k in ('uint32', 'uint64'):
        return _np[k](v & (0xffffffff if k == 'uint32' else 0xffffffffffffffff))
    bits = 32 if k == 'int32' else 64
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def _array_in(t, x):
    if not isinstance(x, np.ndarray) or x.ndim != t.ndim or x.dtype != _np[t.dtype.name]:
        return None
    if t.layout == 'C' and not x.flags.c_contiguous:
        return None
    if t.layout == 'F' and not x.flags.f_contiguous:
        return None
    if not t.readonly and not x.flags.writeable:
        return None
    return x


def _in(t, x):
    return _array_in(t, x) if isinstance(t, Array) else _scalar_in(t, x)


def _box(t, r):
    if t is None or t is void:
        return r if t is None else None
    if isinstance(t, Tuple):
        if len(r) != len(t.elts):
            raise TypeError('numba: tuple of the wrong length returned')
        return tuple(_box(u, x) for u, x in zip(t.elts, r))
    if isinstance(t, Array):
        return r
    v = _scalar_in(t, r)
    if v is None:
        raise TypeError('numba: cannot box %r as %s' % (r, t.name))
    return int(v) if t.name in ('uint32', 'uint64') else v


def _unbox(r):
    if isinstance(r, np.generic):
        return r.item()
    if isinstance(r, tuple):
        return tuple(_unbox(x) for x in r)
    return r


def _compile(fn, sigs):
    if not sigs:
        @functools.wraps(fn)
        def lazy(*args, **kw):
            return _unbox(fn(*args, **kw))
        lazy.py_func = fn
        return lazy
    spec = inspect.signature(fn)
    simple = all(p.default is p.empty for p in spec.parameters.values())
    one = sigs[0] if len(sigs) else None

    @functools.wraps(fn)
    def call(*args, **kw):
        if kw or not simple:
            b = spec.bind(*args, **kw)
            b.apply_defaults()
            args = b.args
        for s in sigs:
            if len(s.args) != len(args):
                continue
            conv = []
            for t, x in zip(s.args, args):
                v = _in(t, x)
                if v is None:
                    break
                conv.append(v)
            else:
                return _box(s.ret, fn(*conv)) if s.ret is not None else _unbox(fn(*conv))
        raise TypeError('No matching definition for argument type(s) %s of %s' % (
            ', '.join('array(%s, %dd, %s)' % (a.dtype, a.ndim, 'C' if a.flags.c_contiguous else 'A')
                      if isinstance(a, np.ndarray) else type(a).__name__ for a in args), fn.__name__))
    call.py_func = fn
    return call


def njit(*args, **kw):
    if len(args) == 1 and inspect.isfunction(args[0]):
        return _compile(args[0], [])
    sigs = _sigs(args)
    return lambda fn: _compile(fn, sigs)


jit = njit


def vectorize(*args, **kw):
    if len(args) == 1 and inspect.isfunction(args[0]):
        fn = args[0]
        return np.vectorize(fn)
    sigs = _sigs(args)
    ret = _np[sigs[0].ret.name]

    def deco(fn):
        n = len(sigs[0].args)
        u = np.frompyfunc(fn, n, 1)

        @functools.wraps(fn)
        def call(*a, out=None):
            r = u(*[np.asarray(x, _np[t.name]) for x, t in zip(a, sigs[0].args)])
            r = np.asarray(r).astype(ret)
            if out is not None:
                out[...] = r
                return out
            return r if r.ndim else r[()]
        return call
    return deco


def guvectorize(*args, **kw):
    layout = [a for a in args if isinstance(a, str) and '->' in a][-1]
    types_ = args[0] if len(args) > 1 else None
    if isinstance(types_, list):
        types_ = types_[0]
    if isinstance(types_, str):
        s = _sigs([types_])[0]
    else:
        s = types_ if isinstance(types_, Signature) else Signature(None, tuple(types_))
    lhs, rhs = layout.replace(' ', '').split('->')
    core = lambda txt: [tuple(c for c in g.split(',') if c) for g in re.findall(r'\(([^)]*)\)', txt)]
    ins, outs = core(lhs), core(rhs)

    def deco(fn):
        @functools.wraps(fn)
        def call(*a, out=None):
            a = list(a)
            if len(a) > len(ins):
                out = a.pop()
            arrs = [np.asarray(x).astype(_np[(t.dtype if isinstance(t, Array) else t).name], casting='same_kind')
                    for x, t in zip(a, s.args)]
            dims, loops = {}, []
            for x, c in zip(arrs, ins):
                if x.ndim < len(c):
                    raise ValueError('guvectorize: operand does not have enough dimensions')
                k = x.ndim - len(c)
                for name, m in zip(c, x.shape[k:]):
                    if dims.setdefault(name, m) != m:
                        raise ValueError('guvectorize: core dimension mismatch')
                loops.append(x.shape[:k])
            loop = np.broadcast(*[np.empty(l) for l in loops]).shape if any(loops) else ()
            res = [np.empty(loop + tuple(dims[c] for c in o), _np[t.dtype.name])
                   for o, t in zip(outs, s.args[len(ins):])]
            bro = [np.broadcast_to(x, loop + x.shape[x.ndim - len(c):]) for x, c in zip(arrs, ins)]
            for ix in np.ndindex(*loop):
                fn(*[b[ix] for b in bro], *[r[ix] for r in res])
            if out is not None:
                out[...] = res[0]
                return out
            return res[0] if len(res) == 1 else tuple(res)
        return call
    return deco
