"""Runs a harness module and records what the real code does, one event a line."""
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'shim')]


def enc(x):
    """JSON of a value: floats exactly (hexadecimal), complex as pairs."""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if -2**31 < x < 2**31 else str(x)
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, (complex, np.complexfloating)):
        return [float(x.real).hex(), float(x.imag).hex()]
    if isinstance(x, np.ndarray):
        return [enc(y) for y in np.asarray(x)] if x.ndim else enc(x[()])
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if x is None:
        return []
    if isinstance(x, str):
        return x
    raise TypeError('cannot record %r' % type(x))


class Raised(Exception):
    pass


class Rec:
    def __init__(self, path, shard, nshards, tier, seed):
        self.f = open(path, 'w', buffering=1 << 16)
        self.path, self.shard, self.nshards, self.tier, self.seed = path, shard, nshards, tier, seed
        self.k = 0
        self.t0 = time.time()
        self.quick = tier == 'quick'

    def mine(self, i):
        return i % self.nshards == self.shard

    def now(self, what):
        self.f.flush()
        with open(self.path + '.now', 'w') as g:
            json.dump({'k': self.k, 'what': what}, g)

    def emit(self, op, **kw):
        self.f.write(json.dumps(dict(op=op, k=self.k, **{a: enc(b) for a, b in kw.items()})) + '\n')

    def case(self, kind, fn, **kw):
        """One case: fn() does the calls and emits.  What it raises is recorded."""
        self.k += 1
        self.emit('case', kind=kind, **kw)
        self.now(kind)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = next((t for t in reversed(tb) if '/edpyt' in t.filename), tb[-1])
            self.emit('raised', why='%s: %s' % (type(e).__name__, str(e)[:300]),
                      at='%s:%s' % (os.path.basename(at.filename), at.name), kind=kind)
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        self.now('')

    def attempt(self, fn, *a, **k):
        """(value, '') or (None, name of the exception)."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return fn(*a, **k), ''
        except Exception as e:
            return None, type(e).__name__


def main():
    name, shard, nshards, tier, seed, out = sys.argv[1:]
    rec = Rec(out, int(shard), int(nshards), tier, int(seed))
    try:
        import vshim
        vshim.install(mpi=True)                  # the real one needs a daemon, and races for its folder
        import importlib
        mod = importlib.import_module(name)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    import numpy as np
    np.seterr(all='ignore')
    rng = np.random.RandomState((int(seed) * 7919 + int(shard) * 104729 + sum(map(ord, name))) % (2**32))
    rec.now('start')
    try:
        mod.run(rec, rng)
    except Exception:                                # outside a case: the harness itself
        traceback.print_exc()
        sys.exit(3)
    rec.f.close()
    os.remove(out + '.now')


if __name__ == '__main__':
    sys.modules['core'] = sys.modules['__main__']
    main()
