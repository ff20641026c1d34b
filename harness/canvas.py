"""Stand-ins for matplotlib and ase that keep what is drawn."""
import sys
import types
import numpy as np


class Artist:
    def __init__(self, xy, radius, color, what='circle'):
        self.xy, self.radius, self.color, self.what = [float(t) for t in xy], float(radius), color, what


def Circle(xy, radius=5, *, color=None, facecolor=None, edgecolor=None, zorder=1, **kw):
    assert np.size(xy) == 2 and np.size(radius) == 1
    return Artist(np.ravel(xy), np.ravel(radius)[0], color if color is not None else (facecolor or edgecolor))


class Axes:
    def __init__(self):
        self.segments, self.circles, self.calls = [], [], 0

    def plot(self, x, y, *fmt, **kw):
        x, y = np.asarray(x, float), np.asarray(y, float)
        assert x.shape == y.shape and x.ndim in (1, 2)
        self.calls += 1
        if x.ndim == 1:
            x, y = x[:, None], y[:, None]
        for c in range(x.shape[1]):                         # a column is a line
            for i in range(len(x) - 1):
                self.segments.append([x[i, c], y[i, c], x[i + 1, c], y[i + 1, c]])
        return [None] * x.shape[1]

    def add_artist(self, a):
        self.calls += 1
        if isinstance(a, Lines):
            for s in a.segs:
                for p, q in zip(s[:-1], s[1:]):
                    self.segments.append([p[0], p[1], q[0], q[1]])
        else:
            self.circles.append(a)
        return a
    add_patch = add_collection = add_line = add_artist

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Lines:
    def __init__(self, segs, **kw):
        self.segs = np.asarray(segs, float)


made = []


def subplots(*a, **k):
    made.append(Axes())
    return types.SimpleNamespace(axes=[made[-1]]), made[-1]


class Atom:
    def __init__(self, index, position):
        self.index, self.position, self.symbol = index, position, 'C'


class Atoms:
    def __init__(self, positions, bonds):
        self.positions, self.bonds = np.array(positions, float), bonds

    def __len__(self):
        return len(self.positions)

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            return Atom(int(i), self.positions[i])
        if isinstance(i, list):
            i = np.array(i)
        return Atoms(self.positions[i], None)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def get_positions(self):
        return self.positions.copy()

    def copy(self):
        return Atoms(self.positions, self.bonds)


class Neighbours:
    """As ase's: itself and the neighbours after it, unless told otherwise."""

    def __init__(self, bonds, n, self_interaction=True, bothways=False):
        self.n = [[] for _ in range(n)]
        for i in range(n):
            if self_interaction:
                self.n[i].append(i)
        for i, j in bonds:
            self.n[min(i, j)].append(max(i, j))
            if bothways:
                self.n[max(i, j)].append(min(i, j))

    def get_neighbors(self, i):
        return np.array(self.n[i], int), np.zeros((len(self.n[i]), 3), int)


def build_neighbor_list(atoms, cutoffs=None, **kw):
    return Neighbours(atoms.bonds, len(atoms), **{k: kw[k] for k in ('self_interaction', 'bothways') if k in kw})


def install():
    m, p, a, n = (types.ModuleType(x) for x in ('matplotlib', 'matplotlib.pyplot', 'ase', 'ase.neighborlist'))
    pat, col = types.ModuleType('matplotlib.patches'), types.ModuleType('matplotlib.collections')
    pat.Circle = p.Circle = Circle
    col.LineCollection = Lines
    p.subplots, p.gca = subplots, lambda: subplots()[1]
    p.Axes = Axes
    m.pyplot, m.patches, m.collections = p, pat, col
    n.build_neighbor_list = build_neighbor_list
    a.neighborlist, a.Atoms = n, Atoms
    sys.modules.update({'matplotlib': m, 'matplotlib.pyplot': p, 'matplotlib.patches': pat, 'matplotlib.collections': col,
                        'ase': a, 'ase.neighborlist': n})
