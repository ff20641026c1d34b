"""mpi4py for P processes in one: every process is a thread, and exactly one
runs at a time.  Which one goes on at a communication call is decided by a
seeded scheduler, so that a run is a chosen interleaving.  The calls keep MPI's
contract: matching collectives, contiguous and disjoint buffers, enough room,
same type.  A process that would wait for ever is a Deadlock."""
import sys
import threading
import types

import numpy as np


class Deadlock(Exception):
    pass


class MPIError(Exception):
    pass


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


SUM = Op('SUM', lambda a, b: a + b)
PROD = Op('PROD', lambda a, b: a * b)
MAX = Op('MAX', lambda a, b: np.maximum(a, b))
MIN = Op('MIN', lambda a, b: np.minimum(a, b))


class Datatype(str):
    pass


class _Place:
    def __repr__(self):
        return 'IN_PLACE'


IN_PLACE = _Place()


class World:
    """P processes and the interleaving of their calls."""

    def __init__(self, size, seed=0):
        self.size = size
        self.all = Group(range(size))
        self.rng = np.random.RandomState(seed)
        self.cv = threading.Condition()
        self.turn = None
        self.wait = {}                  # rank -> predicate it waits for
        self.done = set()
        self.mail = {}                  # (group, src, dst, tag) -> list of payloads
        self.dead = False
        self.order = []                 # ranks in the order of their calls

    def choose(self):
        go = [r for r in range(self.size) if r not in self.done and (r not in self.wait or self.wait[r]())]
        if go:
            self.turn = go[self.rng.randint(len(go))]
        elif len(self.done) < self.size:
            self.dead = True
        self.cv.notify_all()

    def pause(self, rank, pred=None):
        """Give way; come back when scheduled and pred() holds."""
        with self.cv:
            if pred is not None:
                self.wait[rank] = pred
            self.order.append(rank)
            self.choose()
            while self.turn != rank and not self.dead:
                self.cv.wait(60)
            self.wait.pop(rank, None)
            if self.dead:
                raise Deadlock('process %d waits for ever' % rank)

    def finish(self, rank):
        with self.cv:
            self.done.add(rank)
            self.wait.pop(rank, None)
            self.choose()


_local = threading.local()


def parse(buf, size=None, what='send'):
    """(flat array view, counts, displacements) of an MPI buffer argument."""
    if isinstance(buf, (list, tuple)):
        arr, rest = buf[0], list(buf[1:])
    else:
        arr, rest = buf, []
    if arr is None:
        return None, None, None
    if not isinstance(arr, np.ndarray):
        arr = np.asarray(arr)
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise MPIError('buffer is not contiguous')
    if what == 'recv' and not arr.flags.writeable:
        raise MPIError('receive buffer is read-only')
    flat = arr.ravel(order='K')
    if not np.shares_memory(flat, arr) and arr.size:
        raise MPIError('buffer is not contiguous')
    counts = displs = None
    for x in rest:
        if isinstance(x, (int, np.integer)):
            counts = int(x)
        elif isinstance(x, (float, complex, np.floating)):
            raise TypeError('a count is an integer')
        elif isinstance(x, (tuple, list, np.ndarray)) and len(x) and not isinstance(x[0], (str, type(None))):
            if len(x) == 2 and isinstance(x[0], (tuple, list, np.ndarray)):
                counts, displs = [list(map(int, y)) for y in x]
            else:
                counts = [int(y) for y in x]
    return flat, counts, displs


class Group:
    """The processes of a communicator."""

    def __init__(self, members):
        self.members = list(members)
        self.coll = {}                  # sequence number -> {rank: (name, data)}
        self.seq = [0] * len(self.members)
        self.parts = {}                 # (sequence number, colour) -> Group


class Comm:
    def __init__(self, world, rank, group=None):
        self._w, self._me = world, rank
        self._g = group or world.all
        self._rank = self._g.members.index(rank)

    rank = property(lambda self: self._rank)
    size = property(lambda self: len(self._g.members))

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self.size

    def Split(self, color=0, key=0):
        n = self._g.seq[self._rank]
        got = self._collective('Split', (color, key))
        mine = sorted((k, i) for i, (c, k) in enumerate(got) if c == color)
        part = self._g.parts.setdefault((n, color), Group([self._g.members[i] for _, i in mine]))
        return Comm(self._w, self._me, part)

    def Dup(self):
        return self.Split()

    def _pause(self, pred=None):
        self._w.pause(self._me, pred)

    def _collective(self, name, data):
        g, r = self._g, self._rank
        self._pause()
        n = g.seq[r]
        g.seq[r] += 1
        slot = g.coll.setdefault(n, {})
        slot[r] = (name, data)
        self._pause(lambda: len(slot) == self.size)
        names = {x[0] for x in slot.values()}
        if len(names) > 1:
            raise MPIError('mismatched collectives %s' % sorted(map(str, names)))
        return [slot[i][1] for i in range(self.size)]

    # ---- buffers
    def _chunks(self, buf, what):
        """Per-process chunks of a buffer as (flat, [(start, stop)])."""
        flat, c, d = parse(buf, self.size, what)
        if c is None or isinstance(c, int):
            k = flat.size // self.size if c is None else c
            if k * self.size > flat.size:
                raise MPIError('buffer too small')
            # a count that covers the whole buffer counts all of it
            return flat, [(i * k, (i + 1) * k) for i in range(self.size)]
        if d is None:
            d = list(np.r_[0, np.cumsum(c)[:-1]])
        cs = [(int(s), int(s) + int(n)) for s, n in zip(d, c)]
        if len(cs) != self.size or max(x[1] for x in cs) > flat.size:
            raise MPIError('buffer too small')
        return flat, cs

    def Barrier(self):
        self._collective('Barrier', None)
    barrier = Barrier

    def Alltoall(self, send, recv):
        s, sc = self._chunks(send, 'send')
        r, rc = self._chunks(recv, 'recv')
        if np.shares_memory(s, r):
            raise MPIError('aliased buffers')
        got = self._collective('Alltoall', [s[a:b].copy() for a, b in sc])
        for q in range(self.size):
            self._put(r, rc[q], got[q][self.rank])
        self._pause()
    Alltoallv = Alltoall

    @staticmethod
    def _put(r, span, x):
        if x.dtype != r.dtype:
            raise MPIError('types differ')
        if x.size > span[1] - span[0]:
            raise MPIError('message truncated')
        r[span[0]:span[0] + x.size] = x

    def _whole(self, buf, what):
        flat, c, _ = parse(buf, self.size, what)
        if flat is None:
            return None
        if isinstance(c, list):
            c = sum(c)
        c = flat.size if c is None else c
        if c > flat.size:
            raise MPIError('buffer too small')
        return flat[:c]

    def Allgather(self, send, recv):
        r, rc = self._chunks(recv, 'recv') if not self._whole_recv(recv) else self._spread(recv)
        s = r[slice(*rc[self.rank])].copy() if send is IN_PLACE else self._whole(send, 'send')
        if send is not IN_PLACE and np.shares_memory(s, r):
            raise MPIError('aliased buffers')
        got = self._collective('Allgather', s.copy())
        for q in range(self.size):
            self._put(r, rc[q], got[q])
        self._pause()
    Allgatherv = Allgather

    def _whole_recv(self, recv):
        return False

    def Allreduce(self, send, recv, op=SUM):
        r = self._whole(recv, 'recv')
        s = r if send is IN_PLACE else self._whole(send, 'send')
        if send is not IN_PLACE and np.shares_memory(s, r):
            raise MPIError('aliased buffers')
        got = self._collective('Allreduce', s.copy())
        self._put(r, (0, r.size), self._fold(got, op))
        self._pause()

    @staticmethod
    def _fold(xs, op):
        op = op or SUM
        if len({np.shape(x) for x in xs}) > 1:
            raise MPIError('counts differ')
        t = xs[0]
        for x in xs[1:]:
            t = op(t, x)
        return t

    def Reduce(self, send, recv, op=SUM, root=0):
        s = self._whole(send, 'send').copy()
        got = self._collective('Reduce', s)
        if self.rank == root:
            r = self._whole(recv, 'recv')
            self._put(r, (0, r.size), self._fold(got, op))
        self._pause()

    def Bcast(self, buf, root=0):
        b = self._whole(buf, 'recv')
        got = self._collective('Bcast', b.copy())
        b[:] = got[root]

    def Gather(self, send, recv, root=0):
        s = self._whole(send, 'send').copy()
        got = self._collective('Gather', s)
        if self.rank == root:
            r, rc = self._chunks(recv, 'recv')
            for q in range(self.size):
                self._put(r, rc[q], got[q])
    Gatherv = Gather

    def Scatter(self, send, recv, root=0):
        cs = None
        if self.rank == root:
            s, sc = self._chunks(send, 'send')
            cs = [s[a:b].copy() for a, b in sc]
        got = self._collective('Scatter', cs)
        r = self._whole(recv, 'recv')
        self._put(r, (0, r.size), got[root][self.rank])
    Scatterv = Scatter

    # ---- objects
    def allreduce(self, x, op=SUM):
        return self._fold(self._collective('allreduce', x), op)

    def reduce(self, x, op=SUM, root=0):
        got = self._collective('reduce', x)
        return self._fold(got, op) if self.rank == root else None

    def allgather(self, x):
        return list(self._collective('allgather', x))

    def gather(self, x, root=0):
        got = self._collective('gather', x)
        return list(got) if self.rank == root else None

    def bcast(self, x, root=0):
        return self._collective('bcast', x)[root]

    def scatter(self, x, root=0):
        return self._collective('scatter', x)[root][self.rank]

    def alltoall(self, x):
        return [g[self.rank] for g in self._collective('alltoall', list(x))]

    # ---- point to point
    def send(self, x, dest, tag=0):
        self._pause()
        self._w.mail.setdefault((id(self._g), self.rank, dest, tag), []).append(x)

    def recv(self, buf=None, source=0, tag=0, status=None):
        box = self._w.mail.setdefault((id(self._g), source, self.rank, tag), [])
        self._pause(lambda: len(box) > 0)
        return box.pop(0)

    def Send(self, buf, dest, tag=0):
        self.send(self._whole(buf, 'send').copy(), dest, tag)

    def Recv(self, buf, source=0, tag=0, status=None):
        r = self._whole(buf, 'recv')
        self._put(r, (0, r.size), self.recv(None, source, tag))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=0, recvtag=0, status=None):
        self.Send(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag)


class _Current:
    """COMM_WORLD: that of the process the thread is, or of a lone process."""

    def __getattr__(self, name):
        c = getattr(_local, 'comm', None)
        if c is None:
            c = _local.comm = Comm(World(1), 0)
        return getattr(c, name)


def install():
    m = types.ModuleType('mpi4py')
    M = types.ModuleType('mpi4py.MPI')
    for k, v in dict(SUM=SUM, PROD=PROD, MAX=MAX, MIN=MIN, IN_PLACE=IN_PLACE, COMM_WORLD=_Current(), Comm=Comm, Intracomm=Comm).items():
        setattr(M, k, v)
    for k in ('DOUBLE', 'COMPLEX', 'COMPLEX16', 'DOUBLE_COMPLEX', 'INT', 'LONG', 'FLOAT', 'INT64_T'):
        setattr(M, k, Datatype(k))
    m.MPI = M
    m.__path__ = []
    sys.modules['mpi4py'] = m
    sys.modules['mpi4py.MPI'] = M


def run(size, f, seed=0):
    """f(comm) as `size` processes.  Returns ([value], [exception], order of the calls)."""
    w = World(size, seed)
    val, exc = [None] * size, [None] * size

    def body(r):
        c = _local.comm = Comm(w, r)
        with w.cv:
            while w.turn != r and not w.dead:
                w.cv.wait(60)
        try:
            val[r] = f(c)
        except Exception as e:
            exc[r] = e
        finally:
            w.finish(r)
    ts = [threading.Thread(target=body, args=(r,)) for r in range(size)]
    threading.stack_size(64 << 20)
    for t in ts:
        t.start()
    with w.cv:
        w.choose()
    for t in ts:
        t.join()
    return val, exc, w.order


def team(size, f, seed=0, teams=2):
    """f(comm) as `size` processes of a world in which `teams` such groups work at the same time."""
    colour = np.random.RandomState(seed).permutation(np.repeat(np.arange(teams), size))

    def prog(c):
        c = c.Split(int(colour[c.rank]))
        return f(c)
    val, exc, order = run(size * teams, prog, seed)
    first = [i for i in range(size * teams) if colour[i] == 0]
    if any(exc) and not any(exc[i] for i in first):
        first = [i for i in range(size * teams) if exc[i]][:size]
    return [val[i] for i in first], [exc[i] for i in first], order


def some(rng, size, f, seed=0):
    """As run, at times beside others."""
    return team(size, f, seed) if size < 4 and rng.rand() < .35 else run(size, f, seed)
