"""An in-process MPI: reliable, per-pair ordered, otherwise adversarial.

Choices made by the simulator: message latency, whether a blocking send returns before the receiver has
matched it (eager limit), when the buffer of a non-blocking send is read (as late as MPI allows), what an
abandoned request's buffer contains, who gets a window lock next, start-up skew, placement on hosts.
"""
import pickle
import struct
import sys
import types

import numpy as np

import mpi4py as _real_mpi4py

_real_mpi4py.rc(initialize=False)
from mpi4py.MPI import memory as RealMemory  # noqa: E402

US = 1000
MS = 1000 * US


class MPIError(RuntimeError):
    """Stands for mpi4py.MPI.Exception."""

    def Get_error_class(self):
        return 1


class Ctx:
    """Shared part of a communicator."""

    def __init__(self, world, name, procs):
        self.world = world
        self.name = name
        self.procs = list(procs)
        self.queue = [[] for _ in procs]  # visible messages per destination rank
        self.vis = {}
        self.coll_seq = {}
        self.colls = {}
        self.gcolls = {}
        self.waiters = [[] for _ in procs]


class Msg:
    __slots__ = ("src", "dst", "tag", "size", "data", "buf", "matched", "delivered", "waiters", "eager", "poison")

    def __init__(self, src, dst, tag, size):
        self.src, self.dst, self.tag, self.size = src, dst, tag, size
        self.data = None
        self.buf = None
        self.matched = False
        self.delivered = False
        self.eager = True
        self.poison = False
        self.waiters = []

    def take(self):
        if self.poison:
            return b"\xdd" * self.size
        if self.data is None:
            self.data = bytes(self.buf)
            self.buf = None
        return self.data


class Coll:
    def __init__(self, op):
        self.op = op
        self.contrib = {}
        self.result = None
        self.done = False
        self.error = None
        self.waiters = []


def _fin(op, contrib):
    return None


class MpiWorld:
    """Owner of all simulated MPI processes of a run."""

    def __init__(self, sched, cfg):
        self.sched = sched
        self.cfg = cfg
        self.procs = []
        self.pid = 1000
        self.eager = cfg.get("eager", 4096)
        self.nctx = 0
        self.fin_arrived = []
        self.fin_waiters = []
        self.job = []  # connected processes
        self.crashes = []
        self.async_errors = []
        self.wins = []
        self.exit_waiters = []
        self.tag_reorder = cfg.get("tag_reorder", False)
        self.lat_base = cfg.get("lat_base", 5 * US)
        self.p_lat = cfg.get("p_lat", 0.0)
        self.lat_max = cfg.get("lat_max", 5 * MS)
        self.p_slow_pair = cfg.get("p_slow_pair", 0.0)
        self.slow = {}
        self.on_exit_hook = None
        self.on_crash_hook = None
        self.hosts = cfg.get("hosts", ["h0"])

    def next_pid(self):
        self.pid += 1
        return self.pid

    def ip_of(self, h):
        if h in ("localhost", ""):
            return "127.0.0.1"
        if h.startswith("10.0."):
            return h
        try:
            return "10.0.0.%d" % (int(h[1:]) + 1)
        except ValueError:
            return "10.0.9.9"

    def on_crash(self, proc, exc, text):
        self.crashes.append((proc.name, type(exc).__name__, str(exc)[:300], text))
        self.sched.count("proc_crash")
        self.sched.ev("crash", proc.name, type(exc).__name__)
        if self.on_crash_hook:
            self.on_crash_hook(proc, exc, text)

    def on_async_error(self, proc, exc, msg):
        self.async_errors.append((proc.name, type(exc).__name__, str(exc)[:300], msg))

    def on_exit(self, proc):
        self.sched.made_progress()
        if self.on_exit_hook:
            self.on_exit_hook(proc)

    def new_ctx(self, procs, label="c"):
        self.nctx += 1
        return Ctx(self, f"{label}{self.nctx}", procs)

    # ---- messages --------------------------------------------------------
    def latency(self, src, dst):
        ch = self.sched.ch
        who = f"{src.name}>{dst.name}"
        if self.p_slow_pair and who not in self.slow:
            self.slow[who] = ch.value("slowpair", who, lambda r: r.choice([200 * US, 2 * MS, 20 * MS]) if r.random() < self.p_slow_pair else None) or 0
        base = self.lat_base + self.slow.get(who, 0)
        if not self.p_lat:
            return base
        v = ch.value("lat", who, lambda r: int(self.lat_max ** r.random()) if r.random() < self.p_lat else None)
        if v:
            self.sched.count("msg_delay")
            return base + v
        return base

    def post(self, ctx, m):
        s = self.sched
        src, dst = ctx.procs[m.src], ctx.procs[m.dst]
        key = (m.src, m.dst, m.tag) if self.tag_reorder else (m.src, m.dst)
        t = max(ctx.vis.get(key, 0) + 1, s.now + self.latency(src, dst))
        ctx.vis[key] = t
        s.count("messages")
        s.made_progress()
        s.ev("send", ctx.name, m.src, m.dst, m.tag, m.size)

        def deliver():
            m.delivered = True
            ctx.queue[m.dst].append(m)
            s.made_progress()
            s.ev("dlv", ctx.name, m.src, m.dst, m.tag)
            w, ctx.waiters[m.dst] = ctx.waiters[m.dst], []
            for th in w:
                s.wake(th)
            if m.eager:
                self.complete(m)
            s.nudge(dst)

        s.at(t, deliver)

    def complete(self, m):
        w, m.waiters = m.waiters, []
        for th in w:
            self.sched.wake(th)


def _as_view(spec):
    """Buffer specification -> memoryview of bytes."""
    if isinstance(spec, (list, tuple)):
        buf = spec[0]
        count = spec[1] if len(spec) > 1 and isinstance(spec[1], int) else None
        dt = spec[-1] if not isinstance(spec[-1], int) and len(spec) > 1 else None
        mv = memoryview(buf)
        if mv.format != "B" or mv.ndim != 1:
            mv = mv.cast("B")
        if count is not None:
            n = count * (dt.size if isinstance(dt, Datatype) else 1)
            mv = mv[:n]
        return mv
    mv = memoryview(spec)
    if mv.format != "B" or mv.ndim != 1:
        mv = mv.cast("B")
    return mv


class Datatype:
    def __init__(self, name, size):
        self.name = name
        self.size = size

    def Get_size(self):
        return self.size

    def Create_contiguous(self, n):
        return Datatype(f"{self.name}*{n}", self.size * n)

    def Commit(self):
        return self

    def Free(self):
        pass


class Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)


class Group:
    def __init__(self, procs):
        self.procs = list(procs)

    def Incl(self, ranks):
        return Group([self.procs[r] for r in ranks])

    def Excl(self, ranks):
        return Group([p for i, p in enumerate(self.procs) if i not in ranks])

    def Get_size(self):
        return len(self.procs)

    size = property(Get_size)

    def Free(self):
        pass


CHAR = Datatype("CHAR", 1)
BYTE = Datatype("BYTE", 1)
LONG = Datatype("LONG", struct.calcsize("l"))
INT = Datatype("INT", 4)
DOUBLE = Datatype("DOUBLE", 8)
MAX = Op("MAX", max)
MIN = Op("MIN", min)
SUM = Op("SUM", lambda a, b: a + b)
LOR = Op("LOR", lambda a, b: a or b)
LAND = Op("LAND", lambda a, b: a and b)
BOR = Op("BOR", lambda a, b: a | b)
ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
UNDEFINED = -32766


class Status:
    def __init__(self):
        self._source = ANY_SOURCE
        self._tag = ANY_TAG
        self._count = 0
        self.error = 0

    source = property(lambda s: s._source)
    tag = property(lambda s: s._tag)
    count = property(lambda s: s._count)

    def Get_source(self):
        return self._source

    def Get_tag(self):
        return self._tag

    def Get_count(self, datatype=None):
        return self._count

    def Get_error(self):
        return 0

    def set(self, m):
        self._source, self._tag, self._count = m.src, m.tag, m.size


class Info(dict):
    @classmethod
    def Create(cls, items=None):
        return cls(items or {})

    def Set(self, k, v):
        if not isinstance(v, str):
            raise TypeError("info value must be str")
        self[k] = v

    def Get(self, k, *a):
        return dict.get(self, k)

    def Free(self):
        self.clear()


class Request:
    """Non-blocking send or receive."""

    def __init__(self, proc, m, keep=None):
        self.proc = proc
        self.m = m
        self.keep = keep
        self._done = False

    def _complete(self):
        m = self.m
        return self._done or m is None or m.matched or (m.eager and m.delivered)

    def Test(self, status=None):
        s = self.proc.sched
        self.proc.mpi_check()
        s.yield_("test")
        if self._complete():
            self._done = True
            self.m = None
            self.keep = None
            return True
        s.cur.probe_failed = True
        return False

    def Wait(self, status=None):
        s = self.proc.sched
        self.proc.mpi_check()
        s.yield_("wait")
        while not self._complete():
            self.m.waiters.append(s.cur)
            s.block(f"Wait(send to {self.m.dst} tag {self.m.tag})")
        self._done = True
        self.m = None
        self.keep = None
        return True

    def test(self, status=None):
        return (self.Test(), None)

    def wait(self, status=None):
        self.Wait()
        return None

    def Free(self):
        self._done = True

    def Cancel(self):
        pass

    def __bool__(self):
        return self.m is not None

    def __eq__(self, o):
        return self is o or (isinstance(o, Request) and self.m is None and o.m is None)

    __hash__ = object.__hash__

    @classmethod
    def Waitall(cls, reqs, statuses=None):
        for r in reqs:
            r.Wait()
        return True

    @classmethod
    def Testall(cls, reqs, statuses=None):
        return all([r.Test() for r in reqs])

    def __del__(self):
        m = self.m
        if m is None or m.matched or m.buf is None or self._done:
            return
        # the only owner of the memory is gone while the library may still read it
        base = m.buf.obj
        if sys.getrefcount(base) <= 3:
            m.poison = True
            self.proc.sched.count("abandoned_send_buffer")


class RecvRequest(Request):
    def __init__(self, comm, source, tag, limit=None, view=None):
        self.comm, self.source, self.tag = comm, source, tag
        self.limit, self.view = limit, view
        self.proc = comm.proc
        self._done = False
        self.value = None
        self.m = None

    def _try(self):
        if self._done:
            return True
        c = self.comm
        m = c._match(self.source, self.tag)
        if m is None:
            return False
        if self.limit is not None and m.size > self.limit:
            c._remove(m)
            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
        data = c._consume(m)
        if self.view is not None:
            if len(data) > len(self.view):
                raise MPIError("MPI_ERR_TRUNCATE: message truncated")
            self.view[: len(data)] = data
        else:
            self.value = pickle.loads(data)
        self._done = True
        return True

    def Test(self, status=None):
        self.proc.mpi_check()
        self.proc.sched.yield_("test")
        if self._try():
            return True
        self.proc.sched.cur.probe_failed = True
        return False

    def test(self, status=None):
        return (True, self.value) if self.Test() else (False, None)

    def Wait(self, status=None):
        s = self.proc.sched
        self.proc.mpi_check()
        s.yield_("wait")
        while not self._try():
            self.comm.ctx.waiters[self.comm._rank].append(s.cur)
            s.block(f"Wait(recv {self.source} tag {self.tag})")
        return True

    def wait(self, status=None):
        self.Wait()
        return self.value

    def __bool__(self):
        return not self._done

    def __del__(self):
        pass


class Comm:
    def __init__(self, proc, ctx, rank):
        self.proc = proc
        self.ctx = ctx
        self._rank = rank

    # -- basics
    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self.ctx.procs)

    rank = property(Get_rank)
    size = property(Get_size)

    def __eq__(self, o):
        return isinstance(o, Comm) and self.ctx is o.ctx

    def __ne__(self, o):
        return not self == o

    __hash__ = object.__hash__

    def Get_group(self):
        return Group(self.ctx.procs)

    group = property(Get_group)

    def Get_name(self):
        return self.ctx.name

    def Set_errhandler(self, *a):
        pass

    def Free(self):
        pass

    Disconnect = Free

    def Is_inter(self):
        return False

    def Abort(self, code=0):
        raise MPIError(f"MPI_ABORT({code})")

    # -- sending
    def _post(self, view, data, dest, tag, keep):
        w = self.proc.world
        if not 0 <= dest < len(self.ctx.procs):
            raise MPIError("MPI_ERR_RANK: invalid rank")
        size = len(data) if data is not None else len(view)
        m = Msg(self._rank, dest, tag, size)
        m.eager = size <= w.eager
        if m.eager:
            m.data = data if data is not None else bytes(view)
        else:
            w.sched.count("rendezvous_send")
            m.buf = view if view is not None else memoryview(data)
        w.post(self.ctx, m)
        return m

    def _finish_send(self, m):
        s = self.proc.sched
        if not m.eager:
            while not m.matched:
                m.waiters.append(s.cur)
                s.block(f"send(to {m.dst} tag {m.tag})")
        s.yield_("sent")

    def send(self, obj, dest, tag=0):
        self.proc.mpi_check()
        self.proc.sched.yield_("send")
        self._finish_send(self._post(None, pickle.dumps(obj, protocol=5), dest, tag, None))

    def ssend(self, obj, dest, tag=0):
        self.proc.mpi_check()
        self.proc.sched.yield_("send")
        m = self._post(None, pickle.dumps(obj, protocol=5), dest, tag, None)
        m.eager = False
        self._finish_send(m)

    def Send(self, buf, dest, tag=0):
        self.proc.mpi_check()
        self.proc.sched.yield_("Send")
        self._finish_send(self._post(_as_view(buf), None, dest, tag, buf))

    def isend(self, obj, dest, tag=0):
        self.proc.mpi_check()
        self.proc.sched.yield_("isend")
        data = pickle.dumps(obj, protocol=5)
        return Request(self.proc, self._post(None, data, dest, tag, None))

    def Isend(self, buf, dest, tag=0):
        self.proc.mpi_check()
        self.proc.sched.yield_("Isend")
        return Request(self.proc, self._post(_as_view(buf), None, dest, tag, buf))

    Issend = Isend
    issend = isend

    # -- receiving
    def _match(self, source, tag):
        """The first matching message; with any source, MPI may choose between the first ones of all sources."""
        found = {}
        for m in self.ctx.queue[self._rank]:
            if (source == ANY_SOURCE or m.src == source) and (tag == ANY_TAG or m.tag == tag):
                found.setdefault(m.src, m)
        if not found:
            return None
        found = list(found.values())
        w = self.proc.world
        if len(found) > 1 and self.proc.sched.ch.chance("anysrc", self.proc.name, w.cfg.get("p_anysrc", 0)):
            return found[self.proc.sched.ch.below("anysrc-n", self.proc.name, len(found))]
        return found[0]

    def _remove(self, m):
        self.ctx.queue[self._rank].remove(m)
        m.matched = True
        self.proc.world.complete(m)

    def _consume(self, m):
        data = m.take()
        self._remove(m)
        s = self.proc.sched
        s.made_progress()
        s.ev("rcv", self.ctx.name, m.src, m.dst, m.tag)
        return data

    def _await(self, source, tag, what):
        s = self.proc.sched
        while True:
            m = self._match(source, tag)
            if m is not None:
                return m
            self.ctx.waiters[self._rank].append(s.cur)
            s.block(f"{what}(from {source} tag {tag})")

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.proc.mpi_check()
        s = self.proc.sched
        s.yield_("recv")
        m = self._await(source, tag, "recv")
        if not self.proc.rc.recv_mprobe:
            src, tg = m.src, m.tag
            s.yield_("recv2")
            m = self._await(src, tg, "recv")
        if status is not None:
            status.set(m)
        data = self._consume(m)
        return pickle.loads(data)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.proc.mpi_check()
        s = self.proc.sched
        s.yield_("Recv")
        view = _as_view(buf)
        m = self._await(source, tag, "Recv")
        if status is not None:
            status.set(m)
        data = self._consume(m)
        if len(data) > len(view):
            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
        view[: len(data)] = data

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        self.proc.mpi_check()
        self.proc.sched.yield_("irecv")
        return RecvRequest(self, source, tag, limit=buf if isinstance(buf, int) else (len(memoryview(buf)) if buf is not None else 32768))

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        self.proc.mpi_check()
        self.proc.sched.yield_("irecv")
        return RecvRequest(self, source, tag, view=_as_view(buf))

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.proc.mpi_check()
        s = self.proc.sched
        s.yield_("iprobe")
        m = self._match(source, tag)
        if m is None:
            s.cur.probe_failed = True
            return False
        s.cur.probe_failed = False
        if status is not None:
            status.set(m)
        return True

    Iprobe = iprobe

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.proc.mpi_check()
        self.proc.sched.yield_("probe")
        m = self._await(source, tag, "probe")
        if status is not None:
            status.set(m)
        return True

    Probe = probe

    def mprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.probe(source, tag, status)
        m = self._match(source, tag)
        self.ctx.queue[self._rank].remove(m)
        return Message(self, m)

    def improbe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if not self.iprobe(source, tag, status):
            return None
        m = self._match(source, tag)
        self.ctx.queue[self._rank].remove(m)
        return Message(self, m)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.isend(sendobj, dest, sendtag)
        v = self.recv(None, source, recvtag, status)
        r.Wait()
        return v

    # -- collectives
    def _coll(self, op, data, finish):
        self.proc.mpi_check()
        return run_coll(self.proc, self.ctx.coll_seq, self.ctx.colls, self._rank, len(self.ctx.procs), op, data, finish)

    def Barrier(self):
        self._coll("Barrier", None, lambda c: True)

    barrier = Barrier

    def allgather(self, obj):
        r = self._coll("allgather", pickle.dumps(obj), lambda c: [c[i] for i in range(len(c))])
        return [pickle.loads(b) for b in r]

    def bcast(self, obj, root=0):
        r = self._coll(("bcast", root), pickle.dumps(obj) if self._rank == root else None, lambda c: c[root])
        return obj if self._rank == root else pickle.loads(r)

    def gather(self, obj, root=0):
        r = self._coll(("gather", root), pickle.dumps(obj), lambda c: [c[i] for i in range(len(c))])
        return [pickle.loads(b) for b in r] if self._rank == root else None

    def scatter(self, objs, root=0):
        r = self._coll(("scatter", root), [pickle.dumps(o) for o in objs] if self._rank == root else None, lambda c: c[root])
        return pickle.loads(r[self._rank])

    def allreduce(self, obj, op=SUM):
        r = self._coll(("allreduce", op.name), pickle.dumps(obj), lambda c: [c[i] for i in range(len(c))])
        acc = None
        for i, b in enumerate(r):
            v = pickle.loads(b)
            acc = v if i == 0 else op(acc, v)
        return acc

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        a = memoryview(sendbuf)
        fmt = a.format

        def fin(c):
            vals = [memoryview(c[i]).cast(fmt) if len(c[i]) else [] for i in range(len(c))]
            n = {len(v) for v in vals}
            if len(n) != 1:
                raise MPIError("MPI_ERR_TRUNCATE: Allreduce counts differ: %s" % sorted(n))
            out = list(vals[0])
            for v in vals[1:]:
                out = [op(x, y) for x, y in zip(out, v)]
            return out

        r = self._coll(("Allreduce", op.name), a.tobytes(), fin)
        out = memoryview(recvbuf)
        for i, v in enumerate(r):
            out[i] = v

    def Split(self, color=0, key=0):
        w = self.proc.world
        procs = self.ctx.procs

        def fin(c):
            res = {}
            for col in sorted({v[0] for v in c.values() if v[0] != UNDEFINED}):
                members = sorted((v[1], r) for r, v in c.items() if v[0] == col)
                res[col] = (w.new_ctx([procs[r] for _, r in members], "split"), [r for _, r in members])
            return res

        r = self._coll("Split", (color, key), fin)
        if color == UNDEFINED:
            return COMM_NULL
        ctx, members = r[color]
        return Comm(self.proc, ctx, members.index(self._rank))

    def Split_type(self, split_type, key=0, info=None):
        hosts = sorted({p.host for p in self.ctx.procs})
        return self.Split(hosts.index(self.proc.host), key)

    def Dup(self, info=None):
        w = self.proc.world
        ctx = self._coll("Dup", None, lambda c: w.new_ctx(self.ctx.procs, "dup"))
        return Comm(self.proc, ctx, self._rank)

    Clone = Dup

    def Create_group(self, group, tag=0):
        self.proc.mpi_check()
        if self.proc not in group.procs:
            return COMM_NULL
        w = self.proc.world
        key = tuple(p.name for p in group.procs) + (tag,)
        st = self.ctx.gcolls.setdefault(key, ({}, {}))
        r = group.procs.index(self.proc)
        ctx = run_coll(self.proc, st[0], st[1], r, len(group.procs), "Create_group", None, lambda c: w.new_ctx(group.procs, "grp"))
        return Comm(self.proc, ctx, r)

    def Create(self, group):
        w = self.proc.world
        ctx = self._coll("Create", None, lambda c: w.new_ctx(group.procs, "grp"))
        if self.proc not in group.procs:
            return COMM_NULL
        return Comm(self.proc, ctx, group.procs.index(self.proc))

    def Spawn(self, command, args=None, maxprocs=1, info=None, root=0, errcodes=None):
        self.proc.mpi_check()
        self.proc.sched.yield_("spawn")
        return self.proc.world.spawn_fn(self, command, list(args or []), maxprocs, info or {})

    @staticmethod
    def Get_parent():
        raise NotImplementedError


class Message:
    def __init__(self, comm, m):
        self.comm, self.m = comm, m

    def recv(self, status=None):
        if status is not None:
            status.set(self.m)
        data = self.m.take()
        self.m.matched = True
        self.comm.proc.world.complete(self.m)
        return pickle.loads(data)

    def Recv(self, buf, status=None):
        view = _as_view(buf)
        data = self.m.take()
        self.m.matched = True
        self.comm.proc.world.complete(self.m)
        if len(data) > len(view):
            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
        view[: len(data)] = data


def run_coll(proc, seqs, colls, rank, size, op, data, finish):
    s = proc.sched
    s.yield_("coll")
    n = seqs.get(rank, 0)
    seqs[rank] = n + 1
    c = colls.get(n)
    if c is None:
        c = colls[n] = Coll(op)
    if c.op != op:
        c.error = f"collective mismatch: {c.op} vs {op}"
        for t in c.waiters:
            s.wake(t)
        raise MPIError(c.error)
    c.contrib[rank] = data
    s.made_progress()
    s.ev("coll", str(op), n, rank)
    if len(c.contrib) == size:
        try:
            c.result = finish(c.contrib)
        except MPIError as e:
            c.error = str(e)
        c.done = True
        for t in c.waiters:
            s.wake(t)
        if c.error:
            raise MPIError(c.error)
    else:
        while not c.done and not c.error:
            c.waiters.append(s.cur)
            s.block(f"collective {op}#{n}")
        if c.error:
            raise MPIError(c.error)
    s.yield_("coll")
    return c.result


class NullComm(Comm):
    def __init__(self):
        self.proc = None
        self.ctx = None
        self._rank = -1

    def __eq__(self, o):
        return isinstance(o, NullComm)

    __hash__ = object.__hash__

    def __bool__(self):
        return False


COMM_NULL = NullComm()


class InterComm(Comm):
    """state: shared dict {"parents": [...], "children": [...]}"""

    def __init__(self, proc, shared, side, rank):
        self.proc = proc
        self.shared = shared
        self.side = side
        self._rank = rank
        self.ctx = shared["ctx"]

    def Is_inter(self):
        return True

    def Get_size(self):
        return len(self.shared[self.side])

    def Get_remote_size(self):
        return len(self.shared["children" if self.side == "parents" else "parents"])

    def Merge(self, high=False):
        self.proc.mpi_check()
        sh = self.shared
        w = self.proc.world
        all_ = sh["parents"] + sh["children"]
        me = all_.index(self.proc)

        def fin(c):
            hp = {c[i] for i in range(len(sh["parents"]))}
            hc = {c[i] for i in range(len(sh["parents"]), len(all_))}
            if len(hp) != 1 or len(hc) != 1:
                raise MPIError("Merge: inconsistent `high`")
            hp, hc = hp.pop(), hc.pop()
            order = sh["children"] + sh["parents"] if (hp and not hc) else sh["parents"] + sh["children"]
            return w.new_ctx(order, "merged")

        ctx = run_coll(self.proc, sh["seq"], sh["colls"], me, len(all_), "Merge", bool(high), fin)
        return Comm(self.proc, ctx, ctx.procs.index(self.proc))


def _aligned(n, init):
    a = np.full(n + 64, init, dtype=np.uint8)
    off = -a.ctypes.data % 64
    return memoryview(a[off : off + n])


class WinState:
    def __init__(self, world, sizes, disp, init):
        self.segs = [_aligned(n, init) for n in sizes]
        self.mem = [RealMemory.frombuffer(b) if len(b) else RealMemory.frombuffer(bytearray(0)) for b in self.segs]
        self.disp = disp
        self.locks = {}  # target -> [mode, set(holders)]
        self.waiting = {}
        self.freed = False


class Win:
    def __init__(self, proc, comm, st):
        self.proc, self.comm, self.st = proc, comm, st
        self.held = {}

    @classmethod
    def Allocate_shared(cls, size, disp_unit=1, info=None, comm=None):
        proc = comm.proc
        w = proc.world
        init = w.cfg.get("shm_init", 0)

        def fin(c):
            if sum(c.values()) > w.cfg.get("shm_limit", 64 << 20):
                raise MPIError("MPI_ERR_NO_MEM: cannot allocate shared window")
            st = WinState(w, [c[i] for i in range(len(c))], disp_unit, init)
            w.wins.append(st)
            return st

        st = comm._coll("Win.Allocate_shared", int(size), fin)
        return cls(proc, comm, st)

    def Shared_query(self, rank):
        return self.st.mem[rank], self.st.disp

    def tomemory(self):
        return self.st.mem[self.comm._rank]

    def Lock(self, rank, lock_type=1, assertion=0):
        s = self.proc.sched
        self.proc.mpi_check()
        if self.st.freed:
            raise MPIError("MPI_ERR_WIN: window freed")
        s.yield_("winlock")
        st = self.st
        if rank in self.held:
            raise MPIError("MPI_ERR_RMA_SYNC: window already locked by this process")
        excl = lock_type == 1
        while True:
            cur = st.locks.get(rank)
            if not cur or not cur[1]:
                st.locks[rank] = [excl, {id(self)}]
                break
            if not excl and not cur[0]:
                cur[1].add(id(self))
                break
            if s.atomic:
                raise RuntimeError("window lock contended inside an atomic section")
            s.count("winlock_contended")
            st.waiting.setdefault(rank, []).append(s.cur)
            s.block(f"Win.Lock({rank})")
        self.held[rank] = excl
        s.winlocks += 1
        s.made_progress()

    def Unlock(self, rank):
        s = self.proc.sched
        if rank not in self.held:
            raise MPIError("MPI_ERR_RMA_SYNC: not locked")
        del self.held[rank]
        st = self.st
        st.locks[rank][1].discard(id(self))
        s.winlocks -= 1
        s.made_progress()
        if not st.locks[rank][1]:
            ws, st.waiting[rank] = st.waiting.get(rank, []), []
            for t in ws:
                s.wake(t)
        s.yield_("winunlock")

    def Lock_all(self, assertion=0):
        pass

    Unlock_all = Flush = Flush_all = Sync = Fence = Lock_all

    def Free(self):
        self.comm._coll("Win.Free", None, lambda c: self.st)
        self.st.freed = True
        if self.proc.world.cfg.get("poison_free", True):
            for b in self.st.segs:
                b[:] = b"\xdd" * len(b)


class BigMPI:
    def __init__(self, blocksize):
        self.blocksize = blocksize

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __call__(self, buf):
        mv = memoryview(buf)
        n = mv.nbytes
        if n <= self.blocksize:
            return (mv, n, BYTE)
        return (mv, 1, Datatype("big", n))


class RC:
    def __init__(self):
        self.recv_mprobe = True
        self.initialize = True
        self.threads = True
        self.finalize = None

    def __call__(self, **k):
        for a, v in k.items():
            setattr(self, a, v)


def make_modules(proc, world_comm_ctx, world_rank, parent_inter):
    """Fake mpi4py package of one process."""
    w = proc.world
    proc.rc = RC()
    proc.mpi_init = False
    proc.mpi_fin = False

    def check():
        if not proc.mpi_init:
            raise MPIError("MPI called before MPI_INIT")
        if proc.mpi_fin:
            raise MPIError("MPI called after MPI_FINALIZE")

    proc.mpi_check = check
    m = types.ModuleType("mpi4py.MPI")
    d = m.__dict__

    class BoundComm(Comm):
        @staticmethod
        def Get_parent():
            return parent_inter if parent_inter is not None else COMM_NULL

    d.update(
        memory=RealMemory, buffer=RealMemory, Status=Status, Info=Info, Request=Request, Group=Group, Win=Win,
        Comm=BoundComm, Intracomm=BoundComm, Intercomm=InterComm, COMM_NULL=COMM_NULL, INFO_NULL=Info(),
        CHAR=CHAR, BYTE=BYTE, LONG=LONG, INT=INT, DOUBLE=DOUBLE, Datatype=Datatype, Message=Message,
        MAX=MAX, MIN=MIN, SUM=SUM, LOR=LOR, LAND=LAND, BOR=BOR, Op=Op,
        ANY_SOURCE=ANY_SOURCE, ANY_TAG=ANY_TAG, PROC_NULL=PROC_NULL, UNDEFINED=UNDEFINED,
        THREAD_SINGLE=0, THREAD_FUNNELED=1, THREAD_SERIALIZED=2, THREAD_MULTIPLE=3,
        COMM_TYPE_SHARED=1, VERSION=w.cfg.get("mpi_version", 3), SUBVERSION=1, Exception=MPIError,
        LOCK_EXCLUSIVE=1, LOCK_SHARED=2, ERRORS_RETURN=0, REQUEST_NULL=None, WIN_NULL=None,
    )
    d["COMM_WORLD"] = BoundComm(proc, world_comm_ctx, world_rank)
    d["COMM_SELF"] = BoundComm(proc, w.new_ctx([proc], "self"), 0)

    def Init_thread(required=3):
        proc.sched.yield_("init")
        proc.mpi_init = True
        return w.cfg.get("thread_level", 3)

    def Finalize():
        s = proc.sched
        check()
        s.yield_("finalize")
        w.fin_arrived.append(proc)
        s.made_progress()
        s.ev("finalize", proc.name)
        if len(w.fin_arrived) >= len(w.job):
            for t in w.fin_waiters:
                s.wake(t)
        while len(w.fin_arrived) < len(w.job):
            w.fin_waiters.append(s.cur)
            s.block("MPI.Finalize")
        proc.mpi_fin = True

    libver = {
        "openmpi": "Open MPI v4.1.6, package: sim",
        "intel": "Intel(R) MPI Library 2021.8 for Linux* OS",
        "mpich": "MPICH Version:      4.2.1\nMPICH ABI: 16",
        "mpich_old": "MPICH Version:      4.1.2\nMPICH ABI: 16",
        "msmpi": "Microsoft MPI 10.1.12498.18",
    }[w.cfg.get("lib", "openmpi")]
    d.update(
        Init_thread=Init_thread,
        Init=Init_thread,
        Finalize=Finalize,
        Is_initialized=lambda: proc.mpi_init,
        Is_finalized=lambda: proc.mpi_fin,
        Query_thread=lambda: w.cfg.get("thread_level", 3),
        Get_library_version=lambda: libver,
        Get_version=lambda: (w.cfg.get("mpi_version", 3), 1),
        Get_processor_name=lambda: proc.host,
        Wtime=proc.now_s,
        Get_vendor=lambda: ("sim", (1, 0, 0)),
    )
    pkg = types.ModuleType("mpi4py")
    pkg.__version__ = "4.1.2"
    pkg.rc = proc.rc
    pkg.MPI = m
    pkg.__path__ = []
    util = types.ModuleType("mpi4py.util")
    util.__path__ = []
    pkl5 = types.ModuleType("mpi4py.util.pkl5")
    pkl5._bigmpi = BigMPI(w.cfg.get("blocksize", (1 << 31) - 1))
    util.pkl5 = pkl5
    pkg.util = util
    proc.managed = proc.managed + ("mpi4py",)
    for n, mod in (("mpi4py", pkg), ("mpi4py.MPI", m), ("mpi4py.util", util), ("mpi4py.util.pkl5", pkl5)):
        proc.add_module(n, mod)
    return m


# ---- job start ---------------------------------------------------------------


def start_job(world, nprocs, main_source, environ, hosts=None, envs=None, make_proc=None, label="<user program>"):
    """mpiexec -n nprocs: all processes run `main_source`."""
    procs = []
    for i in range(nprocs):
        h = (hosts or ["h0"] * nprocs)[i]
        e = dict(environ)
        if envs:
            e.update(envs[i])
        p = make_proc(f"p{len(world.procs)}", h, e)
        world.procs.append(p)
        procs.append(p)
    ctx = world.new_ctx(procs, "world")
    world.job.extend(procs)
    for i, p in enumerate(procs):
        make_modules(p, ctx, i, None)
    s = world.sched
    for p in procs:
        if world.cfg.get("start_skew"):
            skew = s.ch.value("skew", p.name, lambda r: r.randrange(1, 50 * MS) if r.random() < world.cfg.get("p_skew", 0.2) else None)
            if skew:
                s.count("startup_skew")
                p.stalled_until = s.now + skew
                s.at(p.stalled_until, lambda: None)
        p.start(main_source, label)
    return procs


def install_spawn(world, make_proc):
    def spawn(comm, command, args, maxprocs, info):
        parent = comm.proc
        s = world.sched
        if "-c" not in args:
            raise MPIError("simulated spawn supports `python -c CODE` only")
        code = args[args.index("-c") + 1]
        place = place_hosts(world, maxprocs, info)
        children = []
        for i in range(maxprocs):
            # spawned processes get the environment of the launcher, not what the program has set since
            p = make_proc(f"p{len(world.procs)}", place[i], {} if world.cfg.get("clean_env") else parent.environ)
            world.procs.append(p)
            children.append(p)
        world.job.extend(children)
        ctx = world.new_ctx(children, "world")
        shared = {"parents": list(comm.ctx.procs), "children": children, "seq": {}, "colls": {}, "ctx": world.new_ctx([], "inter")}
        for i, p in enumerate(children):
            make_modules(p, ctx, i, InterComm(p, shared, "children", i))
        for i, p in enumerate(children):
            skew = s.ch.value("skew", p.name, lambda r: r.randrange(1, 50 * MS) if r.random() < world.cfg.get("p_skew", 0.2) else None)
            if skew:
                s.count("startup_skew")
                p.stalled_until = s.now + skew
                s.at(p.stalled_until, lambda: None)
            p.start(code, "<spawned>")
        s.yield_("spawned")
        return InterComm(parent, shared, "parents", comm.ctx.procs.index(parent))

    world.spawn_fn = spawn


def place_hosts(world, n, info):
    root_host = world.procs[0].host
    if "add-host" in info:
        slots = []
        for part in info["add-host"].split(","):
            h, _, c = part.partition(":")
            slots += [h] * int(c or 1)
        if root_host in slots:
            slots.remove(root_host)
        if len(slots) < n:
            raise MPIError("There are not enough slots available in the system")
        return slots[:n]
    if "hosts" in info:
        hs = info["hosts"].split(",")
        # one slot of the first host is taken by the main program (block distribution)
        total = n + 1
        per = [total // len(hs) + (1 if i < total % len(hs) else 0) for i in range(len(hs))]
        slots = [h for h, c in zip(hs, per) for _ in range(c)]
        if root_host in slots:
            slots.remove(root_host)
        return slots[:n]
    if "host" in info:
        return [info["host"]] * n
    return [root_host] * n
