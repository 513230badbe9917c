"""What simulated user programs call: values, task bodies, actors, the program interpreter, gates, the log.

One instance shared by all simulated processes of a run (it stands for the outside world that observes the
system); it never keeps references to objects of the system under test beyond the interpreter's own names.
"""
import gc
import hashlib
import json
import types
import weakref

import numpy as np

W = None  # current RunState
MARK = b"\x9aTRK\x9b"


class TaskError(Exception):
    def __init__(self, tok, extra=None):
        Exception.__init__(self, tok, extra)
        self.tok = tok
        if W is not None:
            W.tracks.append(("error %s" % tok, weakref.ref(self)))

    def __reduce__(self):
        return (TaskError, self.args)


class Obj:
    def __init__(self, tag, payload):
        self.tag = tag
        self.payload = payload


class Track:
    """A value whose copies can be counted: every instance is known, every buffer of it carries a marker."""

    def __init__(self, ident, payload):
        self.ident = ident
        self.payload = payload
        if W is not None:
            W.tracks.append((ident, weakref.ref(self)))

    def __reduce__(self):
        return (Track, (self.ident, self.payload))


class Unpicklable:
    def __reduce__(self):
        raise TypeError("cannot pickle this object")


# ---- values --------------------------------------------------------------
def _bytes(n, seed):
    return np.random.RandomState(seed & 0x7FFFFFFF).bytes(n)


def make(v):
    k = v[0]
    if k == "int":
        return v[1]
    if k == "float":
        return float(v[1]) + 0.5
    if k == "bool":
        return bool(v[1])
    if k == "none":
        return None
    if k == "str":
        return "s%d:" % v[2] + "x" * v[1]
    if k == "bytes":
        return _bytes(v[1], v[2])
    if k == "arr":
        dt, shape, seed = v[1], tuple(v[2]), v[3]
        n = int(np.prod(shape)) * np.dtype(dt).itemsize
        return np.frombuffer(bytearray(_bytes(n, seed)), dtype=dt).reshape(shape)
    if k == "list":
        return [make(x) for x in v[1]]
    if k == "tup":
        return tuple(make(x) for x in v[1])
    if k == "dict":
        return {a: make(b) for a, b in v[1]}
    if k == "obj":
        return Obj(v[1], make(v[2]))
    if k == "trk":
        b = MARK + b"%08d" % v[1] + _bytes(v[2], v[1])
        return Track(v[1], b if v[3] == "b" else np.frombuffer(bytearray(b), dtype=np.uint8))
    if k == "fn":
        n = v[1]
        return lambda y: (n, y)
    if k == "df":
        import pandas as pd

        r = np.random.RandomState(v[2] & 0x7FFFFFFF)
        return pd.DataFrame({"a": r.randint(0, 1000, v[1]), "b": r.rand(v[1]), "c": ["r%d" % (i ^ v[2]) for i in range(v[1])]})
    raise ValueError(k)


def _canon(o, h):
    t = type(o)
    if o is None or t in (int, bool, float, str):
        h.update(f"{t.__name__}:{o!r};".encode())
    elif t is types.FunctionType:
        h.update(f"function:{o(7)!r};".encode())
    elif t in (bytes, bytearray):
        h.update(f"{t.__name__}{len(o)}:".encode())
        h.update(o)
    elif t in (list, tuple):
        h.update(f"{t.__name__}{len(o)}[".encode())
        for x in o:
            _canon(x, h)
        h.update(b"]")
    elif t is dict:
        h.update(f"dict{len(o)}{{".encode())
        for k in o:
            _canon(k, h)
            h.update(b"=")
            _canon(o[k], h)
        h.update(b"}")
    elif isinstance(o, np.ndarray):
        h.update(f"nd{o.dtype.str}{o.shape}:".encode())
        h.update(o.tobytes())
    elif isinstance(o, np.generic):
        h.update(f"ng{o.dtype.str}:".encode() + o.tobytes())
    elif t is Obj:
        h.update(b"obj:")
        _canon(o.tag, h)
        _canon(o.payload, h)
    elif t is Track:
        h.update(b"trk:")
        _canon(o.ident, h)
        _canon(o.payload, h)
    elif isinstance(o, BaseException):
        h.update(f"exc:{err_key(o)};".encode())
    elif t.__name__ == "DataFrame":
        h.update(b"df:")
        for c in o.columns:
            _canon(c, h)
            _canon(o[c].tolist(), h)
    elif t.__name__ in ("ObjectRef", "MpiDataID", "DataID"):
        h.update(b"<ref>")
    elif "Actor" in t.__name__:
        h.update(b"<actor>")
    else:
        h.update(f"?{t.__name__}:{o!r}".encode())


def canon(o):
    h = hashlib.blake2b(digest_size=8)
    _canon(o, h)
    return h.hexdigest()


def err_key(e):
    if type(e).__name__.startswith("RayTaskError"):
        e = e.cause
    return f"{type(e).__name__}{e.args!r}"


def short(o):
    try:
        r = repr(o)
    except Exception as e:  # pragma: no cover
        r = f"<unrepresentable {type(o).__name__}: {e}>"
    return r if len(r) < 120 else r[:117] + "..."


FAILS = {
    "task": lambda tok: TaskError(tok),
    "task2": lambda tok: TaskError(tok, [1, "x"]),
    "value": lambda tok: ValueError("bad %d" % tok),
    "key": lambda tok: KeyError(tok),
    "zero": lambda tok: ZeroDivisionError("division by zero", tok),
    "mem": lambda tok: MemoryError("oom %d" % tok),
    "big": lambda tok: TaskError(tok, "x" * 2500),
}


# ---- run state ---------------------------------------------------------------
class RunState:
    """Log and outside world of one run."""

    def __init__(self, sched, program):
        self.sched = sched
        self.program = program
        self.log = []
        self.open_gates = set()
        self.gate_waiters = {}
        self.async_waiters = {}
        self.blocked = {}  # thread name -> op record
        self.running = {}  # proc name -> list of running sync tokens
        self.obs = []  # observations (results of user-visible operations)
        self.root_phase = "start"
        self.started = {}
        self.ended = {}
        self.submitted = {}
        self.flavour = "mpi"
        self.hooks = {"memory": memory_hook}
        self.tracks = []
        self.twins = {}
        self.crashed = set()

    def rec(self, *a):
        s = self.sched
        self.log.append((s.steps, s.now, s.cur.proc.name) + a)
        s.ev("log", *[x for x in a if isinstance(x, (int, str))])

    def gate_names(self):
        return sorted(self.gate_waiters.keys() | self.async_waiters.keys())

    def open_gate(self, g):
        self.open_gates.add(g)
        s = self.sched
        for t in self.gate_waiters.pop(g, []):
            s.wake(t)
        for loop, fut in self.async_waiters.pop(g, []):
            if not loop.is_closed():
                loop.call_soon_threadsafe(lambda f=fut: f.done() or f.set_result(None))


def census():
    """Idents of tracked values (instances or marked buffers) that are alive anywhere in the simulated system."""
    gc.collect()
    alive = [i for i, r in W.tracks if r() is not None]
    seen = {}
    bufs = []
    for o in gc.get_objects():
        for x in gc.get_referents(o):
            t = type(x)
            if t is bytes or t is bytearray:
                b = x
            elif t is np.ndarray and x.base is None and x.dtype == np.uint8 and x.nbytes < 60000:
                b = x.tobytes()
            else:
                continue
            if len(b) < 16 or id(x) in seen:
                continue
            seen[id(x)] = x
            at = 0
            while True:
                at = b.find(MARK, at)
                if at < 0:
                    break
                bufs.append(int(bytes(b[at + len(MARK) : at + len(MARK) + 8])))
                at += 1
    return sorted(map(str, alive)), sorted(map(str, bufs))


def memory_hook(ud, o, env, who, idx):
    W.sched.atomic += 1
    try:
        objs, bufs = census()
    finally:
        W.sched.atomic -= 1
    W.obs.append(("memory", o["limit"], objs, bufs))


def begin(sched, program):
    global W
    W = RunState(sched, program)
    return W


# ---- task bodies -----------------------------------------------------------------
def _result_values(spec, digest, extra=None):
    out = []
    for j, v in enumerate(spec["res"]):
        p = make(v)
        if spec.get("raw"):
            out.append(p)
        else:
            r = [spec["id"], j, digest, p]
            if extra is not None:
                r.append(extra)
            out.append(r)
    return out


def _finish(spec, vals):
    n = spec["n"]
    if n == 0:
        return None
    if n == 1:
        return vals[0]
    return tuple(vals) if spec.get("tuple") else vals


def arg_digest(args, kwargs):
    return canon([list(args), [[k, kwargs[k]] for k in sorted(kwargs)]])


def _poke(v):
    """Try to write to shared objects, as careless programs do; it has to be refused."""
    if isinstance(v, (list, tuple)):
        for x in v:
            _poke(x)
    elif hasattr(v, "flags") and hasattr(v, "dtype"):
        try:
            v[...] = 0
        except ValueError:
            pass


def run_task(spec, args, kwargs, unidist=None, extra=None):
    """Body of every synchronous remote function and actor method."""
    w = W
    s = w.sched
    spec = json.loads(spec) if isinstance(spec, str) else spec
    tok = spec["id"]
    proc = s.cur.proc
    d = arg_digest(args, kwargs)
    w.rec("start", tok, d)
    w.started.setdefault(tok, []).append((proc.name, d))
    w.running.setdefault(proc.name, []).append(tok)
    s.made_progress()
    try:
        if spec.get("poke"):
            _poke(args)
        if spec.get("opts"):
            _check_opts(w, spec)
        if spec.get("pause"):
            s.block("task body", spec["pause"])
        g = spec.get("gate")
        if g:
            while g not in w.open_gates:
                w.gate_waiters.setdefault(g, []).append(s.cur)
                s.block("gate %s" % g)
        sub = None
        if spec.get("sub"):
            sub = run_ops(unidist, spec["sub"], {}, tok, list(args))
        args = kwargs = None
        if spec.get("fail"):
            raise FAILS[spec["fail"]](tok)
        if spec.get("chk") is not None:  # re-read a long lived argument after the pause
            pass
        vals = _result_values(spec, d, extra if extra is not None else sub)
    finally:
        w.running[proc.name].remove(tok)
        w.rec("end", tok)
        w.ended.setdefault(tok, []).append((proc.name, s.steps))
        s.made_progress()
    if spec.get("bad") == "unpicklable":
        return Unpicklable()
    return _finish(spec, vals)


def run_task_hold(spec, args, kwargs, unidist=None):
    """Like run_task, but digests the arguments again after the pause (they must not change meanwhile)."""
    spec = json.loads(spec)
    r = run_task(spec, args, kwargs, unidist)
    d2 = arg_digest(args, kwargs)
    W.rec("again", spec["id"], d2)
    return r


async def run_async(spec, args, kwargs, unidist=None, extra=None):
    import asyncio

    w = W
    s = w.sched
    spec = json.loads(spec)
    tok = spec["id"]
    proc = s.cur.proc
    d = arg_digest(args, kwargs)
    w.rec("start", tok, d)
    w.started.setdefault(tok, []).append((proc.name, d))
    s.made_progress()
    try:
        for _ in range(spec.get("hops", 0)):
            await asyncio.sleep(0)
        if spec.get("pause"):
            await asyncio.sleep(spec["pause"] / 1e9)
        g = spec.get("gate")
        if g and g not in w.open_gates:
            loop = asyncio.get_event_loop()
            f = loop.create_future()
            w.async_waiters.setdefault(g, []).append((loop, f))
            await f
        if spec.get("fail"):
            raise FAILS[spec["fail"]](tok)
        vals = _result_values(spec, d, extra)
    finally:
        w.rec("end", tok)
        w.ended.setdefault(tok, []).append((proc.name, s.steps))
        s.made_progress()
    if spec.get("bad") == "unpicklable":
        return Unpicklable()
    return _finish(spec, vals)


def _check_opts(w, spec):
    got = {k: v for k, v in (w.sched.cur.ray_opts or {}).items() if k in ("num_cpus", "resources") and v is not None}
    if got != spec["opts"]:
        w.obs.append(("opts", spec["id"], got, spec["opts"]))


def actor_init(self, spec, args, kwargs):
    """Body of actor constructors."""
    w = W
    spec = json.loads(spec)
    self.hist = "init:%d" % spec["id"]
    self.n = 0
    self.kept = []
    self.key = spec["id"]
    if spec.get("pause"):
        w.sched.block("actor init", spec["pause"])
    if spec.get("opts"):
        _check_opts(w, spec)
    d = arg_digest(args, kwargs)
    w.rec("ainit", spec["id"], d)
    w.started.setdefault(("a", spec["id"]), []).append((w.sched.cur.proc.name, d))
    if spec.get("fail"):
        raise FAILS[spec["fail"]](spec["id"])


def chain(h, tok):
    return hashlib.blake2b(f"{h}|{tok}".encode(), digest_size=6).hexdigest()


def actor_step(self, spec, a=(), k=()):
    """State change of an actor method, made in two halves around a scheduling point."""
    sp = json.loads(spec)
    if sp.get("keep"):  # arguments stored in the actor's state have to stay what they were
        self.kept.append((sp["id"], canon((a, k)), a, k))
    for tok, d, x, y in self.kept:
        if canon((x, y)) != d:
            W.obs.append(("kept", "actor %s" % self.key, sp["id"], "arguments of call %s" % tok, short((x, y))))
    h, n = self.hist, self.n
    W.rec("astep", self.key, sp["id"])
    W.sched.yield_("actor")
    self.hist = chain(h, sp["id"])
    self.n = n + 1
    return [self.key, self.n, self.hist]


def give(self, spec, r):
    """Some methods change a buffer that is part of the actor's state, and return that very buffer."""
    v = json.loads(spec).get("give")
    if v is None:
        return r
    if not hasattr(self, "buf"):
        self.buf = np.zeros(400, dtype=np.int64)
    self.buf[:] = v
    return self.buf


# functions submitted by tasks (pickled by reference)
def task(spec, *a, **k):
    import unidist

    return run_task(spec, a, k, unidist)


class Act:
    def __init__(self, spec, *a, **k):
        actor_init(self, spec, a, k)

    def call(self, spec, *a, **k):
        import unidist

        st = actor_step(self, spec, a, k)
        return give(self, spec, run_task(spec, a, k, unidist, extra=st))

    def twin(self, key, *a, **k):
        return twin(key, a, k)

    async def acall(self, spec, *a, **k):
        st = actor_step(self, spec, a, k)
        return await run_async(spec, a, k, None, extra=st)


def nested_fns(ud):
    proc = W.sched.cur.proc
    d = getattr(proc, "nested_fns", None)
    if d is None:
        d = proc.nested_fns = {"task": ud.remote(task), "Act": ud.remote(Act)}
    return d


ROOT = """
import simapi
import unidist.config as cfg
for _n, _v in simapi.W.program.get("cfg", []):
    getattr(cfg, _n).put(_v)
import unidist
unidist.init()
simapi.W.rec("root-ready")

@unidist.remote
def task(spec, *a, **k):
    import simapi, unidist
    return simapi.run_task(spec, a, k, unidist)

@unidist.remote
def hold(spec, *a, **k):
    import simapi, unidist
    return simapi.run_task_hold(spec, a, k, unidist)

@unidist.remote(num_returns=3)
def task3(spec, *a, **k):
    return simapi.run_task(spec, a, k, unidist)

@unidist.remote
class Act:
    def __init__(self, spec, *a, **k):
        simapi.actor_init(self, spec, a, k)
    def call(self, spec, *a, **k):
        st = simapi.actor_step(self, spec, a, k)
        return simapi.give(self, spec, simapi.run_task(spec, a, k, unidist, extra=st))
    def twin(self, key, *a, **k):
        return simapi.twin(key, a, k)
    async def acall(self, spec, *a, **k):
        import simapi
        st = simapi.actor_step(self, spec, a, k)
        return await simapi.run_async(spec, a, k, None, extra=st)

@unidist.remote
def twin(key, *a, **k):
    import simapi
    return simapi.twin(key, a, k)

@unidist.remote
def probe(names, envs):
    import simapi
    return simapi.look(names, envs)

simapi.run_ops(unidist, simapi.W.program["ops"], {}, "root")
simapi.W.root_phase = "end"
"""


def twin(key, a, k):
    """A call that cannot be told from others: what matters is how often it is executed."""
    w = W
    n = w.twins[key] = w.twins.get(key, 0) + 1
    w.rec("twin", key)
    w.sched.made_progress()
    w.sched.yield_("twin")
    return [key, n, arg_digest(a, k)]


def look(names, envs):
    """What the process that executes this sees: who it is, its settings and its environment."""
    p = W.sched.cur.proc
    cfg = p.sysmods["unidist.config"]
    return [p.name, p.host, [repr(getattr(cfg, n).get()) for n in names], [p.environ.get(e) for e in envs]]


# ---- program interpreter --------------------------------------------------------------
class Blocked:
    def __init__(self, rec):
        self.rec = rec

    def __enter__(self):
        W.blocked[W.sched.cur.name] = self.rec

    def __exit__(self, *a):
        W.blocked.pop(W.sched.cur.name, None)


def build_arg(a, env):
    k, v = a[0], a[1]
    if k == "ref":
        return env[v]
    if k == "v":
        return make(v)
    if k == "list":
        return [build_arg(x, env) for x in v]
    if k == "tup":
        return tuple(build_arg(x, env) for x in v)
    if k == "dict":
        return {n: build_arg(x, env) for n, x in v}
    if k == "actor":
        return env[v]
    if k == "name":  # a local (mutable) object of the program
        return env[v]
    raise ValueError(k)


def arg_names(a, out=None):
    out = [] if out is None else out
    k, v = a[0], a[1]
    if k in ("ref", "actor", "name"):
        out.append(v)
    elif k in ("list", "tup"):
        for x in v:
            arg_names(x, out)
    elif k == "dict":
        for _, x in v:
            arg_names(x, out)
    return out


def op_inputs(op):
    k = op[0]
    o = op[1]
    if k in ("call", "acall", "actor"):
        r = []
        for a in o["a"]:
            arg_names(a, r)
        for _, a in o["k"]:
            arg_names(a, r)
        if k == "acall":
            r.append(o["actor"])
        return r
    if k in ("get", "wait"):
        return list(o["refs"])
    if k == "twins":
        r = [o["actor"]] if o.get("actor") else []
        for a in o["a"]:
            arg_names(a, r)
        return r
    if k in ("del", "mutate", "check", "putname", "alias"):
        return [o["name"]]
    return []


def op_outputs(op):
    k = op[0]
    o = op[1]
    if k in ("put", "actor", "local", "putname", "alias"):
        return [o["out"]]
    if k in ("call", "acall"):
        return list(o["out"])
    return []


def filter_ops(ops, names=()):
    """Ops whose inputs exist (so that any subsequence of a program is a program)."""
    have = set(names)
    out = []
    for op in ops:
        if all(n in have for n in op_inputs(op)):
            if op[0] == "del":
                have.discard(op[1]["name"])
            have.update(op_outputs(op))
            out.append(op)
    return out


def run_ops(ud, ops, env, who, args=None):
    """Interpret a program.  `who` is "root" or the token of the task running it.  Returns a digest of what it saw."""
    w = W
    s = w.sched
    seen = []
    if args is not None:
        # nested program: its arguments are values (already materialised) or actor handles
        for i, a in enumerate(args):
            env["$%d" % i] = a
    main = s.cur.proc.main.__dict__ if who == "root" else nested_fns(ud)
    for idx, op in enumerate(ops):
        k, o = op[0], op[1]
        if any(n not in env for n in op_inputs(op)):
            continue
        s.ev("op", str(who), idx, k)
        if k == "put":
            try:
                env[o["out"]] = ud.put(make(o["v"]))
            except MemoryError:
                w.obs.append(("putreject", who, o["out"]))
                if o.get("may_reject") != "mem":
                    w.obs.append(("badreject", who, o["out"], "MemoryError"))
        elif k == "unfit":
            _unfit(ud, main, o, env, w)
        elif k == "room":
            # how much can be stored?
            held, total = [], 0
            for z in o["sizes"]:
                while True:
                    try:
                        held.append(ud.put(bytes(z)))
                    except MemoryError:
                        break
                    total += z
            w.obs.append(("room", who, idx, total, o["slack"]))
            w.rec("room", total)
            del held
        elif k == "local":
            env[o["out"]] = make(o["v"])
        elif k == "putname":
            env[o["out"]] = ud.put(env[o["name"]])
        elif k == "alias":
            # another handle of an actor: the same object, or one that went through the object store
            env[o["out"]] = ud.get(ud.put(env[o["name"]])) if o.get("copy") else env[o["name"]]
            w.rec("alias", o["out"], o["name"], bool(o.get("copy")))
        elif k == "mutate":
            _mutate(env[o["name"]], o["seed"])
        elif k in ("call", "acall"):
            _submit(ud, main, k, o, env, who, seen)
        elif k == "actor":
            _actor(ud, main, o, env, who, seen)
        elif k == "get":
            _get(ud, o, env, who, idx, seen)
        elif k == "wait":
            _wait(ud, o, env, who, idx)
        elif k == "recheck":
            # objects fetched earlier have to stay what they were, whatever happened to their references
            for n in sorted(x for x in env if x[0] == "="):
                x, d = env[n]
                if canon(x) != d:
                    w.obs.append(("kept", who, idx, n[1:], short(x)))
            x = None
        elif k == "unkeep":
            for n in o["names"]:
                env.pop("=" + n, None)
        elif k == "del":
            del env[o["name"]]
            w.rec("dropped", o["name"])
        elif k == "gc":
            s._run_gc()
        elif k == "sleep":
            s.block("user sleep", o["ns"])
        elif k == "open":
            w.open_gate(o["gate"])
            s.yield_("open")
        elif k == "shutdown":
            w.root_phase = "shutdown"
            w.rec("shutdown")
            ud.shutdown()
            w.rec("shutdown-done")
        elif k == "raise":
            w.root_phase = "raise"
            raise TaskError(-1, "root")
        elif k == "exit":
            w.root_phase = "exit"
            raise SystemExit(o.get("code", 0))
        elif k == "probe":
            w.rec("probe")
            rec = {"op": "get", "refs": [], "who": who, "idx": idx, "step": s.steps}
            with Blocked(rec):
                rows = ud.get([main["probe"].remote(o["names"], o["envs"]) for _ in range(o["n"])])
            w.obs.append(("probe", who, idx, rows, look(o["names"], o["envs"])[2]))
        elif k == "twins":
            f = env[o["actor"]].twin if o.get("actor") else main["twin"]
            w.rec("twins", o["key"])
            rs = [f.remote(o["key"], *[build_arg(x, env) for x in o["a"]]) for _ in range(o["n"])]
            rec = {"op": "get", "refs": [], "who": who, "idx": idx, "step": s.steps, "twins": True}
            with Blocked(rec):
                try:
                    vals = ud.get(rs)
                except Exception as e:
                    vals = err_key(e)
                    e = None
            w.obs.append(("twins", who, idx, o["key"], o["n"], w.twins.get(o["key"], 0), vals))
            rs = f = None
        elif k == "resources":
            w.obs.append(("resources", who, idx, ud.cluster_resources()))
        elif k == "size":
            w.obs.append(("size", ud.num_cpus(), {h: v["CPU"] for h, v in ud.cluster_resources().items()}, ud.is_initialized(), ud.get_ip()))
        elif k == "ready":
            w.obs.append(("is_initialized", who, idx, ud.is_initialized()))
        elif k == "drain":
            w.rec("drain")
            rec = {"op": "drain", "refs": [], "who": who, "idx": idx, "step": s.steps, "t": s.cur}
            with Blocked(rec):
                while not rec.get("done"):
                    s.block("drain")
        elif k == "hook":
            w.hooks[o["name"]](ud, o, env, who, idx)
        else:
            raise ValueError(k)
    return seen if args is not None else None


def _mutate(x, seed):
    if isinstance(x, np.ndarray):
        b = x.reshape(-1).view(np.uint8)
        b[:] = np.frombuffer(_bytes(len(b), seed), dtype=np.uint8)
    elif isinstance(x, bytearray):
        x[:] = _bytes(len(x), seed)
    elif isinstance(x, list):
        for y in x:
            _mutate(y, seed)
        x.append(seed)
    elif isinstance(x, dict):
        for y in x.values():
            _mutate(y, seed)
        x["mut"] = seed
    elif isinstance(x, Obj):
        _mutate(x.payload, seed)
        x.tag = seed
    elif type(x).__name__ == "DataFrame":
        x.iloc[:, 0] = seed


class Unfit:
    """Something that cannot be serialized."""

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot be serialized")


def _unfit(ud, main, o, env, w):
    x, how = Unfit(), o["how"]
    try:
        a = [build_arg(e, env) for e in o["a"]]
        spec = json.dumps({"id": -1, "n": 1, "res": [["none"]]})
        if how == "put":
            ud.put([a and np.arange(500), x])
        elif how == "arg":
            main["task"].remote(spec, *a, x)
        elif how == "tup":
            main["task"].remote(spec, *a, (1, x))
        elif how == "dict":
            main["task"].remote(spec, *a, {"k": [x]})
        elif how == "kw":
            main["task"].remote(spec, *a, x=x)
        elif how == "fn":
            ud.remote(lambda: x).remote()
        elif how == "ctor":
            main["Act"].remote(json.dumps({"id": -1}), x)
        elif how == "act":
            env[o["actor"]].call.remote(spec, *a, x)
    except Exception as e:
        w.rec("unfit", how, repr(e)[:80])
        e.__traceback__ = None
    else:
        w.rec("unfit", how, "accepted")


def _submit(ud, main, k, o, env, who, seen):
    w = W
    t = o["t"]
    tok = t["id"]
    spec = json.dumps(t)
    a = [build_arg(x, env) for x in o["a"]]
    kw = {n: build_arg(x, env) for n, x in o["k"]}
    n = t["n"]
    w.submitted[tok] = (who, o)
    w.rec("submit", tok)
    try:
        if k == "call":
            f = main[o.get("fn", "task")]
            if o.get("deco"):
                f = ud.remote(**o["deco"])(task)
            if o.get("opts"):
                f = f.options(num_returns=None if n == 1 else n, **o["opts"])
            elif o.get("opt", True) and n != 1:
                f = f.options(num_returns=n)
            r = f.remote(spec, *a, **kw)
        else:
            m = getattr(env[o["actor"]], o["m"])
            if n != 1:
                m = m.options(num_returns=n)
            r = m.remote(spec, *a, **kw)
    except Exception as e:
        w.rec("reject", tok, err_key(e))
        w.obs.append(("reject", who, tok, err_key(e)))
        w.submitted.pop(tok, None)
        if not o.get("may_reject") or (o["may_reject"] == "mem") != isinstance(e, MemoryError):
            w.obs.append(("badreject", who, tok, err_key(e)))
        e = None
        return
    finally:
        a = kw = None
    w.rec("submitted", tok)
    if n == 1:
        env[o["out"][0]] = r
    elif n > 1:
        if not isinstance(r, list) or len(r) != n:
            w.obs.append(("badrefs", who, tok, short(r)))
            return
        for nm, x in zip(o["out"], r):
            env[nm] = x
    elif r is not None:
        w.obs.append(("badrefs", who, tok, short(r)))


def _actor(ud, main, o, env, who, seen):
    w = W
    a = [build_arg(x, env) for x in o["a"]]
    kw = {n: build_arg(x, env) for n, x in o["k"]}
    spec = json.dumps(o["t"])
    w.rec("actor", o["t"]["id"])
    try:
        f = main[o["cls"]]
        if o.get("deco"):
            f = ud.remote(**o["deco"])(Act)
        if o.get("opts"):
            f = f.options(**o["opts"])
        env[o["out"]] = f.remote(spec, *a, **kw)
        w.rec("created", o["t"]["id"])
    except Exception as e:
        w.rec("areject", o["t"]["id"], err_key(e))
        w.obs.append(("areject", who, o["t"]["id"], err_key(e)))
        if not o.get("may_reject") or (o["may_reject"] == "mem") != isinstance(e, MemoryError):
            w.obs.append(("badreject", who, o["t"]["id"], err_key(e)))
        e = None
    a = kw = None


def _get(ud, o, env, who, idx, seen):
    w = W
    refs = [env[n] for n in o["refs"]]
    single = o.get("single") and len(refs) == 1
    rec = {"op": "get", "refs": list(o["refs"]), "who": who, "idx": idx, "step": w.sched.steps}
    w.rec("get", *o["refs"])
    try:
        with Blocked(rec):
            v = ud.get(refs[0] if single else refs)
    except Exception as e:
        w.obs.append(("get", who, idx, list(o["refs"]), "err", err_key(e), w.sched.steps, w.root_phase))
        seen.append("err:" + err_key(e))
        e = None
        refs = None
        w.sched.made_progress()
        return
    vals = [v] if single else v
    if not isinstance(vals, list) or len(vals) != len(refs):
        w.obs.append(("get", who, idx, list(o["refs"]), "bad", short(vals), w.sched.steps))
        return
    ds = [canon(x) for x in vals]
    w.obs.append(("get", who, idx, list(o["refs"]), "ok", ds, w.sched.steps, [short(x) for x in vals]))
    seen.extend(ds)
    if o.get("keep"):
        for n, x, d in zip(o["refs"], vals, ds):
            env["=" + n] = (x, d)
    w.sched.made_progress()


def _wait(ud, o, env, who, idx):
    w = W
    refs = [env[n] for n in o["refs"]]
    rec = {"op": "wait", "refs": list(o["refs"]), "k": o["k"], "who": who, "idx": idx, "step": w.sched.steps}
    w.rec("wait", *o["refs"])
    try:
        with Blocked(rec):
            ready, rest = ud.wait(refs[0] if o.get("single") and len(refs) == 1 else list(refs), num_returns=o["k"])
    except Exception as e:
        w.obs.append(("wait", who, idx, list(o["refs"]), o["k"], "err", err_key(e)))
        e = None
        return
    pairs = [(getattr(r, "_ref", r), n) for r, n in zip(refs, o["refs"])]

    def name(r):
        r = getattr(r, "_ref", r)
        for x, n in pairs:
            if x is r:
                return n
        for x, n in pairs:
            if x == r:
                return n
        return "?"

    w.obs.append(("wait", who, idx, list(o["refs"]), o["k"], "ok", [name(r) for r in ready], [name(r) for r in rest], w.sched.steps,
                  sorted(map(str, w.ended))))
    w.sched.made_progress()
