"""Runs one simulated execution (in a forked child) and many of them in parallel."""
import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

import simapi  # noqa: E402
import oracle  # noqa: E402
from sim import kernel, proc, fakempi, fakemp, fakedask, fakeray, simloop  # noqa: E402

WALL_LIMIT = float(os.environ.get("VERIF_RUN_LIMIT", "120"))


def drv_choices(case):
    if case.get("choices") is not None:
        rep = {tuple(k): v for k, v in case["choices"]}
        return kernel.Choices(replay=rep)
    return kernel.Choices(seed="ch%s" % case["seed"])


def arm_lines(sched, cfg):
    """Preemption inside the code under test: at any line with probability p_line, and, as `focus` = [m, k, p, max],
    stalls of the process with probability p at the lines of one of m groups."""
    if not cfg.get("p_line") and not cfg.get("focus"):
        return
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "verif")
    except ValueError:
        pass
    on_line = sched.on_line

    focus = cfg.get("focus")
    if focus:
        m, g = focus[:2]
        lines = bool(cfg.get("p_line"))

        def cb(code, x):
            if (code.co_firstlineno * 31 + x * 7) % m == g:
                on_line(focus)
            elif lines:
                on_line()
            else:
                return mon.DISABLE

        mon.restart_events()
    else:

        def cb(code, x):
            on_line()

    mon.register_callback(tool, mon.events.LINE, cb)
    mon.register_callback(tool, mon.events.INSTRUCTION, cb)
    instr = cfg.get("instr", ())

    def arm(code, path):
        ev = mon.events.INSTRUCTION if any(i in path for i in instr) else mon.events.LINE
        if cfg.get("line_only") and not any(i in path for i in cfg["line_only"]):
            return
        stack = [code]
        while stack:
            c = stack.pop()
            mon.set_local_events(tool, c, ev)
            stack.extend(k for k in c.co_consts if hasattr(k, "co_code"))

    for path, c in proc._code.items():
        if path.startswith(proc.REPO + "/unidist/") and "/config/" not in path:
            arm(c, path)


def install_stalls(sched, world, cfg):
    """Pre-drawn stalls (slow or stopped processes) and clock jumps."""
    ch = sched.ch
    for i in range(cfg.get("n_stalls", 0)):
        who = f"stall{i}"
        v = ch.value("stall", who, lambda r: [r.randrange(64), int(10 ** r.uniform(4, 9)), int(10 ** r.uniform(5, 9.3))])
        if v:
            def fire(v=v):
                live = [p for p in world.procs if p.exited is None]
                if live:
                    p = live[v[0] % len(live)]
                    p.stalled_until = max(p.stalled_until, sched.now + v[2])
                    sched.at(p.stalled_until, lambda: None)
                    sched.count("stall")

            sched.at(v[1], fire, False)
    for i in range(cfg.get("n_jumps", 0)):
        v = ch.value("jump", f"jump{i}", lambda r: [r.randrange(64), int(10 ** r.uniform(4, 9)), r.choice([-1, 1]) * int(10 ** r.uniform(6, 11))])
        if v:
            def jump(v=v):
                if world.procs:
                    p = world.procs[v[0] % len(world.procs)]
                    p.clock_offset += v[2]
                    p.mono_offset += max(v[2], 0)
                    sched.count("clock_jump")

            sched.at(v[1], jump, False)


class Run:
    """One simulated execution of one program on the MPI backend."""

    def __init__(self, case, trace=False):
        self.case = case
        cfg = self.cfg = dict(case["cfg"])
        if trace:
            cfg["trace"] = True
        self.program = case["program"]
        self.sched = kernel.Sched(drv_choices(case), cfg)
        self.violations = []
        self.w = simapi.begin(self.sched, self.program)
        self.final_checks = []
        self.idle_n = 0
        self.expect_root_exc = any(o[0] == "raise" for o in self.program["ops"])

    def bad(self, kind, detail):
        self.violations.append({"kind": kind, "detail": detail})

    def make_proc(self, name, host, env):
        p = proc.SimProc(self.world, name, host, env)
        p.fakes["simapi"] = simapi
        return p

    # -- end conditions
    def on_exit(self, p):
        if all(q.exited is not None for q in self.world.procs):
            self.sched.stop({"kind": "end"})

    def on_crash(self, p, exc, text):
        if p is self.world.procs[0] and isinstance(exc, simapi.TaskError) and exc.args[0] == -1:
            return
        if self.cfg.get("allow_crash"):
            return
        self.bad("crash", f"process {p.name} died: {text[-1500:]}")
        self.sched.stop({"kind": "crash"})

    def where(self):
        out = []
        for t in self.sched.threads:
            if t.state != kernel.DONE:
                out.append(f"{t.name}:{t.reason or 'runnable'}")
        return "; ".join(out)

    def on_idle(self):
        w = self.w
        self.idle_n += 1
        if w.root_phase == "start":
            msg = oracle.idle_problem(self.program, w, self.world)
            if msg:
                self.bad("hang", msg + " | " + self.where())
                self.sched.stop({"kind": "hang"})
                return False
        gates = w.gate_names()
        if gates:
            g = gates[self.sched.ch.below("gate", "idle", len(gates))]
            self.sched.ev("gate", g)
            w.open_gate(g)
            return True
        for name, rec in sorted(w.blocked.items()):
            if rec["op"] == "drain" and not rec.get("done"):
                rec["done"] = True
                w.rec("drained")
                self.sched.wake(rec["t"])
                return True
        for h in self.idle_hooks:
            if h():
                return True
        exited = [p.name for p in self.world.procs if p.exited is not None]
        self.bad("hang", f"the system is stuck in phase {w.root_phase} (exited: {exited}) blocked: {self.where()}"
                 + f" ops: {[(k, r['op'], r['refs']) for k, r in sorted(w.blocked.items())]}")
        self.sched.stop({"kind": "hang"})
        return False

    def execute(self):
        self.setup()
        self.sched.on_idle = self.on_idle
        self.sched.gc_fn = gc.collect
        self.sched.run()
        v = self.sched.verdict or {}
        k = v.get("kind")
        if k == "budget":
            self.bad("livelock", f"no end within the step/time budget: {v.get('detail')}; {self.where()}; phase {self.w.root_phase}")
        elif k == "harness":
            self.bad("harness", v.get("detail"))
        for name, ty, msg, ctx in self.world.async_errors:
            self.bad("async-error", f"process {name}: unhandled {ty}: {msg} ({ctx})")
        if not any(x["kind"] in ("hang", "crash", "livelock", "harness") for x in self.violations):
            self.finish_procs()
        if k != "harness":
            try:
                # calls submitted before the system came to rest have to have been executed
                last = max((i for i, r in enumerate(self.w.log) if r[3] == "drained"), default=0)
                settled = {r[4] for r in self.w.log[:last] if r[3] == "submit"}
                m = oracle.check_history(self.program, self.w, settled)
                self.violations += m.violations
                if self.case.get("placement_check"):
                    oracle.check_placement(m, self.program, self.w, self.cfg["cpus"])
                    self.violations += [v for v in m.violations if v not in self.violations]
                if self.case.get("cluster_check"):
                    oracle.check_cluster(m, self)
                    self.violations += [v for v in m.violations if v not in self.violations]
                for f in self.final_checks:
                    f(self, m)
            except NotImplementedError as e:
                self.bad("harness", f"model: {e}")
        return self.result()

    def finish_procs(self):
        for p in self.world.procs:
            if p.exited is None or p.exited[0] == "exc" and not (p is self.world.procs[0] and self.expect_root_exc):
                self.bad("exit", f"process {p.name} ended with {p.exited}")

    def result(self):
        s = self.sched
        # a violation is identified by its kind; details are for people
        return {
            "violations": self.violations,
            "choices": [[list(k), v] for k, v in s.ch.log.items()] if s.ch.replay is None else None,
            "hash": s.hasher.hexdigest(),
            "steps": s.steps,
            "switches": s.switches,
            "sim_ns": s.now,
            "stats": s.stats,
            "verdict": s.verdict,
            "ops": len(self.program["ops"]),
            "procs": len(self.world.procs),
            "trace": s.trace,
            "cover": sorted(self.cover()),
        }

    def cover(self):
        """Distinct abstract history of the run: order of task starts/ends per process and user-visible answers."""
        h = hashlib.blake2b(digest_size=8)
        for r in self.w.log:
            if r[3] in ("start", "end", "drain"):
                h.update(repr((r[2],) + tuple(r[3:5])).encode())
        return [h.hexdigest()]

    def setup(self):
        cfg = self.cfg
        self.world = world = fakempi.MpiWorld(self.sched, cfg)
        self.idle_hooks = []
        world.on_exit_hook = self.on_exit
        world.on_crash_hook = self.on_crash
        simloop.install(world)
        fakempi.install_spawn(world, self.make_proc)
        puts = {x[0] for x in self.program.get("cfg", [])}
        env = {"UNIDIST_BACKEND": "mpi"}
        if "CpuCount" not in puts:
            env["UNIDIST_CPUS"] = str(cfg.get("cpus", 2))
        env.update(cfg.get("env", {}))
        install_stalls(self.sched, world, cfg)
        mode = cfg.get("mode", "spawn")
        if mode == "spawn":
            fakempi.start_job(world, 1, simapi.ROOT, env, hosts=[cfg.get("hosts", ["h0"])[0]], make_proc=self.make_proc)
        else:
            if "MpiSpawn" not in puts:
                env["UNIDIST_MPI_SPAWN"] = "False"
            hosts = cfg["placement"]
            fakempi.start_job(world, len(hosts), simapi.ROOT, env, hosts=hosts, envs=cfg.get("envs"), make_proc=self.make_proc)
        arm_lines(self.sched, cfg)


class PympRun(Run):
    """The Python multiprocessing backend."""

    backend = "pymp"

    def make_proc(self, name, host, env):
        p = Run.make_proc(self, name, host, env)
        fakemp.install(p)
        return p

    def on_exit(self, p):
        if p is self.world.procs[0]:
            self.sched.stop({"kind": "end"})

    def setup(self):
        cfg = self.cfg
        self.world = world = fakempi.MpiWorld(self.sched, cfg)
        self.idle_hooks = []
        self.w.flavour = "pymp"
        world.on_exit_hook = self.on_exit
        world.on_crash_hook = self.on_crash
        simloop.install(world)
        fakemp.MpSim(world, self.make_proc)
        env = {"UNIDIST_BACKEND": "pymp", "UNIDIST_CPUS": str(cfg.get("cpus", 2))}
        install_stalls(self.sched, world, cfg)
        root = self.make_proc("root", "h0", env)
        world.procs.append(root)
        self.sched.gc_plain = root
        root.start(simapi.ROOT, "<root>")
        arm_lines(self.sched, cfg)

    def finish_procs(self):
        p = self.world.procs[0]
        if p.exited is None or p.exited[0] == "exc":
            self.bad("exit", f"process {p.name} ended with {p.exited}")


class PoolRun(PympRun):
    """The Dask or Ray backend on top of a stand-in for its scheduler."""

    mod = None

    def make_proc(self, name, host, env):
        p = Run.make_proc(self, name, host, env)
        self.mod.install(p, self.mod.X)
        return p

    def setup(self):
        cfg = self.cfg
        self.world = world = fakempi.MpiWorld(self.sched, cfg)
        self.idle_hooks = []
        self.w.flavour = self.backend
        world.on_exit_hook = self.on_exit
        world.on_crash_hook = self.on_crash
        simloop.install(world)
        self.sim = self.make_sim(world)
        env = {"UNIDIST_BACKEND": self.backend, "UNIDIST_CPUS": str(cfg.get("cpus", 2))}
        self.w.ip = world.ip_of("h0")
        self.w.layout = {self.w.ip: cfg.get("cpus", 2)}
        if cfg.get("layout"):
            env.update(self.cluster_env)
            self.w.layout = {}
            for h, n in cfg["layout"]:
                ip = world.ip_of(h)
                self.w.layout[ip] = self.w.layout.get(ip, 0) + n
        install_stalls(self.sched, world, cfg)
        root = self.make_proc("root", "h0", env)
        world.procs.append(root)
        self.sched.gc_plain = root
        root.start(simapi.ROOT, "<root>")
        arm_lines(self.sched, cfg)

    def finish_procs(self):
        self.w.crashed.update(getattr(self.sim, "crashed", ()))
        PympRun.finish_procs(self)

    def on_idle(self):
        self.w.crashed.update(getattr(self.sim, "crashed", ()))
        return PympRun.on_idle(self)

    def result(self):
        if self.sim.unsupported:
            # the program uses something the stand-in does not have: nothing can be said about this run
            self.sched.count("inconclusive")
            self.sched.count("unsupported " + sorted(self.sim.unsupported)[0])
            self.violations = []
        return PympRun.result(self)


class DaskRun(PoolRun):
    backend = "dask"
    mod = fakedask
    cluster_env = {"UNIDIST_DASK_CLUSTER": "True", "UNIDIST_DASK_SCHEDULER_ADDRESS": "tcp://scheduler:8786"}

    def make_sim(self, world):
        return fakedask.DaskSim(world, self.make_proc)


class RayRun(PoolRun):
    backend = "ray"
    mod = fakeray
    cluster_env = {"UNIDIST_RAY_CLUSTER": "True", "UNIDIST_RAY_REDIS_ADDRESS": "scheduler:6379", "UNIDIST_RAY_REDIS_PASSWORD": "secret"}

    def make_sim(self, world):
        return fakeray.RaySim(world, self.make_proc)


class CopyRun:
    """The native copy routine on its own."""

    def __init__(self, case, trace=False):
        self.case = case
        self.violations = []
        self.stats = {}
        self.hasher = hashlib.blake2b(digest_size=8)

    def bad(self, kind, detail):
        if len(self.violations) < 5:
            self.violations.append({"kind": kind, "detail": detail})

    def rec(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def execute(self):
        from sim import copyrun

        ops = self.case["program"]["ops"]
        h = copyrun.run_ops(ops, self.bad, self.rec)
        n = sum(o.get("threads", 1) for _, o in ops)
        return {"violations": self.violations, "choices": None, "hash": h, "steps": len(ops), "switches": n, "sim_ns": 0, "stats": self.stats,
                "verdict": {"kind": "end"}, "ops": len(ops), "procs": 1, "trace": None, "cover": [h]}


RUNNERS = {"mpi": Run, "pymp": PympRun, "copy": CopyRun, "dask": DaskRun, "ray": RayRun}


def run_here(case, trace=False):
    return RUNNERS[case.get("kind", "mpi")](case, trace).execute()


def preload():
    """Compile everything once in the template process (forked children inherit it)."""
    for base, dirs, files in os.walk(os.path.join(proc.REPO, "unidist")):
        dirs[:] = [d for d in dirs if d not in ("test", "tests", "__pycache__")]
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(base, f)
                try:
                    proc.code_of(p)
                except SyntaxError:
                    pass
    cp = os.path.dirname(proc.CLOUDPICKLE_INIT)
    for f in ("__init__.py", "cloudpickle.py", "cloudpickle_fast.py"):
        p = os.path.join(cp, f)
        if os.path.exists(p):
            proc.code_of(p)
    import msgpack, pandas, psutil, asyncio  # noqa: F401,E401
    import pickle, weakref, inspect, functools, itertools, collections, concurrent.futures  # noqa: F401,E401
    import packaging.version  # noqa: F401

    from sim import build_ext

    build_ext.load()
    gc.collect()
    gc.freeze()
    gc.disable()


def child(case, fd, trace=False):
    signal.alarm(int(WALL_LIMIT))
    try:
        if not os.environ.get("VERIF_DEBUG"):
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
        r = run_here(case, trace)
    except BaseException as e:
        r = {"violations": [{"kind": "harness", "detail": "".join(traceback.format_exception(e))[-3000:]}], "hash": "", "steps": 0,
             "switches": 0, "sim_ns": 0, "stats": {}, "verdict": None, "ops": 0, "procs": 0, "trace": None, "choices": None, "cover": []}
    data = pickle.dumps(r, protocol=5)
    off = 0
    while off < len(data):
        off += os.write(fd, data[off : off + 65536])
    os._exit(0)


def fork_run(case, trace=False):
    for r in run_many(iter([case]), 1, trace=trace):
        return r[1]


def run_many(cases, jobs=8, trace=False, stop=None):
    """Yield (case, result) in completion order; cases is an iterator of case dicts."""
    live = {}
    it = iter(cases)
    more = True
    while True:
        while more and len(live) < jobs:
            if stop is not None and stop():
                more = False
                break
            try:
                c = next(it)
            except StopIteration:
                more = False
                break
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for x in live:
                    os.close(x)
                child(c, wfd, trace)
                os._exit(0)
            os.close(wfd)
            live[r] = [pid, c, [], time.time()]
        if not live:
            return
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rs:
            d = os.read(fd, 1 << 20)
            if d:
                live[fd][2].append(d)
                continue
            pid, c, bufs, t0 = live.pop(fd)
            os.close(fd)
            _, st = os.waitpid(pid, 0)
            try:
                res = pickle.loads(b"".join(bufs))
            except Exception:
                sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                native = sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
                res = {"violations": [{"kind": "native-crash" if native else "harness",
                                       "detail": f"simulated process died with signal {sig} status {st} after {time.time()-t0:.0f}s"}], "hash": "",
                       "steps": 0, "switches": 0, "sim_ns": 0, "stats": {}, "verdict": None, "ops": 0, "procs": 0, "trace": None,
                       "choices": None, "cover": []}
            yield c, res
        now = time.time()
        for fd, v in list(live.items()):
            if now - v[3] > WALL_LIMIT + 20:
                try:
                    os.kill(v[0], signal.SIGKILL)
                except OSError:
                    pass
