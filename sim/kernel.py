"""Deterministic scheduler: simulated threads, virtual time, choices.

Exactly one simulated thread runs at any time; which one runs next, and every other
nondeterministic decision, comes from `Choices` (one PRNG, recorded, replayable).
"""
import _thread
import hashlib
import heapq
import random
import sys

US = 1000  # ns
MS = 1000 * US
SEC = 1000 * MS


class Choices:
    """Source of every decision of a run.

    The default answer (False / 0 / None) always means "nothing unusual happens"; only
    non-default answers are recorded, so the record is the schedule and fault trace.
    """

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if seed is not None else None
        self.replay = replay
        self.cnt = {}
        self.log = {}
        self.drawn = 0

    def _key(self, kind, who):
        k = (kind, who)
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        return (kind, who, n)

    def chance(self, kind, who, p):
        key = self._key(kind, who)
        if self.replay is not None:
            return bool(self.replay.get(key))
        if p <= 0:
            return False
        self.drawn += 1
        if self.rng.random() < p:
            self.log[key] = 1
            return True
        return False

    def below(self, kind, who, n):
        key = self._key(kind, who)
        if self.replay is not None:
            v = self.replay.get(key, 0)
            return v if isinstance(v, int) and 0 <= v < n else 0
        if n <= 1:
            return 0
        self.drawn += 1
        v = self.rng.randrange(n)
        if v:
            self.log[key] = v
        return v

    def value(self, kind, who, fn):
        """`fn(rng)` gives a JSON value or None (default)."""
        key = self._key(kind, who)
        if self.replay is not None:
            return self.replay.get(key)
        self.drawn += 1
        v = fn(self.rng)
        if v is not None:
            self.log[key] = v
        return v


RUNNABLE, BLOCKED, DONE = 0, 1, 2


class SimThread:
    __slots__ = (
        "name", "proc", "lock", "state", "reason", "wake_token", "ordinal", "fn", "started",
        "poll_streak", "poll_mark", "probe_failed", "runnable_since", "prio", "nmpi", "yields",
        "op", "notified", "lines", "poll_dt", "ray_opts",
    )

    def __init__(self, name, proc, fn, ordinal):
        self.name = name
        self.proc = proc
        self.fn = fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = RUNNABLE
        self.reason = "start"
        self.wake_token = 0
        self.ordinal = ordinal
        self.started = False
        self.poll_streak = 0
        self.poll_mark = -1
        self.probe_failed = False
        self.runnable_since = 0
        self.prio = 0.0
        self.nmpi = 0
        self.yields = 0
        self.op = None
        self.lines = 0
        self.notified = False
        self.poll_dt = 0
        self.ray_opts = None


class SimStop(BaseException):
    """Unused by user code; raised only inside harness threads."""


class Sched:
    STEP = 1 * US
    POLL_CAP = 1 * SEC
    IDLE_LIMIT = 30 * SEC

    def __init__(self, choices, cfg):
        self.ch = choices
        self.cfg = cfg
        self.now = 0
        self.heap = []
        self.seq = 0
        self.threads = []
        self.cur = None
        self.loaded = None  # proc whose modules are in sys.modules
        self.steps = 0
        self.switches = 0
        self.atomic = 0
        self.progress = 0
        self.last_progress = 0
        self.real_events = 0
        self.finished = False
        self.done_lock = _thread.allocate_lock()
        self.done_lock.acquire()
        self.on_idle = None  # callable -> True if it made something happen
        self.verdict = None
        self.max_steps = cfg.get("max_steps", 400000)
        self.max_time = cfg.get("max_time", 4000 * SEC)
        self.strategy = cfg.get("strategy", "rand")
        self.p_switch = cfg.get("p_switch", 0.2)
        self.p_line = cfg.get("p_line", 0.0)
        self.focus_n = 0
        self.p_gc = cfg.get("p_gc", 0.0)
        self.stats = {}
        self.trace = [] if cfg.get("trace") else None
        self.hasher = hashlib.blake2b(digest_size=8)
        self.line_kinds = 0
        self.winlocks = 0
        self.gc_fn = None
        self.gc_plain = None
        self.in_gc = False
        self.change_points = set(cfg.get("pct_points", ()))
        self.names = {}

    # ---- bookkeeping -------------------------------------------------
    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def ev(self, *a):
        """Event log: order-sensitive hash, optional full trace."""
        self.hasher.update(repr(a).encode())
        if self.trace is not None:
            self.trace.append((self.steps, self.now, self.cur.name if self.cur else "-") + a)

    def made_progress(self):
        self.progress += 1
        self.last_progress = self.now

    # ---- threads -----------------------------------------------------
    def spawn(self, name, proc, fn):
        if name in self.names:
            self.names[name] += 1
            name = f"{name}.{self.names[name]}"
        else:
            self.names[name] = 0
        t = SimThread(name, proc, fn, len(self.threads))
        if self.strategy == "pct":
            t.prio = self.ch.rng.random() if self.ch.rng else 0.0
        t.runnable_since = self.steps
        self.threads.append(t)
        if proc is not None:
            proc.threads.append(t)
        _thread.start_new_thread(self._thread_main, (t,))
        self.made_progress()
        return t

    def _thread_main(self, t):
        t.lock.acquire()
        t.started = True
        try:
            t.fn()
        except SimStop:
            pass
        except BaseException as e:  # harness bug or unhandled error of a simulated thread
            import traceback

            self.stop({"kind": "harness", "detail": "".join(traceback.format_exception(e))[-3000:]})
        t.state = DONE
        if self.finished:
            return
        self.made_progress()
        self.ev("exit", t.name)
        nxt = self._next_blocked(t)
        if nxt is not None:
            self._handoff(nxt)

    def run(self):
        """Called by the controlling OS thread: hand the baton to the first thread, wait for the end."""
        t = self.threads[0]
        self._enter(t)
        t.lock.release()
        self.done_lock.acquire()

    def stop(self, verdict):
        if not self.finished:
            self.finished = True
            self.verdict = verdict
            self.done_lock.release()

    def stop_here(self, verdict):
        """Stop from a simulated thread: never returns."""
        self.stop(verdict)
        l = _thread.allocate_lock()
        l.acquire()
        l.acquire()

    # ---- time and events ---------------------------------------------
    def at(self, when, fn, real=True):
        self.seq += 1
        if real:
            self.real_events += 1
        heapq.heappush(self.heap, (when, self.seq, real, fn))

    def _fire_due(self):
        heap = self.heap
        while heap and heap[0][0] <= self.now:
            _, _, real, fn = heapq.heappop(heap)
            if real:
                self.real_events -= 1
            self.atomic += 1
            try:
                fn()
            finally:
                self.atomic -= 1

    # ---- scheduling points -------------------------------------------
    def _enter(self, t):
        self.cur = t
        p = t.proc
        if p is not None and p is not self.loaded:
            p.load_modules(self.loaded)
            self.loaded = p

    def _handoff(self, nxt):
        """Give the baton to nxt without waiting (current thread ends or parks by itself)."""
        self.switches += 1
        self.ev("run", nxt.name)
        self._enter(nxt)
        nxt.lock.release()

    def _switch(self, me, nxt):
        if nxt is me:
            return
        self._handoff(nxt)
        me.lock.acquire()
        if self.finished:
            l = _thread.allocate_lock()
            l.acquire()
            l.acquire()

    def _runnables(self):
        now = self.now
        return [t for t in self.threads if t.state == RUNNABLE and not (t.proc is not None and t.proc.stalled_until > now)]

    def _tick(self):
        self.steps += 1
        self.now += self.STEP
        if self.heap and self.heap[0][0] <= self.now:
            self._fire_due()
        if self.steps > self.max_steps or self.now > self.max_time:
            self.stop_here({"kind": "budget", "detail": f"steps={self.steps} now={self.now}"})

    def yield_(self, what="op"):
        """Scheduling point of the current thread, which stays runnable."""
        if self.atomic:
            return
        me = self.cur
        me.yields += 1
        self._tick()
        if self.p_gc and not self.winlocks and self.ch.chance("gc", me.name, self.p_gc):
            self._run_gc()
        nxt = None
        ch = self.ch
        if me.proc is not None and me.proc.stalled_until > self.now:
            nxt = self._next_blocked(me)
        else:
            if ch.replay is not None:
                v = ch.value("sw", me.name, None)
                if v is not None:
                    nxt = self._by_name(v)
            else:
                nxt = self._strategy_choice(me, what)
        if nxt is not None and nxt is not me:
            me.runnable_since = self.steps
            self._switch(me, nxt)

    def _by_name(self, name):
        for t in self._runnables():
            if t.name == name:
                return t
        return None

    def _strategy_choice(self, me, what):
        ch = self.ch
        key = ch._key("sw", me.name)
        st = self.strategy
        nxt = None
        rng = ch.rng
        if st == "pct":
            if self.steps in self.change_points:
                me.prio = -rng.random()
            rs = self._runnables()
            if len(rs) > 1:
                nxt = max(rs, key=lambda t: (t.prio, -t.ordinal))
                # fairness: nobody runnable starves forever
                old = min(rs, key=lambda t: (t.runnable_since, t.ordinal))
                if old is not me and self.steps - old.runnable_since > 1500:
                    nxt = old
                    old.runnable_since = self.steps
        elif st == "rr":
            pass
        else:
            if rng.random() < self.p_switch:
                rs = self._runnables()
                if len(rs) > 1:
                    nxt = rs[rng.randrange(len(rs))]
        if nxt is not None and nxt is not me:
            ch.log[key] = nxt.name
        return nxt

    def _next_blocked(self, me):
        """Current thread cannot go on: choose another runnable one, letting time pass if needed."""
        while True:
            rs = self._runnables()
            if rs:
                break
            if not self._advance():
                return None
        # default: round robin after me
        base = me.ordinal if me is not None else -1
        dflt = None
        for t in rs:
            if t.ordinal > base:
                dflt = t
                break
        if dflt is None:
            dflt = rs[0]
        ch = self.ch
        who = me.name if me is not None else "-"
        if ch.replay is not None:
            v = ch.value("nx", who, None)
            if v is not None:
                for t in rs:
                    if t.name == v:
                        return t
            return dflt
        key = ch._key("nx", who)
        if len(rs) == 1:
            return dflt
        if self.strategy == "pct":
            nxt = max(rs, key=lambda t: (t.prio, -t.ordinal))
            old = min(rs, key=lambda t: (t.runnable_since, t.ordinal))
            if self.steps - old.runnable_since > 1500:
                nxt = old
        elif self.strategy == "rr":
            nxt = dflt
        else:
            nxt = rs[ch.rng.randrange(len(rs))]
        if nxt is not dflt:
            ch.log[key] = nxt.name
        return nxt

    def _advance(self):
        """Nothing is runnable: jump to the next event, or decide that the system is idle."""
        self.steps += 1
        if self.steps > self.max_steps or self.now > self.max_time:
            self.stop_here({"kind": "budget", "detail": f"steps={self.steps} now={self.now}"})
        if self.real_events == 0 and (
            not self.heap or self.now - self.last_progress > self.IDLE_LIMIT
        ):
            # quiescent: no message under way, no real timer, pollers polled long enough
            self.atomic += 1
            try:
                again = self.on_idle() if self.on_idle else False
            finally:
                self.atomic -= 1
            if self.finished:
                l = _thread.allocate_lock()
                l.acquire()
                l.acquire()
            if again:
                self.made_progress()
                return True
            if not self.finished:
                self.stop_here({"kind": "idle", "detail": "quiescent"})
        if not self.heap:
            return True
        when = self.heap[0][0]
        if when > self.now:
            self.now = when
        self._fire_due()
        return True

    def block(self, reason, timeout=None, real=True):
        """Block the current thread until wake() or timeout (ns).  Returns True if woken."""
        me = self.cur
        if self.atomic:
            raise RuntimeError("simulated thread would block inside an atomic section: %s" % reason)
        self.steps += 1
        self.now += self.STEP
        me.state = BLOCKED
        me.reason = reason
        me.notified = False
        me.wake_token += 1
        if timeout is not None:
            tok = me.wake_token
            self.at(self.now + timeout, lambda: self._timer(me, tok), real)
        if self.heap and self.heap[0][0] <= self.now:
            self._fire_due()
        nxt = self._next_blocked(me)
        if nxt is not me:
            self._switch(me, nxt)
        me.reason = None
        return me.notified

    def _timer(self, t, tok):
        if t.state == BLOCKED and t.wake_token == tok:
            t.state = RUNNABLE
            t.runnable_since = self.steps

    def wake(self, t):
        if t.state == BLOCKED:
            t.state = RUNNABLE
            t.notified = True
            t.runnable_since = self.steps
            t.wake_token += 1

    def sleep(self, dt_ns):
        """Sleep of the current thread.  Repeated sleeps without any progress in the whole system are
        polling: they are stretched (a slow poller is legal) and do not count as pending activity."""
        me = self.cur
        if self.atomic:
            return
        if me.poll_mark == self.progress:
            me.poll_streak += 1
        else:
            me.poll_streak = 0
            me.poll_mark = self.progress
        poll = me.probe_failed
        me.probe_failed = False
        s = me.poll_streak
        if poll:
            dt = min(max(dt_ns, 1000) << min(s * 2, 40), max(self.POLL_CAP, dt_ns))
            me.poll_dt = max(dt_ns, 1000)
            self.block("poll", dt, real=False)
            me.poll_dt = 0
        elif s >= 3:
            dt = min(max(dt_ns, 1000) << min((s - 3) * 2, 40), max(self.POLL_CAP, dt_ns))
            self.block("sleep", dt, real=False)
        else:
            self.block("sleep", max(dt_ns, 0), real=True)

    def nudge(self, proc):
        """Something arrived for `proc`: its stretched pollers look again after their own back-off."""
        for t in proc.threads:
            if t.poll_dt and t.state == BLOCKED:
                self.at(self.now + t.poll_dt, lambda t=t, k=t.wake_token: self._timer(t, k), True)

    def _run_gc(self):
        if self.gc_plain is not None:
            # finalizers may block: they run like other code, in the process they belong to
            if self.cur.proc is self.gc_plain and not self.in_gc:
                self.count("gc_point")
                self.in_gc = True
                try:
                    self.gc_fn()
                finally:
                    self.in_gc = False
            return
        if self.gc_fn is not None:
            self.count("gc_point")
            self.atomic += 1
            try:
                self.gc_fn()
            finally:
                self.atomic -= 1

    def _focus_stall(self, me, ns):
        """The process is stopped for a while at the line it is about to execute."""
        self.count("line_stall")
        p = me.proc
        p.stalled_until = max(p.stalled_until, self.now + ns)
        self.at(p.stalled_until, lambda: None)
        nxt = self._next_blocked(me)
        if nxt is not None and nxt is not me:
            me.runnable_since = self.steps
            self._switch(me, nxt)

    # ---- line preemption ---------------------------------------------
    def on_line(self, focus=None):
        if self.atomic or self.finished:
            return
        me = self.cur
        me.lines = n = me.lines + 1
        ch = self.ch
        if ch.replay is not None:
            v = ch.replay.get(("ln", me.name, n))
            if v is None:
                return
            self._tick()
            if isinstance(v, list):
                self._focus_stall(me, v[0])
                return
            nxt = self._by_name(v)
        else:
            if focus is not None and self.focus_n < focus[3] and me.proc is not None and ch.rng.random() < focus[2]:
                self._tick()
                self.focus_n += 1
                ns = int(10 ** ch.rng.uniform(4, 7.5))
                ch.log[("ln", me.name, n)] = [ns]
                self._focus_stall(me, ns)
                return
            if ch.rng.random() >= self.p_line:
                return
            self._tick()
            rs = self._runnables()
            if len(rs) < 2:
                return
            nxt = rs[ch.rng.randrange(len(rs))]
            if nxt is me:
                return
            ch.log[("ln", me.name, n)] = nxt.name
        if nxt is not None and nxt is not me:
            self.count("line_preemption")
            me.runnable_since = self.steps
            self._switch(me, nxt)
