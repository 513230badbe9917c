"""Seeded generation of configurations (environment, faults, schedule style) and user programs."""
import random

US, MS, SEC = 1000, 1000000, 1000000000


# ---- values -----------------------------------------------------------------
def small(r):
    k = r.randrange(8)
    if k == 0:
        return ["int", r.choice([0, 1, -1, 7, 2**31, -(2**40), r.randrange(1000)])]
    if k == 1:
        return ["str", r.choice([0, 1, 5, 40]), r.randrange(1000)]
    if k == 2:
        return ["bytes", r.choice([0, 1, 7, 64]), r.randrange(1000)]
    if k == 3:
        return ["none"]
    if k == 4:
        return ["float", r.randrange(100)]
    if k == 5:
        return ["bool", r.randrange(2)]
    if k == 6:
        return ["list", [small(r) for _ in range(r.randrange(3))]]
    return ["dict", [["k%d" % i, small(r)] for i in range(r.randrange(3))]]


def arr(r, big):
    n = r.choice([1, 3, 8, 9, 33, 64, 65, 100, 200] + [big // 16, big // 8, big // 8 + 1] if big > 256 else [1, 3, 8, 9])
    dt = r.choice(["<i8", "<f8", "|u1", "<i2"])
    if dt in ("<f8",):
        dt = "<i8"
    if r.random() < 0.2 and n % 2 == 0:
        return ["arr", dt, [n // 2, 2], r.randrange(10**6)]
    return ["arr", dt, [n], r.randrange(10**6)]


def value(r, big=2048, p_big=0.5):
    if r.random() >= p_big:
        return small(r)
    k = r.randrange(10)
    if k < 4:
        return arr(r, big)
    if k < 6:
        return ["list", [arr(r, big) if r.random() < 0.6 else small(r) for _ in range(r.randrange(1, 4))]]
    if k == 6:
        return ["dict", [["a", arr(r, big)], ["b", small(r)]]]
    if k == 7:
        return ["obj", r.randrange(1000), arr(r, big)]
    if k == 8 and r.random() < 0.3:
        return ["fn", r.randrange(1000)]
    if k == 8:
        return ["bytes", r.choice([100, big // 2, big]), r.randrange(10**6)]
    return ["df", r.choice([1, 5, 20]), r.randrange(10**6)]


def _no_fn(x):
    """Functions are not supported inside of tuples (plain pickle)."""
    if x[0] == "v" and x[1][0] == "fn":
        return ["v", ["str", 5, x[1][1]]]
    if x[0] == "dict":
        return ["dict", [[k, _no_fn(y)] for k, y in x[1]]]
    if x[0] in ("list", "tup"):
        return [x[0], [_no_fn(y) for y in x[1]]]
    return x


# ---- environment ----------------------------------------------------------------
def env_cfg(r, shared=None, cpus=None, hosts=1, p_line=0.35, faults=True):
    if shared is None:
        shared = r.random() < 0.45
    c = {
        "cpus": cpus if cpus is not None else r.choice([1, 2, 2, 3, 3, 4]),
        "eager": r.choice([0, 64, 512, 4096, 4096, 1 << 30]),
        "lat_base": r.choice([1 * US, 5 * US, 50 * US]),
        "p_lat": r.choice([0, 0.05, 0.3, 0.7]),
        "lat_max": r.choice([200 * US, 5 * MS, 200 * MS]),
        "p_slow_pair": r.choice([0, 0, 0.1, 0.3]),
        "strategy": r.choice(["rand", "rand", "rand", "pct", "rr"]),
        "p_switch": r.choice([0.02, 0.1, 0.3, 0.6]),
        "p_gc": r.choice([0, 0, 0.002, 0.01]),
        "shm_init": r.choice([0, 0, 0xA5]),
        "p_skew": r.choice([0, 0.2, 0.6]),
        "p_anysrc": r.choice([0, 0.1, 0.5]),
        "tag_reorder": r.random() < 0.15,
        "env": {},
        "shared": shared,
    }
    if c["strategy"] == "pct":
        c["pct_points"] = sorted(r.randrange(1, 3000) for _ in range(r.randrange(1, 8)))
    if faults:
        c["n_stalls"] = r.choice([0, 0, 1, 2, 4])
        c["n_jumps"] = r.choice([0, 0, 0, 2])
    if r.random() < p_line:
        c["p_line"] = r.choice([0.005, 0.02, 0.08])
        c["instr"] = ["shared_object_store", "shared_memory_manager"] if r.random() < 0.5 else []
    if faults and r.random() < 0.35:
        m = r.choice([4, 16, 48])
        c["focus"] = [m, r.randrange(m), r.choice([0.02, 0.1, 0.5]), r.choice([3, 10, 30])]
    e = c["env"]
    e["UNIDIST_MPI_SHARED_OBJECT_STORE"] = "True" if shared else "False"
    if shared:
        c["lib"] = "openmpi"
        c["shm_bytes"] = 8 << 20
        c["ram_bytes"] = 16 << 20
        e["UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD"] = str(r.choice([0, 100, 500, 1500]))
        e["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = str(r.choice([1 << 18, 1 << 20]))
        e["UNIDIST_MPI_SHARED_SERVICE_MEMORY"] = str(r.choice([1 << 14, 1 << 16]))
    else:
        c["lib"] = r.choice(["openmpi", "intel", "mpich"])
    if r.random() < 0.5:
        e["UNIDIST_MPI_PICKLE_THRESHOLD"] = str(r.choice([0, 64, 1024, 1 << 20]))
    if r.random() < 0.3:
        e["UNIDIST_MPI_BACKOFF"] = r.choice(["0.0001", "0.001", "0.01"])
    if r.random() < 0.25:
        c["blocksize"] = r.choice([100, 1000])
    if r.random() < 0.3:
        c["mode"] = "spmd"
        c["placement"] = ["h0"] * (c["cpus"] + 2)
    return c


# ---- programs ----------------------------------------------------------------------
class G:
    def __init__(self, r, big=2048, p_big=0.5):
        self.r = r
        self.ops = []
        self.ids = 0
        self.nname = 0
        self.refs = []  # live reference names
        self.failing = set()
        self.task_refs = set()
        self.actors = []
        self.failed_actors = set()
        self.small_results = False
        self.big, self.p_big = big, p_big
        self.p_gate = self.p_pause = self.p_fail = 0.0
        self.nrets = [1, 1, 1, 2, 3]
        self.p_raw = 0.3
        self.ngates = 0
        self.p_nest_arg = 0.3
        self.gates = []
        self.flat = False
        self.p_bad = 0
        self.pause_hi = 8
        self.fns = True

    def name(self, p="r"):
        self.nname += 1
        return f"{p}{self.nname}"

    def tok(self):
        self.ids += 1
        return self.ids

    def op(self, kind_, **o):
        self.ops.append([kind_, o])
        return o

    def val(self):
        v = value(self.r, self.big, self.p_big)
        if v[0] == "fn" and not self.fns:
            return ["str", 5, v[1]]
        return v

    def put(self, v=None):
        n = self.name("p")
        self.op("put", out=n, v=v or self.val())
        self.refs.append(n)
        return n

    def spec(self, n, p_fail=None, p_gate=None):
        r = self.r
        t = {"id": self.tok(), "n": n, "res": [small(r) if self.small_results else self.val() for _ in range(n)]}
        if r.random() < self.p_raw or any(v[0] == "fn" for v in t["res"]):
            t["raw"] = 1
        if n > 1 and r.random() < 0.5:
            t["tuple"] = 1
        if r.random() < self.p_pause:
            t["pause"] = int(10 ** r.uniform(3, self.pause_hi))
        if r.random() < (self.p_gate if p_gate is None else p_gate):
            self.ngates += 1
            t["gate"] = "g%d" % r.randrange(max(1, self.ngates))
            if t["gate"] not in self.gates:
                self.gates.append(t["gate"])
        if r.random() < (self.p_fail if p_fail is None else p_fail):
            t["fail"] = r.choice(["task", "task2", "value", "key", "zero", "mem", "big"])
            if self.p_bad and n == 1 and r.random() < self.p_bad:
                del t["fail"]
                t["bad"] = "unpicklable"
        return t

    def arg(self, depth=0, refs=None, flat=False):
        """`flat`: references only as direct arguments (all that actor methods support)."""
        r = self.r
        flat = flat or self.flat
        refs = self.refs if refs is None else refs
        ok = [n for n in refs if n not in self.failing] if depth else refs
        if depth and flat:
            ok = []
        x = r.random()
        if ok and x < 0.65:
            # prefer recent ones
            return ["ref", r.choice(ok[-6:] if r.random() < 0.6 else ok)]
        if depth < 2 and x < 0.65 + 0.35 * self.p_nest_arg:
            k = r.choice(["list", "tup", "dict"])
            n = r.randrange(4)
            if k == "dict":
                return ["dict", [["d%d" % i, self.arg(depth + 1, refs, flat)] for i in range(n)]]
            x = [self.arg(depth + 1, refs, flat) for _ in range(n)]
            return [k, [_no_fn(y) for y in x] if k == "tup" else x]
        return ["v", self.val()]

    def unfit(self):
        """A submission or put of something that cannot be serialized; it is refused and nothing else happens."""
        r = self.r
        how = r.choice(["put", "arg", "arg", "tup", "dict", "kw", "fn", "ctor"] + ["act"] * 3 * bool(self.actors))
        a, _ = self.args(flat=True)
        o = self.op("unfit", how=how, a=[x for x in a if x[0] != "ref" or x[1] not in self.failing])
        if how == "act":
            o["actor"] = r.choice(self.actors)

    def args(self, refs=None, flat=False):
        r = self.r
        a = [self.arg(0, refs, flat) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        k = [["k%d" % i, self.arg(0, refs, flat)] for i in range(r.choice([0, 0, 0, 1, 2]))]
        return a, k

    def _reg(self, outs, t, a, k):
        from simapi import arg_names

        deps = []
        for x in a:
            if x[0] == "ref":
                deps.append(x[1])
        for _, x in k:
            if x[0] == "ref":
                deps.append(x[1])
        if t.get("fail") or t.get("bad") or any(d in self.failing for d in deps):
            self.failing.update(outs)
        self.refs.extend(outs)
        self.task_refs.update(outs)

    def call(self, n=None, a=None, k=None, fn="task", **kw):
        r = self.r
        n = r.choice(self.nrets) if n is None else n
        t = self.spec(n)
        t.update(kw)
        if a is None:
            a, k = self.args()
        outs = [self.name() for _ in range(n)]
        if n == 3 and fn == "task" and r.random() < 0.3:
            self.op("call", out=outs, a=a, k=k or [], t=t, fn="task3", opt=False)
        else:
            self.op("call", out=outs, a=a, k=k or [], t=t, fn=fn)
        self._reg(outs, t, a, k or [])
        return outs

    def actor(self, a=None, k=None, **kw):
        n = self.name("A")
        t = {"id": self.tok()}
        t.update(kw)
        if a is None:
            a = [["v", small(self.r)] for _ in range(self.r.randrange(2))]
        if k is None and self.r.random() < 0.4:
            k = [["k%d" % i, ["v", small(self.r)]] for i in range(self.r.randrange(1, 3))]
        self.op("actor", out=n, a=a, k=k or [], cls="Act", t=t)
        self.actors.append(n)
        return n

    def acall(self, actor=None, n=None, m="call", a=None, k=None, **kw):
        r = self.r
        actor = actor or r.choice(self.actors)
        n = r.choice(self.nrets) if n is None else n
        t = self.spec(n)
        t.update(kw)
        if m == "acall" and r.random() < 0.5:
            t["hops"] = r.randrange(4)
        if a is None:
            a, k = self.args(flat=True)
        outs = [self.name() for _ in range(n)]
        self.op("acall", actor=actor, m=m, out=outs, a=a, k=k or [], t=t)
        if actor in self.failed_actors:
            self.failing.update(outs)
        self._reg(outs, t, a, k or [])
        return outs

    def get(self, refs=None, single=None):
        r = self.r
        if refs is None:
            if not self.refs:
                return
            refs = [r.choice(self.refs) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        self.op("get", refs=list(refs), single=(r.random() < 0.5 if single is None else single))

    def flush(self):
        """Give the garbage collector of the main program every opportunity: all calls done, time passed, API used."""
        self.op("drain")
        self.op("sleep", ns=int(self.r.choice([1.1, 1.6]) * SEC))
        for _ in range(2):
            p = self.put(["int", 5])
            for _ in range(4):
                self.op("get", refs=[p], single=True)
            self.delete(p)

    def churn(self, cycles, live, per, act=False):
        """Objects come and go: in every cycle `per` new ones, dropped in random order down to `live`, then a clean-up."""
        r = self.r
        for _ in range(cycles):
            for _ in range(per):
                k = r.randrange(10)
                if k < 4:
                    self.put()
                elif k < 9 or not act:
                    self.call(n=r.choice([1, 1, 2]), **({"fn": "hold"} if r.random() < 0.3 else {}))
                else:
                    self.acall(n=1, a=[["ref", r.choice(self.refs)]] if self.refs else [], k=[])
                if r.random() < 0.2:
                    self.get()
            old = r.sample(self.refs, len(self.refs))
            keep = set(old[: r.randrange(live + 1)])
            for x in old:
                if x not in keep:
                    self.delete(x)
            if r.random() < 0.9:
                self.flush()
            if r.random() < 0.3 and self.refs:
                self.get(list(self.refs), False)

    def wait(self, refs=None, k=None):
        r = self.r
        if refs is None:
            if not self.refs:
                return
            refs = r.sample(self.refs, r.randrange(1, min(6, len(self.refs)) + 1))
        self.op("wait", refs=list(refs), k=k or r.randrange(1, len(refs) + 1))

    def delete(self, n=None):
        r = self.r
        if n is None:
            if not self.refs:
                return
            n = r.choice(self.refs)
        self.refs.remove(n)
        self.op("del", name=n)

    def finish(self, shutdown=None, gets=True):
        """Fetch everything, let the system come to rest, end."""
        r = self.r
        if r.random() < 0.3:
            self.op("drain")
        if gets:
            left = list(self.refs)
            r.shuffle(left)
            while left:
                n = r.choice([1, 1, 2, 4, 100])
                part, left = left[:n], left[n:]
                if any(p in self.failing for p in part):
                    bad = [p for p in part if p in self.failing]
                    good = [p for p in part if p not in self.failing]
                    for b in bad:
                        self.op("get", refs=[b], single=True)
                        if r.random() < 0.3:
                            self.op("get", refs=[b] + good, single=False)
                    if good:
                        self.op("get", refs=good, single=False)
                else:
                    self.op("get", refs=part, single=len(part) == 1 and r.random() < 0.7)
        self.op("drain")
        sd = r.randrange(3) if shutdown is None else shutdown
        if sd >= 1:
            self.op("shutdown")
        if sd == 2:
            self.op("shutdown")

    def program(self):
        return {"ops": self.ops}


def mix(g, n, weights):
    """n random steps."""
    r = g.r
    kinds = [k for k, w in weights for _ in range(w)]
    for _ in range(n):
        k = r.choice(kinds)
        if k == "put":
            g.put()
        elif k == "call":
            g.call()
        elif k == "call0":
            g.call(n=0)
        elif k == "get":
            g.get()
        elif k == "wait":
            g.wait()
        elif k == "del":
            if len(g.refs) > 1:
                g.delete()
        elif k == "actor":
            if len(g.actors) < 1:
                g.actor()
        elif k == "acall":
            if g.actors:
                g.acall()
        elif k == "aacall":
            if g.actors:
                g.acall(m="acall")
        elif k == "gc":
            g.op("gc")
        elif k == "unfit":
            g.unfit()
        elif k == "sleep":
            g.op("sleep", ns=int(10 ** r.uniform(3, 8)))
        elif k == "open":
            if g.gates:
                g.op("open", gate=r.choice(g.gates))
        elif k == "nested":
            nested(g)
        elif k == "many":
            for _ in range(r.randrange(3, 12)):
                g.call(n=1)


def nested(g, blocking=None, fetch=True):
    """A task that itself uses the API (depth one; blocking ones are awaited before the next)."""
    r = g.r
    s = G(r, g.big, g.p_big)
    s.ids = g.ids
    s.p_pause = g.p_pause
    s.nrets = [1, 1, 2]
    nargs = r.randrange(3)
    a = [["ref", r.choice([x for x in g.refs if x not in g.failing])] if [x for x in g.refs if x not in g.failing] and r.random() < 0.6 else ["v", g.val()] for _ in range(nargs)]
    for _ in range(r.randrange(1, 6)):
        k = r.randrange(5)
        if k == 0:
            s.put()
        elif k <= 2:
            s.call()
        elif k == 3:
            s.call(n=0) if r.random() < 0.3 else s.call()
        elif blocking is not False:
            s.get()
    if blocking is not False and s.refs and r.random() < 0.8:
        for b in s.refs:
            if r.random() < 0.7:
                s.op("get", refs=[b], single=True)
        if r.random() < 0.4:
            s.op("get", refs=[x for x in s.refs], single=False)
    g.ids = s.ids
    has_get = any(o[0] == "get" for o in s.ops)
    outs = g.call(n=1, a=a, k=[], sub=s.ops)
    if has_get and fetch:
        g.op("get", refs=outs, single=True)
    return outs


def hosts_cfg(r, c, nhosts):
    """Spread the job of configuration `c` over hosts: mpiexec placements or spawned on UNIDIST_MPI_HOSTS."""
    hs = ["h%d" % i for i in range(nhosts)]
    c["hosts"] = hs
    mon = nhosts if c["shared"] else 1
    total = c["cpus"] + mon + 1
    if r.random() < 0.6:
        c["mode"] = "spmd"
        need = []
        for i, h in enumerate(hs):
            # root and monitor on the first host; monitor and at least one worker elsewhere
            need += [h, h]
        while len(need) < total:
            need.append(r.choice(hs))
        k = r.randrange(3)
        if k == 0:
            need.sort()
        elif k == 1:
            left = {h: need.count(h) for h in hs}
            out = []
            while any(left.values()):
                for h in hs:
                    if left[h]:
                        out.append(h)
                        left[h] -= 1
            need = out
        else:
            need.remove("h0")
            r.shuffle(need)
            need.insert(0, "h0")
        c["placement"] = need
        c["cpus"] = len(need) - 1 - mon
    else:
        c.pop("mode", None)
        c.pop("placement", None)
        c["env"]["UNIDIST_MPI_HOSTS"] = ",".join(hs)
    return c


def worker_garbage(g, n=13, p_put=0.8, rounds=1):
    """A task that creates and drops objects on its worker until the clean-up of the worker itself runs."""
    r = g.r
    s = G(r, g.big, g.p_big)
    s.ids = g.ids
    for _ in range(rounds):
        for _ in range(n):
            p = s.put() if r.random() < p_put else s.call(n=1)[0]
            if r.random() < 0.9:
                if p in s.task_refs:
                    s.op("get", refs=[p], single=True)
                s.delete(p)
        if s.task_refs & set(s.refs):
            s.op("get", refs=sorted(s.task_refs & set(s.refs)), single=False)
        s.op("sleep", ns=int((1.1 if p_put == 1 else r.choice([0.2, 1.1, 1.6])) * SEC))
        for _ in range(4 if p_put == 1 else r.randrange(1, 7)):
            p = s.put(["int", 5])
            s.op("get", refs=[p], single=True)
            s.delete(p)
    g.ids = s.ids
    return g.call(n=1, a=[], k=[], sub=s.ops)
