"""Reference model and history checks for programs of simapi."""
import numpy as np
import simapi
from simapi import arg_digest, canon, err_key, make, op_inputs


class Err:
    """Outcome of a failed call: one of these errors."""

    def __init__(self, keys):
        self.keys = set(keys)


class Local:
    """A mutable object of the program itself."""

    def __init__(self, v):
        self.v = v


class Actor:  # its type name makes canon() print <actor>
    def __init__(self, key):
        self.key = key


class Model:
    def __init__(self, program, w):
        self.program = program
        self.w = w
        self.tok = {}  # token -> ("ok", values) | Err
        self.deps = {}  # token -> list of dep tokens (top level errors propagate)
        self.expect_args = {}
        self.caller = {}  # token -> who
        self.actor_of = {}  # token -> actor key
        self.order = {}  # (who, actor key) -> [tokens]
        self.isasync = {}
        self.gets = {}  # (who, idx) -> (names, [values])
        self.names = {}  # (who, name) -> token or None (put)
        self.actor_init = {}
        self.violations = []
        self.putrej = {(o[1], o[2]) for o in w.obs if o[0] == "putreject"}
        # results that may not have fitted into the store: what the first single get said holds for ever
        self.nofit = {(o[1], o[3][0]): o[5] for o in w.obs
                      if o[0] == "get" and o[4] == "err" and len(o[3]) == 1 and o[5].startswith("MemoryError")}
        self.rejected = {o[2] for o in w.obs if o[0] in ("reject", "areject")}
        self.steps = {}
        self.state = {}
        for r in w.log:
            if r[3] == "astep":
                self.steps.setdefault(r[4], []).append(r[5])
        for key, toks in self.steps.items():
            h, n = "init:%d" % key, 0
            for t in toks:
                h = simapi.chain(h, t)
                n += 1
                self.state[(key, t)] = [key, n, h]
        self.obs_get = {}
        for o in w.obs:
            if o[0] == "get":
                self.obs_get[(o[1], o[2])] = o

    def bad(self, kind, detail):
        self.violations.append({"kind": kind, "detail": detail})

    # -- evaluation
    def arg(self, a, env):
        k, v = a[0], a[1]
        if k in ("ref", "name"):
            x = env[v]
            return x.v if isinstance(x, Local) else x
        if k == "v":
            return make(v)
        if k == "list":
            return [self.inner(x, env) for x in v]
        if k == "tup":
            return tuple(self.inner(x, env) for x in v)
        if k == "dict":
            return {n: self.inner(x, env) for n, x in v}
        if k == "actor":
            return env[v]
        raise ValueError(k)

    def inner(self, a, env):
        v = self.arg(a, env)
        if isinstance(v, Err):
            raise NotImplementedError("failing reference inside a container")
        return v

    def run(self):
        self.eval_ops(self.program["ops"], {}, "root", None)
        return self

    def eval_ops(self, ops, env, who, args):
        seen = []
        if args is not None:
            for i, a in enumerate(args):
                env["$%d" % i] = a
        tokname = {}
        for idx, op in enumerate(ops):
            k, o = op[0], op[1]
            if any(n not in env for n in op_inputs(op)):
                continue
            if k == "put":
                if (who, o["out"]) in self.putrej:
                    continue
                env[o["out"]] = make(o["v"])
                self.names[(who, o["out"])] = None
            elif k == "local":
                env[o["out"]] = Local(make(o["v"]))
            elif k == "putname":
                env[o["out"]] = _copy(env[o["name"]].v)
                self.names[(who, o["out"])] = None
            elif k == "alias":
                env[o["out"]] = env[o["name"]]
            elif k == "mutate":
                simapi._mutate(env[o["name"]].v, o["seed"])
            elif k in ("call", "acall"):
                t = o["t"]
                tok = t["id"]
                if tok in self.rejected:
                    continue
                if tok not in self.w.submitted:
                    continue  # the program never got here
                self.caller[tok] = who
                self.deps[tok] = [tokname[n] for n in op_inputs(op) if n in tokname]
                a = [_copy(self.arg(x, env)) for x in o["a"]]
                kw = {n: _copy(self.arg(x, env)) for n, x in o["k"]}
                key = None
                if k == "acall":
                    key = env[o["actor"]].key
                    self.actor_of[tok] = key
                    self.order.setdefault((who, key), []).append(tok)
                    self.isasync[tok] = o["m"] == "acall"
                out = self.outcome(t, a, kw, tok, key)
                self.tok[tok] = out
                for j, nm in enumerate(o["out"]):
                    env[nm] = out if isinstance(out, Err) else out[j]
                    if t.get("maybe") and (who, nm) in self.nofit:
                        env[nm] = Err({self.nofit[(who, nm)]})
                    tokname[nm] = tok
                    self.names[(who, nm)] = tok
            elif k == "actor":
                if o["t"]["id"] in self.rejected:
                    continue
                a = [_copy(self.arg(x, env)) for x in o["a"]]
                kw = {n: _copy(self.arg(x, env)) for n, x in o["k"]}
                self.actor_init[o["t"]["id"]] = (arg_digest(a, kw), o["t"].get("fail"))
                env[o["out"]] = Actor(o["t"]["id"])
            elif k == "get":
                vals = [env[n] for n in o["refs"]]
                self.gets[(who, idx)] = (list(o["refs"]), vals)
                errs = set()
                for v in vals:
                    if isinstance(v, Err):
                        errs |= v.keys
                if errs:
                    ob = self.obs_get.get((who, idx))
                    if len(errs) > 1 and ob and ob[4] == "err" and ob[5] in errs:
                        seen.append("err:" + ob[5])
                    else:
                        seen.append("err:" + sorted(errs)[0])
                else:
                    seen.extend(canon(v) for v in vals)
            elif k == "del":
                env.pop(o["name"], None)
        return seen

    def outcome(self, t, a, kw, tok, key):
        errs = set()
        for v in list(a) + list(kw.values()):
            if isinstance(v, Err):
                errs |= v.keys
        if errs:
            return Err(errs)
        if key is not None:
            init = self.actor_init.get(key)
            if init and init[1]:
                return Err({err_key(simapi.FAILS[init[1]](key))})
        d = arg_digest(a, kw)
        self.expect_args[tok] = d
        extra = None
        if key is not None:
            extra = self.state.get((key, tok), "never ran")
        sub = None
        if t.get("sub"):
            sub = self.eval_ops(t["sub"], {}, tok, a)
        if tok in self.w.crashed:
            return Err({"WorkerCrashedError()"})
        if t.get("fail"):
            return Err({err_key(simapi.FAILS[t["fail"]](tok))})
        if t.get("bad"):
            return Err({err_key(TypeError("cannot pickle this object"))})
        if t.get("give") is not None:
            return [np.full(400, t["give"], dtype=np.int64)]
        return simapi._result_values(t, d, extra if extra is not None else sub)

    # -- status during the run (used at quiescence)
    def resolved(self, tok, memo=None):
        memo = {} if memo is None else memo
        if tok in memo:
            return memo[tok]
        if tok in self.w.ended:
            r = True
        elif isinstance(self.tok.get(tok), Err) and tok not in self.expect_args:
            r = all(self.resolved(d, memo) for d in self.deps.get(tok, [])) and not self.held(tok, memo)
        else:
            r = False
        memo[tok] = r
        return r

    def held(self, tok, memo):
        """Is an actor call behind an earlier call of the same caller whose arguments do not exist yet?"""
        key = self.actor_of.get(tok)
        if key is None or self.w.flavour == "dask":
            return False
        for t in self.order.get((self.caller[tok], key), []):
            if t == tok:
                return False
            if not all(self.resolved(d, memo) for d in self.deps.get(t, [])):
                return True
        return False


def _copy(v):
    import copy

    if isinstance(v, Local):
        v = v.v
    if isinstance(v, (Err, Actor)):
        return v
    return copy.deepcopy(v)


def check_history(program, w, settled=()):
    """All history checks.  `settled`: calls that have to have been executed by now."""
    m = Model(program, w).run()
    bad = m.bad
    room = [o for o in w.obs if o[0] == "room"]
    for o in room[1:]:
        if o[3] < room[0][3] - o[4]:
            bad("leak", f"the shared store had room for {room[0][3]} bytes at first, but for only {o[3]} once all objects had been dropped again (op {o[2]})")
    for o in w.obs:
        if o[0] == "badreject":
            bad("reject", f"call/actor {o[2]} by {o[1]} was rejected: {o[3]}")
        elif o[0] == "badrefs":
            bad("refs", f"call {o[2]}: wrong references returned: {o[3]}")
        elif o[0] == "opts":
            bad("options", f"call {o[1]} was executed with the options {o[2]}, not {o[3]}")
        elif o[0] == "size":
            want = w.layout
            if o[1] != sum(want.values()) or o[2] != want or o[3] is not True or o[4] != w.ip:
                bad("cluster", f"num_cpus {o[1]}, cluster_resources {o[2]}, is_initialized {o[3]} and get_ip {o[4]} on {w.ip} with workers like {want}")
        elif o[0] == "kept":
            bad("kept", f"the object {o[1]} got from {o[3]} has changed afterwards: {o[4]}")
        elif o[0] == "memory":
            left = sorted(set(o[2]) | set(o[3]))
            if len(left) > o[1]:
                bad("leak", f"{len(left)} dropped objects are still kept (allowed {o[1]}): {left[:12]}...; "
                    f"{len(o[2])} object copies and {len(o[3])} serialized copies")
        elif o[0] == "twins":
            if o[5] != o[4]:
                bad("exactly-once", f"{o[4]} equal calls {o[3]} were executed {o[5]} times")
            elif not isinstance(o[6], list) or sorted(v[1] for v in o[6]) != list(range(1, o[4] + 1)):
                bad("get", f"{o[4]} equal calls {o[3]} returned {o[6]}")
        elif o[0] == "get":
            check_get(m, o)
        elif o[0] == "wait":
            check_wait(m, o, w)
    refused = {o[1] for o in w.obs if o[0] == "get" and late_refusal(o)}

    def tainted(tok):
        """Depends on the result of a task whose get was refused because of the shutdown."""
        return bool(refused) and any(d in refused or tainted(d) for d in m.deps.get(tok, ()))

    for tok, st in w.started.items():
        if isinstance(tok, tuple):
            if len(st) != 1:
                bad("actor-init", f"actor {tok[1]} was constructed {len(st)} times")
            exp = m.actor_init.get(tok[1])
            if exp and st[0][1] != exp[0]:
                bad("actor-init", f"actor {tok[1]} was constructed with wrong arguments")
            continue
        if len(st) > 1:
            bad("exactly-once", f"call {tok} was executed {len(st)} times, on {[x[0] for x in st]}")
        if tok not in m.caller:
            if tok in m.rejected:
                bad("exactly-once", f"call {tok} was executed although it was rejected")
            continue
        if tok not in m.expect_args:
            bad("failure", f"call {tok} was executed although an argument failed")
            continue
        if st[0][1] != m.expect_args[tok] and not tainted(tok):
            bad("args", f"call {tok} was executed with wrong arguments on {st[0][0]}")
    for r in w.log:
        if r[3] == "again" and r[5] != m.expect_args.get(r[4]):
            bad("args", f"arguments of call {r[4]} changed while it was running on {r[2]}")
    if settled:
        for tok in m.expect_args:
            if tok not in settled:
                continue
            if tok not in w.started:
                bad("exactly-once", f"call {tok} (by {m.caller[tok]}) was never executed")
            elif tok not in w.ended:
                bad("exactly-once", f"call {tok} (by {m.caller[tok]}) never finished")
    check_actors(m, w)
    return m


def late_refusal(o):
    return o[1] != "root" and o[4] == "err" and o[7] != "start"


def check_get(m, o):
    who, idx, refs = o[1], o[2], o[3]
    exp = m.gets.get((who, idx))
    if exp is None:
        return
    if late_refusal(o):
        return  # the program has ended: what its tasks still wait for may be refused
    errs = set()
    for v in exp[1]:
        if isinstance(v, Err):
            errs |= v.keys
    if o[4] == "bad":
        m.bad("get", f"get#{idx} by {who} of {refs}: malformed answer {o[5]}")
    elif errs:
        if o[4] == "ok":
            m.bad("get", f"get#{idx} by {who} of {refs}: returned {o[7]} instead of raising {sorted(errs)}")
        elif o[5] not in errs:
            m.bad("get", f"get#{idx} by {who} of {refs}: raised {o[5]} instead of {sorted(errs)}")
    else:
        if o[4] == "err":
            m.bad("get", f"get#{idx} by {who} of {refs}: raised {o[5]} instead of returning values")
        else:
            for n, v, d, sh in zip(refs, exp[1], o[5], o[7]):
                if canon(v) != d:
                    m.bad("get", f"get#{idx} by {who} of {n} ({refs}): got {sh}, expected {simapi.short(v)}")


def check_wait(m, o, w):
    who, idx, refs, k = o[1], o[2], o[3], o[4]
    lab = f"wait#{idx} by {who} of {refs} k={k}"
    if o[5] == "err":
        m.bad("wait", f"{lab}: raised {o[6]}")
        return
    ready, rest, ended = o[6], o[7], set(o[9])
    if sorted(ready + rest) != sorted(refs):
        m.bad("wait", f"{lab}: ready {ready} + not ready {rest} is not a partition")
    if len(ready) != k:
        m.bad("wait", f"{lab}: {len(ready)} ready references {ready}")
    for n in ready:
        tok = m.names.get((who, n))
        if tok is None or str(tok) in ended:
            continue
        if isinstance(m.tok.get(tok), Err) and tok not in m.expect_args:
            if not m.deps[tok]:
                continue  # the constructor of the actor failed
            if any(str(d) in ended for d in m.deps[tok]) or any(d not in m.expect_args for d in m.deps[tok]):
                continue
        m.bad("wait", f"{lab}: {n} is reported ready before its call {tok} finished")


def check_actors(m, w):
    pos = {}
    for key, toks in m.steps.items():
        for i, t in enumerate(toks):
            pos[(key, t)] = i
    for (who, key), toks in m.order.items():
        # the order of a coroutine relative to a plain call is not specified
        last = {}
        for t in toks:
            p = pos.get((key, t))
            if p is None:
                continue
            kind = m.isasync.get(t)
            if p < last.get(kind, -1) and w.flavour != "dask":
                m.bad("actor-order", f"actor {key}: call {t} (by {who}) ran before an earlier call of the same caller")
            last[kind] = max(last.get(kind, -1), p)
    # no overlap of synchronous calls of one actor
    run = {}
    for r in w.log:
        if r[3] in ("start", "end"):
            tok = r[4]
            key = m.actor_of.get(tok)
            if key is None or m.isasync.get(tok):
                continue
            cur = run.setdefault(key, set())
            if r[3] == "start":
                if cur:
                    m.bad("actor-overlap", f"actor {key}: call {tok} started while {sorted(cur)} was running")
                cur.add(tok)
            else:
                cur.discard(tok)


def check_placement(m, program, w, cpus):
    """An actor has its worker to itself while its handle lives; rejection exactly when no worker is left; spreading."""
    ident = {}
    for o in program["ops"]:
        if o[0] == "actor":
            ident[o[1]["out"]] = o[1]["t"]["id"]
        elif o[0] == "alias" and o[1]["name"] in ident:
            ident[o[1]["out"]] = ident[o[1]["name"]]
    first = {o[1]["t"]["id"]: o[1]["out"] for o in program["ops"] if o[0] == "actor"}
    names = {}  # actor id -> names of its handles
    copied = set()  # actors some of whose handles went through the object store, which keeps them for an unknown time
    maybe = set()
    where = {t[1]: st[0][0] for t, st in w.started.items() if isinstance(t, tuple)}
    ran = {t: st[0][0] for t, st in w.started.items() if not isinstance(t, tuple)}
    live = {}  # actor id -> worker
    pending = None
    block = [None, []]

    def close():
        if block[0] is not None:
            free = cpus - len(block[0])
            ps = [ran[t] for t in block[1] if t in ran]
            if free > 0 and len(ps) >= 6 * free and len(set(ps)) < free:
                m.bad("spread", f"{len(ps)} consecutive tasks ran on {sorted(set(ps))} only although {free} workers were free")

    for r in w.log:
        if r[3] == "actor":
            pending = ("a", r[4])
        elif r[3] == "submit" and r[4] not in m.actor_of:
            pending = ("t", r[4])
        elif r[3] in ("reject", "areject"):
            if len(live) + len(maybe) < cpus:
                m.bad("placement", f"{pending} was rejected although only {len(live)} of {cpus} workers have actors: {r[5]}")
        elif r[3] == "created":
            a = r[4]
            if len(live) >= cpus:
                m.bad("placement", f"actor {a} was accepted although every worker has an actor")
            p = where.get(a)
            if p is not None:
                for b, q in live.items():
                    if q == p:
                        m.bad("placement", f"actor {a} was placed on {p}, the worker of the live actor {b}")
            live[a] = p
            names[a] = {first[a]}
        elif r[3] == "alias":
            a = ident[r[4]]
            names[a].add(r[4])
            if r[6]:
                copied.add(a)
        elif r[3] == "submitted" and r[4] not in m.actor_of:
            t = r[4]
            if len(live) >= cpus:
                m.bad("placement", f"task {t} was accepted although every worker has an actor")
            p = ran.get(t)
            for b, q in live.items():
                if p is not None and q == p:
                    m.bad("placement", f"task {t} ran on {p}, the worker of the live actor {b}")
            key = frozenset(live) | frozenset(maybe)
            if block[0] != key:
                close()
                block[0], block[1] = key, []
            block[1].append(t)
        elif r[3] == "dropped" and r[4] in ident:
            a = ident[r[4]]
            names[a].discard(r[4])
            if not names[a]:
                live.pop(a, None)
                if a in copied:
                    maybe.add(a)
    close()


def check_cluster(m, run):
    """Roles, spreading, reported resources and settings of the processes that really run."""
    cfg, w, world = run.cfg, run.w, run.world
    hosts = sorted({p.host for p in world.procs})
    services = len(hosts) if cfg["shared_effective"] else 1
    workers = len(world.procs) - 1 - services
    if cfg.get("mode", "spawn") == "spawn" and workers != cfg["cpus"]:
        m.bad("cluster", f"{workers} workers were started instead of {cfg['cpus']}")
    envs = run.program["envs"]
    seen = None
    for o in w.obs:
        if o[0] == "probe":
            seen = {r[0]: r[1] for r in o[3]}
            if len(seen) != workers or "p0" in seen:
                m.bad("cluster", f"{len(o[3])} tasks were executed by {sorted(seen)} although there should be {workers} workers among {len(world.procs)} processes")
            names = run.program["names"]
            for name, host, vals, env in o[3]:
                for n, v, rv in zip(names, vals, o[4]):
                    if v != rv:
                        m.bad("settings", f"{n} is {v} on the worker {name} ({host}) but {rv} in the main program")
                for (e, x), y in zip(envs, env):
                    if str(x) != y:
                        m.bad("settings", f"the environment variable {e} is {y!r} on the worker {name} ({host}), not {x!r}")
                if m.violations:
                    return
        elif o[0] == "is_initialized":
            if o[3] is not True:
                m.bad("cluster", f"is_initialized returned {o[3]} after init")
    for o in w.obs:
        if o[0] == "resources" and seen is not None:
            want = {}
            for h in hosts:
                want[world.ip_of(h)] = 0
            for h in seen.values():
                want[world.ip_of(h)] += 1
            got = {h: v.get("CPU") for h, v in o[3].items()}
            if {h: n for h, n in got.items() if n} != {h: n for h, n in want.items() if n}:
                m.bad("cluster", f"cluster_resources returned {o[3]} although workers run like {want}")


def actors_waiting(m, w):
    """A call of an actor whose earlier calls are done runs at once, unless tasks submitted before the actor was created are still there."""
    older = {}
    sub = []
    for r in w.log:
        if r[3] == "submit":
            sub.append(r[4])
        elif r[3] == "created":
            older[r[4]] = list(sub)
    for (who, key), toks in m.order.items():
        if any(t not in w.ended and t in m.expect_args for t in older.get(key, [])):
            continue
        for t in toks:
            if t in w.ended:
                continue
            if t in w.started or t not in m.expect_args:
                break
            if all(d in w.ended for d in m.deps[t]):
                return f"call {t} of actor {key} does not run although the actor is idle and its arguments exist"
            break
    return None


def mpi_actors_waiting(m, w, busy):
    """An actor call of the main program runs once its arguments exist, whatever other workers are doing."""
    for (who, key), toks in m.order.items():
        tok = next((t for t in toks if t not in w.started), None)
        if who != "root" or tok is None or tok not in m.expect_args or ("a", key) not in w.started:
            continue
        if w.started["a", key][0][0] in busy:
            continue
        if all(d in w.ended and w.ended[d][0][0] not in busy for d in m.deps[tok]):
            return f"call {tok} of actor {key} does not run although its worker is free and its arguments exist"
    return None


def idle_problem(program, w, world):
    """At quiescence: is some user-visible operation blocked although it could go on?  Returns text or None."""
    m = Model(program, w).run()
    memo = {}
    res = lambda t: m.resolved(t, memo)  # noqa: E731
    busy = {p: list(ts) for p, ts in w.running.items() if ts}
    anybusy = bool(busy)
    # on Dask each of several results of a call is taken out by another task, which needs a free worker
    direct = lambda t: w.flavour != "dask" or len(w.submitted[t][1]["out"]) < 2  # noqa: E731
    if w.flavour != "mpi":
        # results are kept apart from the workers, but failures are passed on by workers
        real_res = res
        res = lambda t: (t in w.ended and direct(t)) or (not anybusy and real_res(t))  # noqa: E731
    for name, rec in sorted(w.blocked.items()):
        who, refs = rec["who"], rec["refs"]
        toks = [m.names.get((who, n)) for n in refs]
        if rec["op"] == "wait":
            # a failure is passed on by a worker: it may still be under way while workers are kept busy
            n = sum(1 for t in toks if t is None or (t in w.ended and direct(t)) or (not anybusy and res(t)))
            if n >= rec["k"]:
                return f"wait#{rec['idx']} by {who} of {refs} k={rec['k']} is blocked although {n} of the objects exist"
        elif rec.get("twins"):
            if not anybusy:
                return f"the calls of op {rec['idx']} by {who} do not finish"
        elif rec["op"] == "get":
            if all(t is None or res(t) for t in toks):
                others = {p: [t for t in ts if t != who] for p, ts in busy.items()}
                others = {p for p, ts in others.items() if ts}
                if w.flavour != "mpi":
                    others = set()
                holders = set()
                unknown = False
                for t in toks:
                    if t is None:
                        continue
                    if t in w.ended:
                        holders.add(w.ended[t][0][0])
                    else:
                        unknown = True
                if not (holders & others) and not (unknown and others):
                    return f"get#{rec['idx']} by {who} of {refs} is blocked although all the objects exist"
    if w.flavour != "mpi" and not (w.flavour == "dask" and anybusy):
        msg = actors_waiting(m, w)
        if msg:
            return msg
    if w.flavour == "mpi":
        msg = mpi_actors_waiting(m, w, busy)
        if msg:
            return msg
    # calls that could run but do not
    stuck = [t for p, ts in busy.items() for t in ts]
    if not stuck:
        for tok in m.expect_args:
            if tok in w.started:
                continue
            if not all(res(d) for d in m.deps[tok]):
                continue
            key = m.actor_of.get(tok)
            if key is not None:
                if m.held(tok, memo):
                    continue
            return f"call {tok} (by {m.caller[tok]}) is not executed although its arguments exist and workers are free"
    return None
