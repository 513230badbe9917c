"""Per-property case generation: PROFILES[pid](rng, seed) -> case."""
import random

import gen
from gen import G, US, MS, SEC, env_cfg, hosts_cfg, mix, nested, small, value, worker_garbage


def case(seed, cfg, g, **kw):
    c = {"seed": seed, "cfg": cfg, "program": g.program()}
    c.update(kw)
    return c


def plus(g):
    """Ordinary background traffic."""
    return [("put", 2), ("call", 5), ("get", 2)]


# C01 -----------------------------------------------------------------------------------
def c01(r, seed):
    cfg = env_cfg(r)
    g = G(r, big=r.choice([300, 2048, 8192]))
    g.p_pause = r.choice([0, 0.2, 0.5])
    g.p_gate = r.choice([0, 0, 0.15])
    g.nrets = r.choice([[1], [1, 1, 2, 3], [0, 1, 2, 3, 5]])
    g.p_nest_arg = r.choice([0.3, 0.8])
    style = r.randrange(5)
    if style == 0:  # long dependency chain
        x = g.put()
        for _ in range(r.randrange(3, 15)):
            x = r.choice(g.call(n=r.choice([1, 1, 2]), a=[["ref", x]] + ([["ref", r.choice(g.refs)]] if r.random() < 0.5 else []), k=[]))
    elif style == 1:  # fan out, fan in
        src = [g.put() for _ in range(r.randrange(1, 3))] + g.call(n=1)
        mids = []
        for _ in range(r.randrange(3, 12)):
            mids += g.call(n=1, a=[["ref", r.choice(src)]], k=[["k", ["list", [["ref", r.choice(src)]]]]])
        g.call(n=1, a=[[r.choice(["list", "tup"]), [["ref", m] for m in mids]]], k=[])
        g.call(n=1, a=[["ref", m] for m in mids], k=[])
    else:
        mix(g, r.randrange(3, 25), [("put", 3), ("call", 8), ("call0", 1), ("get", 2), ("many", 1), ("open", 1), ("sleep", 1)])
    g.finish()
    return case(seed, cfg, g)


# C02 ---------------------------------------------------------------------------------------
def c02(r, seed):
    cfg = env_cfg(r)
    g = G(r, big=r.choice([300, 2048]))
    g.p_pause = r.choice([0, 0.3])
    g.p_gate = r.choice([0, 0.2, 0.4])
    if r.random() < 0.3 and cfg["cpus"] > 1:
        g.actor()
    w = [("put", 3), ("call", 5), ("get", 6), ("acall", 2), ("open", 2)]
    for _ in range(r.randrange(1, 4)):
        mix(g, r.randrange(2, 8), w)
        if g.refs:
            for _ in range(r.randrange(1, 4)):
                refs = [r.choice(g.refs) for _ in range(r.choice([1, 2, 3, 6]))]
                if r.random() < 0.4:
                    refs += r.sample(refs, r.randrange(1, len(refs) + 1))
                g.op("get", refs=refs, single=r.random() < 0.5)
    g.finish()
    return case(seed, cfg, g)


# C03 ------------------------------------------------------------------------------------------
def c03(r, seed):
    cfg = env_cfg(r)
    g = G(r, big=r.choice([300, 2048]))
    g.p_pause = r.choice([0, 0.4])
    g.p_gate = r.choice([0, 0.3, 0.6])
    g.p_fail = r.choice([0, 0, 0.3])
    if r.random() < 0.3 and cfg["cpus"] > 1:
        g.actor()
    for _ in range(r.randrange(1, 5)):
        mix(g, r.randrange(1, 6), [("put", 2), ("call", 6), ("acall", 1), ("aacall", 1), ("get", 1), ("open", 1), ("sleep", 1)])
        if not g.refs:
            continue
        for _ in range(r.randrange(1, 4)):
            refs = r.sample(g.refs, r.randrange(1, min(8, len(g.refs)) + 1))
            k = r.choice([1, len(refs), r.randrange(1, len(refs) + 1)])
            g.op("wait", refs=refs, k=k)
            if r.random() < 0.3:
                g.op("wait", refs=refs, k=r.randrange(1, len(refs) + 1))
    if r.random() < 0.4 and g.refs:
        # drain with wait until everything is ready
        for k in range(1, min(len(g.refs), 6) + 1):
            g.op("wait", refs=list(g.refs), k=k)
    g.finish()
    return case(seed, cfg, g)


# C04 -------------------------------------------------------------------------------------------
def c04(r, seed):
    cfg = env_cfg(r)
    g = G(r, big=r.choice([300, 2048]))
    g.p_pause = r.choice([0, 0.3])
    g.p_gate = r.choice([0, 0, 0.2])
    g.p_fail = r.choice([0.2, 0.4])
    g.p_bad = r.choice([0, 0.3])
    g.nrets = [0, 1, 1, 2, 3]
    if r.random() < 0.4 and cfg["cpus"] > 1:
        A = g.actor(**({"fail": r.choice(["task", "value", "zero"])} if r.random() < 0.3 else {}))
        if "fail" in g.ops[-1][1]["t"]:
            g.failed_actors.add(A)
    w = [("put", 2), ("call", 8), ("get", 3), ("wait", 1), ("acall", 3), ("aacall", 2), ("open", 1), ("sleep", 1)]
    if r.random() < 0.4:
        w.append(("unfit", r.choice([1, 4])))
    mix(g, r.randrange(4, 20), w)
    for _ in range(r.randrange(0, 3)):
        bad = [x for x in g.refs if x in g.failing]
        if bad:
            b = r.choice(bad)
            g.call(n=r.choice([1, 2]), a=[["ref", b]], k=[])
            for _ in range(r.randrange(1, 4)):
                g.op("get", refs=[b], single=r.random() < 0.5)
            good = [x for x in g.refs if x not in g.failing]
            g.op("get", refs=r.sample(bad, 1) + good[:2], single=False)
    g.finish()
    return case(seed, cfg, g)


# C05 -----------------------------------------------------------------------------------------------
def c05(r, seed):
    cfg = env_cfg(r)
    cfg["eager"] = r.choice([0, 0, 64, 512, 4096])
    cfg["lat_max"] = r.choice([5 * MS, 200 * MS])
    if r.random() < 0.5:
        cfg["blocksize"] = r.choice([37, 100, 1000])
    cfg["env"]["UNIDIST_MPI_PICKLE_THRESHOLD"] = str(r.choice([0, 16, 64, 1024, 1 << 20]))
    g = G(r, big=r.choice([512, 4096, 16384]), p_big=0.85)
    g.p_pause = r.choice([0, 0.3])
    loc = []
    act = cfg["cpus"] > 1 and r.random() < 0.35
    ngive = 0
    for _ in range(r.randrange(4, 20)):
        k = r.randrange(10)
        if act and loc and r.random() < 0.35:
            if not g.actors:
                g.actor(a=[["name", r.choice(loc)]] if r.random() < 0.6 else [], k=[], **({"pause": 10**6} if r.random() < 0.3 else {}))
            elif r.random() < 0.5:  # returns a buffer of its state, which the next such call changes
                ngive += 1
                g.acall(n=1, a=[], k=[], give=ngive)
                g.ops[-1][1]["t"].pop("fail", None)
            else:
                g.acall(n=1, a=[["name", r.choice(loc)]], k=[], **({"keep": 1} if r.random() < 0.5 else {}))
        elif k < 2 or not loc:
            n = g.name("l")
            v = r.choice([gen.arr(r, g.big), ["list", [gen.arr(r, g.big), small(r)]], ["dict", [["a", gen.arr(r, g.big)]]],
                          ["df", r.choice([3, 30]), r.randrange(999)], ["obj", 3, gen.arr(r, g.big)]])
            g.op("local", out=n, v=v)
            loc.append(n)
        elif k < 4:
            n = g.name("p")
            g.op("putname", out=n, name=r.choice(loc))
            g.refs.append(n)
        elif k < 6:
            n = r.choice(loc)
            x = r.choice([["name", n], ["list", [["name", n], ["v", small(r)]]], ["dict", [["q", ["name", n]]]]])
            g.call(n=r.choice([1, 2]), a=[x] + ([["ref", r.choice(g.refs)]] if g.refs and r.random() < 0.5 else []), k=[], fn=r.choice(["task", "hold"]))
        elif k < 9:
            g.op("mutate", name=r.choice(loc), seed=r.randrange(10**6))
        else:
            mix(g, 1, [("put", 1), ("call", 2), ("get", 1)])
        if r.random() < 0.25:
            g.op("mutate", name=r.choice(loc), seed=r.randrange(10**6))
    g.finish()
    return case(seed, cfg, g)


# C06 -----------------------------------------------------------------------------------------------------
def c06(r, seed):
    style = r.choice(["over", "storm", "churn", "churn", "readers", "readers", "readers", "mix", "mix", "mix"])
    cfg = env_cfg(r, shared=True, cpus=r.choice([2, 3, 4]), p_line=0.7 if style != "churn" else 0.3)
    e = cfg["env"]
    e["UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD"] = str(r.choice([0, 0, 100, 500]))
    g = G(r, big=r.choice([512, 4096]), p_big=0.7)
    g.p_pause = r.choice([0, 0.4])
    if style == "storm":
        storm(r, e, g)
        return case(seed, cfg, g)
    if style == "readers":
        readers(r, cfg, g, r.random() < 0.5)
        return case(seed, cfg, g)
    over = style == "over"
    maybe = []
    if style == "churn":
        g.big = r.choice([512, 2048])
        e["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = str(r.choice([150000, 400000]))
        e["UNIDIST_MPI_SHARED_SERVICE_MEMORY"] = str(r.choice([1 << 13, 1 << 16]))
        act = cfg["cpus"] > 2 and r.random() < 0.3
        if act:
            g.actor()
        g.churn(r.randrange(2, 6), r.randrange(2, 8), r.randrange(12, 22), act)
        g.finish()
        return case(seed, cfg, g)
    if over:
        if r.random() < 0.6:
            e["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = str(r.choice([4000, 9000, 20000]))
        else:
            e["UNIDIST_MPI_SHARED_SERVICE_MEMORY"] = str(32 * r.choice([6, 10, 14]))
        e["UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD"] = "1000"
        g.small_results = True
        g.p_raw = 1.0
    act = not over and r.random() < 0.3
    if act:
        g.actor()
    reuse = not over and r.random() < 0.5
    if reuse:  # little room: memory is reused soon
        e["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = str(r.choice([60000, 90000]))
        g.big = 1024
    kept = []
    for _ in range(r.randrange(6, 60 if reuse else 40)):
        k = r.randrange(10 if not over else 8)
        if k < 2:
            g.put()
        elif k < 5:
            if over and r.random() < 0.3:
                # a result that may not fit: the call then fails with MemoryError
                outs = g.call(n=1, maybe=1, res=[["arr", "|u1", [r.choice([1200, 3000, 9000])], r.randrange(999)]])
                for x in outs:
                    g.refs.remove(x)
                    if r.random() < 0.7:
                        maybe.append(x)
                        if r.random() < 0.5:
                            g.op("get", refs=[x], single=True)
                    else:
                        g.op("del", name=x)
            elif over and r.random() < 0.15:
                g.call(n=1, fail="big")  # the exception itself is an object that may not fit
            else:
                g.call(fn=r.choice(["task", "hold"]))
        elif k == 5:
            g.get()
        elif k == 8 and g.refs:
            # keep the object, drop the reference
            x = r.choice(g.refs)
            g.op("get", refs=[x], single=True, keep=1)
            kept.append(x)
            g.delete(x)
        elif k == 9:
            if kept and r.random() < 0.3:
                x = kept.pop(0)
                g.op("unkeep", names=[x])
            elif act and g.refs:
                g.acall(n=1, a=[["ref", r.choice(g.refs)]], k=[], keep=1)
            g.op("recheck")
        elif len(g.refs) > 2:
            g.delete()
        if reuse:
            while len(g.refs) > 4:
                g.delete(g.refs[0])
        if r.random() < 0.05:
            g.op("sleep", ns=int(1.2 * SEC))
    g.op("recheck")
    for x in maybe:
        g.op("get", refs=[x], single=True)
    g.finish()
    c = case(seed, cfg, g)
    if over:
        c["overflow"] = True
        for op in g.ops:
            if op[0] in ("call", "put", "actor"):
                op[1]["may_reject"] = "mem"
    return c


def readers(r, cfg, g, probe=False):
    """Several processes start and stop to use the same objects at the same time; some keep them for good.
    With `probe`, none is kept, and the room in the store is compared with that at the start."""
    e = cfg["env"]
    cfg.pop("p_line", None)
    if r.random() < 0.8:
        m = r.choice([8, 16, 32])
        cfg["focus"] = [m, r.randrange(m), r.choice([0.1, 0.3, 0.7]), 400]
        cfg["line_only"] = ["shared_object_store"]
    cfg["lat_max"] = r.choice([20 * US, 200 * US])
    e["UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD"] = "0"
    e["UNIDIST_MPI_PICKLE_THRESHOLD"] = "64"
    e["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = "60000"
    cfg["cpus"] = r.choice([3, 4])
    cfg.pop("mode", None)
    g.p_pause = g.p_raw = 0
    g.small_results = True
    acts = [g.actor() for _ in range(r.randrange(1, cfg["cpus"] - 1))]
    lo = 300
    if probe:
        lo = 2500
        g.op("room", sizes=[4000, 1000, 250], slack=2000)
        g.flush()
    for _ in range(r.randrange(1, 4)):
        xs = [g.put(["list", [["arr", "|u1", [r.randrange(lo, lo + 200)], r.randrange(9999)] for _ in range(r.randrange(1, 5))]]) for _ in range(r.randrange(1, 4))]
        kept = []
        for x in xs:
            for a in acts:
                g.acall(actor=a, n=1, a=[["ref", x]], k=[], **({"keep": 1} if not probe and r.random() < 0.5 else {}))
            for _ in range(r.randrange(6)):
                g.call(n=1, a=[["ref", x]], k=[], **({"poke": 1} if r.random() < 0.2 else {}))
            if not probe and r.random() < 0.6:
                g.op("get", refs=[x], single=True, keep=1)
                kept.append(x)
            elif r.random() < 0.6:
                g.op("get", refs=[x], single=True)
        if r.random() < 0.5:
            g.op("drain")
        for _ in range(14):
            g.put(["int", 5])
        for x in list(g.refs):
            g.delete(x)
        g.flush()
        if probe:
            for _ in range(3):
                settle(g, cfg, True)
            g.op("room", sizes=[4000, 1000, 250], slack=2000)
            g.flush()
            continue
        new = [g.put(["arr", "|u1", [r.randrange(800, 1500)], r.randrange(9999)]) for _ in range(r.randrange(8, 16))]
        g.op("recheck")
        for a in acts:
            g.acall(actor=a, n=1, a=[["ref", r.choice(new)]], k=[])
        if kept:
            g.op("unkeep", names=kept)
    g.finish()


def storm(r, e, g):
    """Far more than fits, either of memory or of entries; once it is dropped there is as much room as before."""
    n = r.choice([16, 20])
    if r.random() < 0.5:
        e["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = str(4400 * n)
        e["UNIDIST_MPI_SHARED_SERVICE_MEMORY"] = str(32 * n)
        count, size, after = 3 * n, (2500, 3000), [(3950, 4050)] * (n - 2)
    else:
        e["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = str(4500 * n)
        e["UNIDIST_MPI_SHARED_SERVICE_MEMORY"] = str(32 * (n + 14))
        count, size, after = n + 25, (4000, 4400), [(300, 600)] * (n + 6)
    anchor = g.put(["int", 5])
    for _ in range(r.randrange(1, 3)):
        xs = [g.put(["arr", "|u1", [r.randrange(*size)], r.randrange(9999)]) for _ in range(count)]
        for op in g.ops[-count:]:
            op[1]["may_reject"] = "mem"
        for x in r.sample(xs, 4):
            g.op("get", refs=[x], single=True)
        r.shuffle(xs)
        for x in xs:
            g.delete(x)
        for _ in range(2):
            # time to clean up; nothing is stored here
            g.op("sleep", ns=int(1.2 * SEC))
            for _ in range(8):
                g.op("get", refs=[anchor], single=True)
        xs = [g.put(["arr", "|u1", [r.randrange(*z)], r.randrange(9999)]) for z in after]
        g.get(xs, False)
        for x in xs:
            g.delete(x)
        g.op("sleep", ns=int(1.2 * SEC))


# C07 -----------------------------------------------------------------------------------------------
def c07(r, seed):
    cfg = env_cfg(r, cpus=r.choice([2, 3, 4]))
    cfg["max_steps"] = 400000
    g = G(r, big=600, p_big=0.4)
    g.p_pause = r.choice([0, 0.3])
    g.p_gate = r.choice([0, 0.1])
    act = r.random() < 0.4
    if act:
        g.actor()
    nest = r.random() < 0.3
    for _ in range(r.randrange(1, 4)):
        # garbage, and things that stay
        for _ in range(r.randrange(6, 18)):
            k = r.randrange(10)
            if k < 4:
                g.put(small(r) if r.random() < 0.7 else None)
            elif k < 7:
                g.call(n=r.choice([1, 1, 2]))
            elif k == 7 and act:
                g.acall(n=1, m=r.choice(["call", "acall"]))
            elif k == 8 and nest:
                nested(g)
            if len(g.refs) > 3 and r.random() < 0.85:
                for _ in range(r.randrange(1, 3)):
                    if len(g.refs) > 2:
                        g.delete()
        if r.random() < 0.8:
            g.op("sleep", ns=int(r.choice([0.3, 1.1, 1.5]) * SEC))
        # calls in flight while their arguments are dropped
        for _ in range(r.randrange(1, 5)):
            x = g.put(small(r)) if r.random() < 0.5 else g.call(n=1)[0]
            ys = g.call(n=1, a=[["ref", x]], k=[], **({"pause": int(r.choice([0.01, 0.8, 2.2]) * SEC)} if r.random() < 0.6 else {}))
            if x in g.refs and r.random() < 0.8:
                g.delete(x)
            if r.random() < 0.3:
                g.get(ys)
        for _ in range(r.randrange(4, 14)):
            if g.refs:
                if r.random() < 0.7:
                    g.get([r.choice(g.refs)], True)
                else:
                    g.put(small(r))
                    g.delete()
    g.finish()
    return case(seed, cfg, g)


def settle(g, cfg, args=False):
    """One round after which nothing dropped before may be needed any more: garbage to trigger a clean-up, and
    calls that replace what local variables of the processes may still hold."""
    for _ in range(13):
        g.delete(g.put(["int", 5]))

    def a():
        return [["ref", g.put(["int", 5])]] if args else []

    for _ in range(2 * (cfg["cpus"] - len(g.actors))):
        y = g.call(n=1, a=a(), k=[], res=[["int", 1]], raw=1)
        g.get(y, True)
    for A in g.actors:
        for m in ("call", "acall"):
            y = g.acall(actor=A, m=m, n=1, a=a(), k=[], res=[["int", 1]], raw=1)
            g.get(y, True)
    for x in list(g.refs):
        g.delete(x)
    g.flush()


# C08 ----------------------------------------------------------------------------------------------
def c08(r, seed):
    cfg = env_cfg(r, cpus=r.choice([2, 3]), p_line=0.15)
    cfg["max_steps"] = 800000
    cfg["tag_reorder"] = False
    g = G(r, big=1500, p_big=0.5)
    e = cfg["env"]
    if r.random() < 0.4 and cfg["shared"]:
        readers(r, cfg, g, True)
        return case(seed, cfg, g)
    if r.random() < 0.45 and cfg["shared"]:
        # what is alive or was dropped recently fits, what is stored in total does not
        e["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = "260000"
        e["UNIDIST_MPI_SHARED_SERVICE_MEMORY"] = str(32 * 170)
        e["UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD"] = str(r.choice([0, 100, 500]))
        g.big = 400
        g.nrets = [1, 1, 2]
        for _ in range(r.randrange(6, 11)):
            for _ in range(3):
                v = ["arr", "|u1", [r.choice([7000, 10000, 15000])], r.randrange(999)]
                x = g.put(v) if r.random() < 0.5 else g.call(n=1, res=[v], a=[], k=[])[0]
                if r.random() < 0.4:
                    g.call(n=1, a=[["ref", x]], k=[])
                if r.random() < 0.4:
                    g.get([x])
            for _ in range(r.randrange(8, 14)):
                g.put() if r.random() < 0.6 else g.call(n=r.choice([1, 2]))
            for x in r.sample(g.refs, len(g.refs))[r.randrange(3):]:
                g.delete(x)
            g.flush()
        for x in list(g.refs):
            g.delete(x)
        for _ in range(3):
            settle(g, cfg)
        x = g.put(["arr", "|u1", [40000], r.randrange(999)])
        if r.random() < 0.5:
            g.call(n=1, a=[["ref", x]], k=[])
        g.finish()
        return case(seed, cfg, g)
    if r.random() < 0.35:
        # many clean-ups: not one object of each may stay behind
        n = 0
        stay = g.put(["int", 5])
        for _ in range(r.randrange(11, 15)):
            for _ in range(11):
                n += 1
                v = ["trk", n, r.choice([0, 20, 300]), r.choice("ba")]
                if r.random() < 0.7:
                    g.call(n=1, res=[v], a=[], k=[])
                else:
                    g.call(n=1, a=[["ref", g.put(v)]], k=[])
            if r.random() < 0.3:
                g.get()
            g.op("drain")
            for x in r.sample(g.refs, len(g.refs)):
                if x != stay:
                    g.delete(x)
            g.op("sleep", ns=int(1.1 * SEC))
            for _ in range(12):
                g.op("get", refs=[stay], single=True)
        for _ in range(3):
            settle(g, cfg)
        g.op("drain")
        g.op("hook", name="memory", limit=8)
        g.op("shutdown")
        return case(seed, cfg, g)
    # one kind of object, many of them, all dropped: none may stay behind (a few in local variables may)
    focus = r.choice(["put", "putarg", "arg", "res", "res3", "fail", "act", "aact", "chain", "mixed", "ignored"])
    act = focus in ("act", "aact") or (focus == "mixed" and r.random() < 0.5)
    if act:
        g.actor()
    n = r.randrange(22, 34)
    kinds = [focus] * n if focus != "mixed" else [r.choice(["put", "putarg", "arg", "res", "res3", "fail", "chain"] + (["act", "aact"] if act else [])) for _ in range(n)]
    ident = [0]

    def trk():
        ident[0] += 1
        return ["trk", ident[0], r.choice([0, 20, 300, 1200]), r.choice("ba")]

    late = r.random() < 0.5
    for i, k in enumerate(kinds):
        if k == "put":
            x = g.put(trk())
            if r.random() < 0.4:
                g.get([x], True)
        elif k == "putarg":
            x = g.put(trk())
            g.call(n=r.choice([0, 1]), a=[["ref", x] if r.random() < 0.7 else ["list", [["ref", x]]]], k=[])
        elif k == "arg":
            g.call(n=r.choice([0, 1]), a=[["v", trk()]], k=[])
        elif k in ("res", "chain", "ignored"):
            xs = g.call(n=1, res=[trk()], a=[["ref", g.refs[-1]]] if k == "chain" and g.refs else [], k=[])
            if k == "res" and r.random() < 0.5:
                g.get(xs, True)
        elif k == "res3":
            g.call(n=3, res=[trk(), trk(), trk()], a=[], k=[])
        elif k == "fail":
            xs = g.call(n=r.choice([1, 2]), fail="task", a=[["v", trk()]], k=[])
            if r.random() < 0.5:
                g.get(xs[:1], True)
        elif k == "act":
            g.acall(n=1, res=[trk()], a=[["v", trk()]], k=[])
        elif k == "aact":
            g.acall(n=1, m="acall", res=[trk()], a=[["v", trk()]], k=[])
        if not late and len(g.refs) > 3:
            for x in list(g.refs)[:-2]:
                g.delete(x)
        if r.random() < 0.03:
            g.flush()
    if r.random() < 0.7:
        for x in list(g.refs):
            if r.random() < 0.5:
                g.get([x], True)
    for x in r.sample(g.refs, len(g.refs)):
        g.delete(x)
    for j in range(3):
        settle(g, cfg)
    g.op("drain")
    g.op("hook", name="memory", limit=8)
    g.op("shutdown")
    return case(seed, cfg, g)


# actors --------------------------------------------------------------------------------------
def c09(r, seed):
    cfg = env_cfg(r, cpus=r.choice([2, 3, 4, 5]))
    g = G(r, big=r.choice([300, 2048]), p_big=0.3)
    g.p_pause = r.choice([0, 0.3])
    g.p_gate = r.choice([0, 0.1])
    na = r.randrange(1, cfg["cpus"])
    pre = [g.put(small(r)) for _ in range(r.randrange(2))] + (g.call(n=1) if r.random() < 0.5 else [])
    for _ in range(na):
        a = None
        kw = {"pause": int(10 ** r.uniform(4, 8))} if r.random() < 0.3 else {}
        g.actor(a=a, **kw)
    passed = set()
    for _ in range(r.randrange(5, 25)):
        k = r.randrange(13)
        if k < 6:
            a = None
            if r.random() < 0.4:  # an argument that comes late
                x = g.call(n=1, **({"pause": int(10 ** r.uniform(5, 8.5))} if r.random() < 0.7 else {}))[0]
                a = [["ref", x]]
            g.acall(n=r.choice([0, 1, 1, 2]), a=a, k=[])
        elif k < 8 and r.random() < 0.7:
            # pass a handle to a task, which calls the actor
            A = r.choice(g.actors)
            passed.add(A)
            s = G(r, 200, 0.2)
            s.ids = g.ids
            s.actors = ["$0"]
            for _ in range(r.randrange(1, 4)):
                s.acall(actor="$0", n=1)
            if r.random() < 0.7:
                s.op("get", refs=[s.refs[-1]], single=True)
            if r.random() < 0.3:
                s.op("get", refs=list(s.refs), single=False)
            g.ids = s.ids
            g.call(n=1, a=[["actor", A]], k=[], sub=s.ops)
        elif k == 8:
            g.call()
        elif k == 9:
            g.get()
        elif k == 10:
            g.put()
        elif k == 11 and set(g.actors) - passed:
            turnover(g, r.choice(sorted(set(g.actors) - passed)))
        else:
            g.op("sleep", ns=int(10 ** r.uniform(3, 7)))
    g.finish()
    return case(seed, cfg, g)


def turnover(g, A):
    """An actor goes while its calls wait for an argument, and another one takes its place."""
    r = g.r
    gate = "t%d" % g.tok()
    x = g.call(n=1, a=[], k=[], gate=gate)[0]
    g.gates.append(gate)
    outs = []
    for _ in range(r.randrange(1, 4)):
        outs += g.acall(actor=A, n=1, a=[["ref", x]] if not outs or r.random() < 0.5 else None, k=[])
    g.actors.remove(A)
    g.op("del", name=A)
    g.op("gc")  # the handle is part of reference cycles
    B = g.actor()
    news = []
    late = None
    C = [c for c in g.actors if c != B]
    if C and r.random() < 0.7:
        late = g.acall(actor=r.choice(C), n=1, a=[], k=[], gate="t%d" % g.tok())[0]
    for _ in range(r.randrange(1, 4)):
        news += g.acall(actor=B, n=1, a=[["ref", late] if late and r.random() < 0.6 else ["v", small(r)]], k=[])
    if r.random() < 0.7:
        g.get([r.choice(news)], True)
    g.op("open", gate=gate)
    g.gates.remove(gate)
    if r.random() < 0.5:
        g.get([r.choice(outs + news)], True)


def c10(r, seed):
    cfg = env_cfg(r, cpus=r.choice([1, 2, 3, 4]))
    cfg["p_line"] = 0
    g = G(r, big=200, p_big=0.1)
    g.p_pause = r.choice([0, 0.3])
    for _ in range(r.randrange(6, 30)):
        k = r.randrange(10)
        if k < 3:
            g.actor()
            g.ops[-1][1]["may_reject"] = 1
        elif k < 4 and g.actors:
            if r.random() < 0.5:
                x = "%s_%d" % (r.choice(g.actors), g.tok())
                g.op("alias", out=x, name=x.rsplit("_", 1)[0], copy=int(r.random() < 0.6))
                g.actors.append(x)
            else:
                g.acall(n=1)
        elif k < 6 and g.actors:
            a = r.choice(g.actors)
            g.actors.remove(a)
            g.op("del", name=a)
            if r.random() < 0.5:
                g.op("gc")
        elif k == 6:
            for _ in range(r.randrange(1, 7)):
                g.call(n=1)
                g.ops[-1][1]["may_reject"] = 1
        else:
            g.call(n=1)
            g.ops[-1][1]["may_reject"] = 1
    g.finish()
    c = case(seed, cfg, g)
    c["placement_check"] = True
    return c


def c11(r, seed):
    cfg = env_cfg(r, cpus=r.choice([1, 2, 3]))
    g = G(r, big=r.choice([300, 2048]), p_big=0.3)
    g.p_pause = r.choice([0, 0.5])
    g.p_gate = r.choice([0, 0.2, 0.4])
    g.p_fail = r.choice([0, 0.2])
    g.nrets = [0, 1, 1, 2, 3]
    g.actor()
    if cfg["cpus"] > 2 and r.random() < 0.4:
        g.actor()
    if cfg["cpus"] > len(g.actors):
        w = [("aacall", 6), ("acall", 1), ("get", 2), ("wait", 3), ("open", 2), ("sleep", 1), ("call", 2), ("put", 1), ("del", 1)]
    else:
        w = [("aacall", 6), ("acall", 1), ("get", 2), ("wait", 3), ("open", 2), ("sleep", 1), ("put", 1), ("del", 1)]
    mix(g, r.randrange(4, 25), w)
    g.finish()
    return case(seed, cfg, g)


def c12(r, seed):
    cfg = env_cfg(r, cpus=r.choice([2, 3, 4]))
    g = G(r, big=r.choice([300, 2048]))
    g.p_pause = r.choice([0, 0.3])
    for _ in range(r.randrange(2, 9)):
        mix(g, r.randrange(0, 4), [("put", 2), ("call", 6), ("get", 1), ("many", 1)])
        nested(g, blocking=r.choice([None, None, False]))
    g.finish()
    return case(seed, cfg, g)


def c13(r, seed):
    cfg = env_cfg(r)
    cfg["max_time"] = 600 * SEC
    g = G(r, big=r.choice([300, 2048, 20000]))
    g.p_pause = r.choice([0, 0.3])
    g.p_fail = r.choice([0, 0, 0.2])
    g.nrets = [0, 1, 1, 2, 3]
    w = [("put", 3), ("call", 8), ("get", 1), ("wait", 1), ("del", 2), ("many", 2), ("sleep", 1)]
    if r.random() < 0.4:
        g.actor()
        w += [("acall", 3), ("aacall", 3)]
    if cfg["cpus"] - len(g.actors) < 1:
        w = [x for x in w if x[0] not in ("call", "many")]
        w += [("acall", 1)]
    free = cfg["cpus"] - len(g.actors)
    inner = free >= 2 and r.random() < 0.5
    n = r.randrange(0, 18)
    k = r.randrange(n + 1)
    mix(g, k, w)
    if inner:
        # a task that waits for its own tasks when the end comes
        nested(g, fetch=False)
    mix(g, n - k, w)
    end = r.randrange(6)
    if end == 0:
        pass
    elif end == 1:
        g.op("raise")
    elif end == 2:
        g.op("exit", code=0)
    else:
        g.op("shutdown")
        if r.random() < 0.5:
            g.op("shutdown")
        if r.random() < 0.3:
            g.op("raise")
    c = case(seed, cfg, g)
    return c


# C14 -----------------------------------------------------------------------------------------------------
SETTINGS = {  # class: (variable, values)
    "MpiPickleThreshold": ("UNIDIST_MPI_PICKLE_THRESHOLD", [0, 64, 1024, 1 << 20]),
    "MpiBackoff": ("UNIDIST_MPI_BACKOFF", [0.0001, 0.00005, 0.001, 0.01]),
    "MpiLog": ("UNIDIST_MPI_LOG", [True, False]),
    "MpiSharedObjectStoreThreshold": ("UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD", [0, 100, 5000]),
    "MpiSharedObjectStoreMemory": ("UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY", [1 << 16, 1 << 18, 1 << 20]),
    "MpiSharedServiceMemory": ("UNIDIST_MPI_SHARED_SERVICE_MEMORY", [1 << 14, 1 << 16]),
}
ENVVALS = ["1", "", "a b", "it's", 'say "x"', "back\\slash", "x;y", "\u00fcn\u00ef", 5, "{0}", "%s", "two\nlines", "'; import os; '", "\\n"]


def c14(r, seed):
    shared = r.random() < 0.5
    cfg = env_cfg(r, shared=shared, cpus=r.choice([1, 2, 3, 4, 6]))
    cfg["p_skew"] = r.choice([0, 0.3, 0.8])
    cfg["start_skew"] = True
    cfg["clean_env"] = r.random() < 0.6
    cfg["lib"] = r.choice(["openmpi", "openmpi", "intel", "mpich", "mpich_old"])
    env = cfg["env"] = {}
    puts = []
    names = []

    def choose(name, var, v):
        names.append(name)
        if r.random() < 0.5:
            puts.append([name, v])
        else:
            env[var] = r.choice(["True", "true", "1", "YES"]) if v is True else "False" if v is False else str(v)

    if shared or r.random() < 0.3:
        choose("MpiSharedObjectStore", "UNIDIST_MPI_SHARED_OBJECT_STORE", shared)
    for name, (var, vals) in sorted(SETTINGS.items()):
        # the service memory derived from the size of the store is too small for a program otherwise
        if r.random() < 0.4 or (name == "MpiSharedServiceMemory" and "MpiSharedObjectStoreMemory" in names):
            v = r.choice(vals)
            if isinstance(v, float):
                names.append(name)
                if r.random() < 0.5:
                    puts.append([name, v])
                else:
                    env[var] = "%f" % v
            else:
                choose(name, var, v)
    cfg["shm_bytes"], cfg["ram_bytes"] = 8 << 20, 16 << 20
    nh = r.choice([1, 1, 2, 3])
    if nh > 1:
        if r.random() < 0.5:
            cfg["cpus"] = max(cfg["cpus"], nh)
        hosts_cfg(r, cfg, nh)
        if "UNIDIST_MPI_HOSTS" in env:
            hs = env.pop("UNIDIST_MPI_HOSTS")
            choose("MpiHosts", "UNIDIST_MPI_HOSTS", hs)
            if not shared:
                pass
            elif cfg["cpus"] < nh:
                cfg["cpus"] = nh
    elif cfg.get("mode") == "spmd":
        cfg["placement"] = ["h0"] * (cfg["cpus"] + 2)
    spmd = cfg.get("mode") == "spmd"
    if not spmd:
        names.append("CpuCount")
        if r.random() < 0.5:
            puts.append(["CpuCount", cfg["cpus"]])
    if spmd and r.random() < 0.5:
        puts.append(["MpiSpawn", False])
    if not spmd and r.random() < 0.3:
        choose("MpiSpawn", "UNIDIST_MPI_SPAWN", True)
    eff = shared and not (cfg["lib"] == "mpich_old" and not spmd)
    if spmd and shared and not eff:
        raise AssertionError
    if shared and not eff and nh > 1:
        cfg["lib"], eff = "openmpi", True
    cfg["shared_effective"] = eff
    envs = []
    if r.random() < 0.6:
        for i in range(r.randrange(1, 4)):
            envs.append(["VAR_%d" % i, r.choice(ENVVALS)])
        puts.append(["MpiRuntimeEnv", {"env_vars": dict(envs)}])
    r.shuffle(puts)
    g = G(r, big=300)
    g.op("ready")
    if r.random() < 0.5:
        g.op("resources")
    if r.random() < 0.3:
        mix(g, r.randrange(1, 5), [("put", 1), ("call", 3)])
    g.op("probe", names=names, envs=[e for e, _ in envs], n=8 * cfg["cpus"])
    g.op("resources")
    if r.random() < 0.5:
        mix(g, r.randrange(1, 5), [("put", 1), ("call", 3), ("get", 1)])
    g.finish()
    c = case(seed, cfg, g, cluster_check=True)
    c["program"].update(cfg=puts, names=names, envs=envs)
    return c


# C15 -----------------------------------------------------------------------------------------------------
def c15(r, seed):
    cfg = env_cfg(r, shared=True, cpus=r.choice([2, 3, 4, 5]))
    cfg["max_steps"] = 400000
    hosts_cfg(r, cfg, r.choice([2, 2, 2, 3]))
    e = cfg["env"]
    e["UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD"] = str(r.choice([0, 0, 100, 500]))
    e["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = str(r.choice([1 << 20, 3 << 20]))
    e["UNIDIST_MPI_SHARED_SERVICE_MEMORY"] = str(1 << 16)
    g = G(r, big=r.choice([512, 2048]), p_big=0.7)
    g.p_pause = r.choice([0, 0.4])
    style = r.choice([0, 1, 1, 2, 3, 4])
    if style == 4:
        kept_objects(r, cfg, g)
        return case(seed, cfg, g)
    if style == 1 and r.random() < 0.6:
        cfg["p_slow_pair"] = 0.3
        cfg["lat_max"] = 200 * MS
    act = cfg["cpus"] > 2 and r.random() < 0.3
    if act:
        g.actor()
    free = cfg["cpus"] - len(g.actors)
    if style == 1 and free >= 2 and r.random() < 0.5:
        g.big = 300
        k, n = r.randrange(1, 6), r.choice([11, 13, 15])
        ys = [y for _ in range(min(free, 4)) for y in worker_garbage(g, n=n, p_put=1, rounds=k)]
        if r.random() < 0.3:
            g.op("sleep", ns=int(1.3 * k * SEC))
        else:
            g.get(ys, False)
    elif style == 0:
        g.churn(r.randrange(1, 4), r.randrange(2, 8), r.randrange(8, 16), act)
    else:
        for _ in range(r.randrange(1, 4)):
            mix(g, r.randrange(2, 8), [("put", 3), ("call", 6), ("get", 2), ("wait", 1), ("many", 1), ("acall", 1), ("sleep", 1)])
            if g.refs and r.random() < 0.7:
                # one object for many at once
                x = r.choice([n for n in g.refs if n not in g.failing])
                for _ in range(r.randrange(2, 6)):
                    g.call(n=1, a=[["ref", x]], k=[], fn=r.choice(["task", "hold"]))
            if style == 1 and free >= 2:
                if r.random() < 0.5:
                    # several workers clean up at the same time
                    ys = [y for _ in range(r.randrange(2, 4)) for y in worker_garbage(g, p_put=1)]
                else:
                    ys = worker_garbage(g)
                if r.random() < 0.5:
                    g.get(ys, False)
                else:
                    for _ in range(14):
                        g.delete(g.put(small(r)))
                    g.op("sleep", ns=int(r.choice([0.3, 1.1]) * SEC))
                    for _ in range(8):
                        z = g.put(small(r))
                        g.op("get", refs=[z], single=True)
                        g.delete(z)
                    g.get(ys, False)
            elif style == 2:
                while len(g.refs) > 3:
                    g.delete()
                g.flush()
    if r.random() < 0.15:
        g.op(r.choice(["raise", "exit", "shutdown"]))
    else:
        g.finish()
    return case(seed, cfg, g)


def kept_objects(r, cfg, g):
    """Objects used on several hosts after their references were dropped, in a store that soon reuses its memory."""
    cfg["env"]["UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY"] = str(r.choice([120000, 240000]))
    g.big = 1024
    for _ in range(r.randrange(1, max(2, cfg["cpus"]))):
        g.actor()
    for _ in range(r.randrange(2, 5)):
        kept = []
        for _ in range(r.randrange(1, 3)):
            v = ["arr", "|u1", [r.randrange(300, 3000)], r.randrange(9999)]
            if r.random() < 0.4 or len(g.actors) >= cfg["cpus"]:
                x = g.put(v)
            else:
                x = g.call(n=1, res=[v], raw=1, a=[], k=[])[0]
            users = r.sample(g.actors, r.randrange(1, len(g.actors) + 1))
            for a in users:
                y = g.acall(actor=a, n=1, a=[["ref", x]], k=[], keep=1, res=[["int", 1]])[0]
                if r.random() < 0.5:
                    g.delete(y)
            if r.random() < 0.5:
                g.op("get", refs=[x], single=True, keep=1)
                kept.append(x)
            g.delete(x)
        for x in kept:
            if r.random() < 0.5:
                g.op("unkeep", names=[x])
        while len(g.refs) > 3:
            g.delete(g.refs[0])
        for _ in range(12):
            g.delete(g.put(small(r)))
        g.flush()
        if r.random() < 0.5:
            g.flush()
        for _ in range(r.randrange(2, 5)):
            x = g.put(["arr", "|u1", [r.randrange(300, 3000)], r.randrange(9999)])
            for a in g.actors:
                if r.random() < 0.6:
                    g.acall(actor=a, n=1, a=[["ref", x]], k=[], res=[["int", 2]])
        g.op("recheck")
        if len(g.actors) > 1 and r.random() < 0.6:
            g.op("del", name=g.actors.pop())
    g.finish()


def mp_cfg(r, cpus=None):
    c = {
        "cpus": cpus or r.choice([1, 2, 2, 3, 4]),
        "lat_base": r.choice([1 * US, 5 * US, 50 * US]),
        "p_lat": r.choice([0, 0.05, 0.3, 0.7]),
        "lat_max": r.choice([200 * US, 5 * MS, 200 * MS]),
        "strategy": r.choice(["rand", "rand", "rand", "pct", "rr"]),
        "p_switch": r.choice([0.02, 0.1, 0.3, 0.6]),
        "p_gc": r.choice([0, 0, 0.002, 0.01]),
        "n_stalls": r.choice([0, 0, 1, 2, 4]),
    }
    if c["strategy"] == "pct":
        c["pct_points"] = sorted(r.randrange(1, 1500) for _ in range(r.randrange(1, 8)))
    if r.random() < 0.3:
        c["p_line"] = r.choice([0.005, 0.02, 0.08])
    return c


def c16(r, seed):
    cfg = mp_cfg(r)
    g = G(r, big=r.choice([200, 1000]), p_big=0.3)
    g.flat = True
    g.p_bad = r.choice([0, 0.3])
    g.p_pause = r.choice([0, 0.3])
    g.p_gate = r.choice([0, 0.2, 0.5])
    g.p_fail = r.choice([0, 0, 0.2])
    g.nrets = r.choice([[1], [0, 1, 1, 2, 3], [0, 1, 2, 4, 5]])
    for _ in range(r.randrange(1, 4)):
        mix(g, r.randrange(2, 10), [("put", 3), ("call", 8), ("call0", 1), ("get", 2), ("wait", 2), ("open", 2), ("sleep", 1), ("many", 1), ("unfit", 1)])
        if g.refs:
            for _ in range(r.randrange(3)):
                refs = r.sample(g.refs, r.randrange(1, min(8, len(g.refs)) + 1))
                g.op("wait", refs=refs, k=r.choice([1, len(refs), r.randrange(1, len(refs) + 1)]))
            if r.random() < 0.5:
                refs = [r.choice(g.refs) for _ in range(r.choice([1, 2, 3, 6]))]
                g.op("get", refs=refs, single=r.random() < 0.5)
    g.finish(shutdown=0)
    return case(seed, cfg, g, kind="pymp")


def c17(r, seed):
    cfg = mp_cfg(r, cpus=r.choice([2, 2, 3, 4]))
    g = G(r, big=r.choice([200, 1000]), p_big=0.2)
    g.flat = True
    g.fns = False
    g.p_pause = r.choice([0, 0.3])
    g.p_gate = r.choice([0, 0.2])
    g.p_fail = r.choice([0, 0, 0.15])
    for _ in range(r.randrange(6, 24)):
        k = r.randrange(14)
        if k < 2 or not g.actors and k < 8:
            if len(g.actors) < 4:
                g.actor()
                g.ops[-1][1]["may_reject"] = 1
        elif k < 8:
            g.acall(n=r.choice([0, 1, 1, 2]))
        elif k < 9 and g.actors:
            a = r.choice(g.actors)
            g.actors.remove(a)
            g.op("del", name=a)
            g.op("gc")  # call options keep handles until then
        elif k < 12:
            for _ in range(r.choice([1, 1, 2, 6])):
                g.call(n=1)
                g.ops[-1][1]["may_reject"] = 1
        elif k == 12:
            g.get()
        elif r.random() < 0.3:
            g.unfit()
        else:
            g.wait()
    g.finish(shutdown=0)
    return case(seed, cfg, g, kind="pymp", placement_check=True)


def twins(g, n=None, no_refs=False):
    """Calls that are equal in every respect."""
    r = g.r
    ok = [x for x in g.refs if x not in g.failing] if not no_refs else []
    a = [["ref", r.choice(ok)]] if ok and r.random() < 0.5 else [["v", small(r)] for _ in range(r.randrange(2))]
    g.op("twins", key="t%d" % g.tok(), n=n or r.randrange(2, 5), a=a, actor=r.choice(g.actors) if g.actors and r.random() < 0.4 else None)


def ray_options(r, o):
    """Options given with the decorator, with the call, or both; the latter count."""
    def some():
        x = {}
        if r.random() < 0.6:
            x["num_cpus"] = r.choice([1, 2, 3])
        if r.random() < 0.5:
            x["resources"] = {"r%d" % r.randrange(3): 1}
        return x

    d, c = (some() if r.random() < 0.5 else {}), (some() if r.random() < 0.7 else {})
    if d or c:
        o["t"]["opts"] = dict(d, **c)
        if d:
            o["deco"] = d
        if c:
            o["opts"] = c


def pool_case(r, seed, kind):
    """Tasks, actors, put, get and wait on a backend whose scheduler is a stand-in."""
    cfg = mp_cfg(r)
    flat = kind == "ray"
    g = G(r, big=r.choice([200, 1000]), p_big=0.3)
    g.flat = flat
    g.p_pause = r.choice([0, 0.3])
    g.p_gate = r.choice([0, 0.2, 0.5])
    g.p_fail = r.choice([0, 0, 0.2])
    g.nrets = r.choice([[1], [0, 1, 1, 2, 3], [0, 1, 2, 4, 5]])
    g.pause_hi = r.choice([8, 8, 9.7])
    g.p_nest_arg = r.choice([0.2, 0.6])
    if r.random() < 0.4:  # an existing cluster of several hosts
        lay = [["h%d" % i, r.randrange(1, 4)] for i in range(r.randrange(1, 4))]
        if kind == "dask":  # several workers of several threads on a host
            lay = [[r.choice(lay)[0], r.randrange(1, 4)] for _ in range(r.randrange(1, 5))]
        cfg["cpus"] = sum(n for _, n in lay)
        cfg["layout"] = lay
    if kind == "ray" and r.random() < 0.4:
        cfg["p_crash"] = r.choice([0.05, 0.2])
    if r.random() < 0.7:
        for _ in range(r.choice([1, 1, 2])):
            g.actor()
    for _ in range(r.randrange(1, 5)):
        for _ in range(r.randrange(2, 10)):
            k = r.randrange(20)
            if k < 3:
                g.put()
            elif k < 8:
                g.call()
                if kind == "ray" and r.random() < 0.2 and g.ops[-1][1]["fn"] == "task":
                    ray_options(r, g.ops[-1][1])
            elif k < 12:
                if g.actors:
                    a, kw = g.args(flat=flat)
                    outs = g.acall(a=a, k=kw)
                    if r.random() < 0.15:
                        for x in outs:
                            g.delete(x)
            elif k < 13 and g.actors and r.random() < 0.3:
                x = r.choice(g.actors)
                g.actors.remove(x)
                g.op("del", name=x)
                g.op("gc")
            elif k < 13 and r.random() < 0.3:
                g.op("size")
            elif k < 13 and g.actors and len(g.actors) < 6:
                x = g.name("B")
                g.op("alias", out=x, name=r.choice(g.actors), copy=int(r.random() < 0.8))
                g.actors.append(x)
            elif k < 14:
                twins(g, no_refs=bool(cfg.get("p_crash")))
            elif k < 16:
                g.get()
            elif k < 17:
                g.wait()
            elif k < 18 and g.gates:
                g.op("open", gate=r.choice(g.gates))
            elif k < 19:
                g.op("sleep", ns=int(10 ** r.uniform(3, 8)))
            else:
                if len(g.actors) < 3:
                    g.actor()
                    if kind == "ray" and r.random() < 0.5:
                        ray_options(r, g.ops[-1][1])
                else:
                    g.call(n=1)
        if g.refs:
            for _ in range(r.randrange(3)):
                refs = r.sample(g.refs, r.randrange(1, min(8, len(g.refs)) + 1))
                g.op("wait", refs=refs, k=r.choice([1, len(refs), r.randrange(1, len(refs) + 1)]), single=r.random() < 0.3)
            if r.random() < 0.5:
                refs = [r.choice(g.refs) for _ in range(r.choice([1, 2, 3, 6]))]
                g.op("get", refs=refs, single=r.random() < 0.5)
    g.finish(shutdown=r.choice([0, 1]))
    return case(seed, cfg, g, kind=kind)


def c18(r, seed):
    return pool_case(r, seed, "dask")


def c19(r, seed):
    return pool_case(r, seed, "ray")


def c20(r, seed):
    ops = []
    for _ in range(r.randrange(8, 30)):
        th = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16])
        k = r.randrange(8)
        if k < 2:
            n = r.randrange(0, 200)
        elif k < 4:
            n = max(0, 64 * th * r.randrange(0, 5) + r.choice([-65, -64, -63, -1, 0, 1, 63, 64, 65, r.randrange(64)]))
        elif k < 6:
            n = max(0, 64 * r.randrange(0, 40) + r.choice([-1, 0, 1, r.randrange(64)]))
        elif k == 6:
            n = r.randrange(200, 70000)
        else:
            n = r.choice([1 << 16, (1 << 18) + r.randrange(-70, 70), 4096 * r.randrange(1, 20) + r.randrange(-3, 4)])
        if r.random() < 0.05:
            ops.append(["fill", {"n": r.randrange(0, 300), "value": r.choice([0, -1, 1, 2**62, r.randrange(10**9)]), "edge": r.randrange(3), "data": 0}])
            continue
        if r.random() < 0.08:
            n = r.choice([(1 << r.randrange(24, 35)) + r.randrange(-200, 200), r.randrange(1 << 31, 1 << 34), th * (1 << 31) + r.randrange(-70, 70), th * (1 << 32) + r.randrange(-70, 70)])
            ops.append(["huge", {"n": n, "threads": th, "sa": r.choice([0, r.randrange(64)]), "da": r.choice([0, r.randrange(64)]), "order": r.choice([0, r.randrange(1, 2**31)]), "data": 0}])
            continue
        ops.append(["copy", {"n": n, "threads": th, "sa": r.choice([0, r.randrange(64)]), "da": r.choice([0, r.randrange(64)]),
                             "se": r.choice([0, 0, 1, 2]), "de": r.choice([0, 0, 1, 2]), "slack": r.choice([0, 0, 0, 1, 64, 100]), "ro": r.randrange(2),
                             "order": r.choice([0, r.randrange(1, 2**31)]), "data": r.randrange(2**31)}])
    return {"seed": seed, "cfg": {"strategy": "thread order"}, "program": {"ops": ops}, "kind": "copy"}


PROFILES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
            "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15,
            "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20}


def make_case(pid, seed):
    r = random.Random("%s/%s" % (pid, seed))
    c = PROFILES[pid](r, seed)
    c["pid"] = pid
    return c


# number of simulated runs per tier
PLAN = {p: {"quick": 1600, "thorough": 60000} for p in PROFILES}
INFO = {}
