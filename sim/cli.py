"""Command line of the framework.

  check PID [--tier quick|thorough] [--runs N] [--jobs N] [--cap SECONDS]
  replay FILE [--trace]
  selftest
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
for d in (HERE, VERIF):
    if d not in sys.path:
        sys.path.insert(0, d)

TECH = "deterministic simulation"


def say(*a):
    print(*a, flush=True)


def kinds(res):
    return sorted({v["kind"] for v in res["violations"]})


def real(res):
    """Violations of a result (trouble of the harness itself is not a violation)."""
    return [v for v in res["violations"] if v["kind"] != "harness"]


class Check:
    def __init__(self, pid, tier, runs, jobs, cap):
        import evid
        import profiles
        import runner

        self.runner = runner
        self.profiles = profiles
        self.evid = evid
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        plan = profiles.PLAN[pid]
        self.runs = runs or plan[tier]
        self.jobs = jobs
        self.cap = cap or {"quick": 240, "thorough": 3600}[tier]
        self.t0 = time.time()
        self.agg = evid.Agg(pid, tier, self.seed)
        self.bad = []
        self.harness = []

    def cases(self):
        base = self.seed * 10_000_000
        for i in range(self.runs):
            yield self.profiles.make_case(self.pid, base + i)

    def known(self):
        """Scenarios of the known findings of this property."""
        path = os.path.join(VERIF, "known_findings.json")
        out = []
        for e in json.load(open(path))["known"]:
            if e["property"] != self.pid:
                continue
            case = json.load(open(os.path.join(VERIF, e["scenario"])))["case"]
            res = self.runner.fork_run(case)
            self.agg.known += 1
            match = lambda v: any(m in v["detail"] for m in e["match"])  # noqa: E731
            if any(match(v) for v in real(res)):
                say(f"KNOWN-FINDING: property={self.pid} {e['what']}")
            others = [v for v in real(res) if not match(v)]
            if others:
                out.append((case, dict(res, violations=others)))
        return out

    def run(self):
        stop = lambda: bool(self.bad) or time.time() - self.t0 > self.cap  # noqa: E731
        self.bad += self.known()
        first = []
        for c, r in self.runner.run_many(self.cases(), self.jobs, stop=stop):
            self.agg.add(c, r)
            if real(r):
                self.bad.append((c, r))
            elif r["violations"]:
                self.harness.append((c, r))
            elif len(first) < 6:
                first.append((c, r["hash"], r.get("choices")))
        self.determinism(first)
        if self.harness:
            for c, r in self.harness[:3]:
                say(f"note: no result for seed {c['seed']}: {r['violations'][0]['detail'][-600:]}")
        rc = 0
        if self.bad:
            rc = self.report()
        if rc == 0 and len(self.harness) * 10 > self.agg.runs:
            say("the simulator could not run this tree")
            rc = 3
        self.agg.write(time.time() - self.t0, 1 if rc == 1 else 0, len(self.harness))
        say(f"{self.pid}: {self.agg.runs} simulated runs, {len(self.agg.hashes)} distinct executions, "
            f"{time.time() - self.t0:.1f}s, violations: {1 if rc == 1 else 0}")
        return rc

    def determinism(self, first):
        """The same seed, and the recorded choices of it, give the same execution."""
        cs = []
        for c, h, ch in first:
            cs.append((dict(c), h))
            if ch is not None:
                cs.append((dict(c, choices=ch), h))
        want = {id(c): h for c, h in cs}
        for c, r in self.runner.run_many((c for c, _ in cs), self.jobs):
            self.agg.determinism[0] += 1
            if r["hash"] != want[id(c)]:
                self.agg.determinism[1] += 1

    def report(self):
        import minimise

        self.bad.sort(key=lambda x: x[0].get("seed", 0))
        for c, r in self.bad[:4]:
            again = self.runner.fork_run(c)
            if kinds(again) != kinds(r) or again["hash"] != r["hash"]:
                say(f"note: seed {c.get('seed')} did not repeat exactly")
                if not real(again):
                    continue
                r = again
            m = minimise.minimise(self.runner, c, r, 45 if self.tier == "quick" else 240, self.jobs)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{self.pid}-{c.get('seed', 0)}.json")
            with open(path, "w") as f:
                json.dump(m, f, indent=1)
            v = m["violations"][0]
            say(f"seed {c.get('seed')}: {v['kind']}: {v['detail'][:1500]}")
            say(f"minimised to {len(m['case']['program']['ops']) if 'program' in m['case'] else '-'} operations, "
                f"{len(m['case'].get('choices') or [])} non-default choices")
            say(f"VIOLATION property={self.pid} replay={path}")
            return 1
        say("note: no violation could be repeated")
        return 3


def replay(path, trace):
    import runner

    runner.preload()
    m = json.load(open(path))
    res = runner.fork_run(m["case"], trace=trace)
    if trace:
        for line in res.get("trace") or []:
            say(*line)
    for v in res["violations"]:
        say(f"{v['kind']}: {v['detail']}")
    same = res["hash"] == m["hash"] and kinds(res) == sorted({v["kind"] for v in m["violations"]})
    say(f"steps {res['steps']} hash {res['hash']} exact repetition: {same}")
    if res["violations"]:
        say(f"VIOLATION property={m['property']} replay={path}")
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("pid")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    c.add_argument("--runs", type=int)
    c.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    c.add_argument("--cap", type=float)
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--trace", action="store_true")
    sub.add_parser("setup")
    a = ap.parse_args()
    if a.cmd == "setup":
        from sim import build_ext

        build_ext.load()
        say("setup done")
        return 0
    if a.cmd == "replay":
        return replay(os.path.abspath(a.file), a.trace)
    import runner

    runner.preload()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    return Check(a.pid, tier, a.runs, a.jobs, a.cap).run()


if __name__ == "__main__":
    sys.exit(main())
