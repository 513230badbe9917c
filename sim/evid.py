"""Evidence: what one check run covered, measured on that run."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL_MPI = ["all modules of unidist (api, config, base classes, MPI backend: controller, worker, monitor, object stores, serialization), "
            "loaded once per simulated process from /repo's working tree", "memory.cpp/_memory.pyx compiled from /repo",
            "asyncio event loop logic, cloudpickle, msgpack, pickle, numpy"]
STUB_MPI = ["MPI library (sim/fakempi.py: point-to-point, probes, collectives, groups, spawn, shared windows)", "threads and locks (sim/simthreading.py)",
            "clocks and sleep (virtual time)", "event loop selector and executor (sim/simloop.py)", "psutil/os facts about memory and /dev/shm",
            "std::thread inside memory.cpp (native/simthread.h)"]


class Agg:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.runs = 0
        self.steps = 0
        self.switches = 0
        self.sim_ns = 0
        self.hashes = set()
        self.hist = set()
        self.stats = {}
        self.samples = []
        self.nontrivial = set()
        self.determinism = [0, 0]
        self.known = 0
        self.kinds = {}
        self.strategies = {}

    def add(self, c, r):
        self.runs += 1
        self.steps += r["steps"]
        self.switches += r["switches"]
        self.sim_ns += r["sim_ns"]
        self.hashes.add(r["hash"])
        for x in r["cover"]:
            self.hist.add(x)
        if r["switches"] >= 2 and r["ops"] >= 1:
            self.nontrivial.add(r["hash"])
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                self.stats[k] = self.stats.get(k, 0) + v
        st = c.get("cfg", {}).get("strategy", "rand")
        self.strategies[st] = self.strategies.get(st, 0) + 1
        if len(self.samples) < 3:
            s = {k: v for k, v in c.items() if k in ("seed", "cfg", "program", "kind", "params")}
            t = json.dumps(s)
            self.samples.append(s if len(t) < 4000 else {"seed": c.get("seed"), "case": t[:4000]})

    def write(self, wall, violations, harness):
        import profiles

        info = profiles.INFO.get(self.pid, {})
        cov = {
            "evaluations": self.runs,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": info.get("rule", "one case = one generated program, configuration and seed, executed once under the simulator; counted as "
                             "non-trivial if the run made at least two context switches between simulated threads or processes and performed at least one "
                             "API operation, as distinct by the hash over its complete event sequence (schedule, deliveries, timers, faults)"),
            "samples": self.samples,
            "runs_per_hour": int(self.runs / max(wall, 0.001) * 3600),
            "seeds": [self.seed * 10_000_000, self.seed * 10_000_000 + max(self.runs - 1, 0)],
            "simulated_seconds": round(self.sim_ns / 1e9, 3),
            "scheduling_steps": self.steps,
            "context_switches": self.switches,
            "distinct_user_visible_histories": len(self.hist),
            "scheduler_strategies": self.strategies,
            "faults_and_events_injected": {k: self.stats[k] for k in sorted(self.stats)},
            "determinism_reruns": self.determinism[0],
            "determinism_mismatches": self.determinism[1],
            "runs_without_answer": harness,
            "known_finding_scenarios": self.known,
            "components_real": info.get("real", REAL_MPI),
            "components_stub": info.get("stub", STUB_MPI),
        }
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": info.get("assumptions", [
                "the simulated MPI library behaves as the MPI standard allows (see DESIGN.md)",
                "interleaving points are MPI calls, lock operations, sleeps and (in part of the runs) single Python lines",
            ]),
            "wall_s": round(wall, 2),
            "violations": violations,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
