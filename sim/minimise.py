"""Shrink a failing case: first the program, then the schedule and fault choices."""
import copy
import time


def _kinds(res):
    return {v["kind"] for v in res["violations"]} - {"harness"}


class Mini:
    def __init__(self, runner, case, res, budget, jobs):
        self.runner = runner
        self.jobs = jobs
        self.t_end = time.time() + budget
        self.want = _kinds(res)
        self.case = dict(case)
        if res.get("choices") is not None:
            self.case["choices"] = res["choices"]
        self.res = res

    def left(self):
        return self.t_end - time.time()

    def ok(self, res):
        return bool(_kinds(res) & self.want)

    def first(self, cands):
        """First candidate (in order) that still fails, evaluated in parallel."""
        cands = list(cands)
        for i in range(0, len(cands), self.jobs):
            if self.left() < 0:
                return None
            chunk = cands[i : i + self.jobs]
            got = {}
            for c, r in self.runner.run_many(iter(chunk), self.jobs):
                got[id(c)] = r
            for c in chunk:
                r = got.get(id(c))
                if r is not None and self.ok(r):
                    return c, r
        return None

    def take(self, found):
        c, r = found
        self.case, self.res = c, r
        if c.get("choices") is None and r.get("choices") is not None:
            self.case = dict(c, choices=r["choices"])

    def ddmin(self, get, put, retry=None):
        n = 2
        while self.left() > 0:
            items = get(self.case)
            if not items:
                return
            n = min(n, len(items))
            size = max(1, len(items) // n)
            cands = []
            for i in range(0, len(items), size):
                c = put(self.case, items[:i] + items[i + size :])
                cands.append(c)
                if retry:
                    cands += retry(c)
            found = self.first(cands)
            if found:
                self.take(found)
                n = max(2, n - 1)
            elif size == 1:
                return
            else:
                n = min(len(items), n * 2)


def _get_ops(c):
    return c["program"]["ops"]


def _put_ops(c, ops):
    return dict(c, program=dict(c["program"], ops=ops))


def _fresh(c):
    return [dict(c, choices=None)]


def minimise(runner, case, res, budget, jobs):
    m = Mini(runner, case, res, budget * 0.9, jobs)
    start = m.case, m.res
    # does the recorded trace repeat the failure?
    f = m.first([m.case])
    if not f:
        m.case = dict(case)
        m.case.pop("choices", None)
        m.res = res
    # without some of its operations (deletions, pauses) a program may run out of room or of workers for good reason
    if "program" in case and not m.want & {"leak", "reject"}:
        m.ddmin(_get_ops, _put_ops, _fresh)
    if m.case.get("choices"):
        m.ddmin(lambda c: c["choices"], lambda c, x: dict(c, choices=x))
    # the final file has to repeat exactly
    final = runner.fork_run(m.case)
    if not _kinds(final) & m.want:
        m.case, m.res = start
        final = runner.fork_run(m.case)
    return {
        "property": case.get("pid"),
        "seed": case.get("seed"),
        "case": copy.deepcopy(m.case),
        "violations": final["violations"] or res["violations"],
        "hash": final["hash"],
        "steps": final["steps"],
    }
