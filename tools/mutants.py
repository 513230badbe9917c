"""Development aid: run checks against many small edits of a scratch copy of /repo.

mutants.py SPEC.py [name-filter]   SPEC defines M = [(name, [pids], file, old, new), ...]"""
import os
import shutil
import subprocess
import sys
import time

spec = {}
exec(open(sys.argv[1]).read(), spec)
flt = sys.argv[2] if len(sys.argv) > 2 else ""
runs = os.environ.get("RUNS")
B = "unidist/core/backends/"
for name, pids, file, old, new in spec["M"]:
    if flt not in name:
        continue
    d = f"/tmp/mut/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/unidist", d + "/unidist")
    p = os.path.join(d, file if file.startswith("unidist") else B + file)
    s = open(p).read()
    if s.count(old) < 1:
        print(f"{name}: OLD TEXT NOT FOUND")
        continue
    open(p, "w").write(s.replace(old, new, 1))
    out = []
    for pid in pids:
        t = time.time()
        r = subprocess.run(["/verif/check", "check", pid] + (["--runs", runs] if runs else []), env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        last = [x for x in r.stdout.splitlines() if x.startswith(pid + ":")]
        why = [x for x in r.stdout.splitlines() if x.startswith("seed ")]
        out.append(f"{pid} rc={r.returncode} {time.time()-t:.0f}s {last[0].split(',')[0].split(':')[1] if last else r.stdout[-300:]+r.stderr[-300:]} {why[0][:150] if why else ''}")
    print(f"{name}: " + " | ".join(out), flush=True)
    shutil.rmtree(d, ignore_errors=True)
