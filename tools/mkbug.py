"""Make /verif/seeded/<id>/ from an edit: mkbug.py ID PROPERTY FILE  (reads old/new text, needs, what from a python spec file).

Spec file: python assigning `edits = [(file, old, new), ...]`, `prop`, `needs`, `breaks`, `demo` (demo.py text), `mode` (mpi|py), `env`."""
import json
import os
import subprocess
import sys

spec = {}
exec(open(sys.argv[1]).read(), spec)
bid = spec["bid"]
out = f"/verif/seeded/{bid}"
os.makedirs(out, exist_ok=True)
R = "/repo"
assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "repo dirty"
try:
    for f, old, new in spec["edits"]:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    assert d
    open(out + "/patch.diff", "w").write(d)
finally:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
open(out + "/demo.py", "w").write(spec["demo"])
mpi = '''export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_tcp_if_include=lo OMPI_MCA_oob_tcp_if_include=lo
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated
'''
launch = "/usr/bin/mpiexec -n 1 --oversubscribe " if spec.get("mode", "py") == "mpi" else ""
env = "".join(f"export {k}={v}\n" for k, v in spec.get("env", {}).items())
open(out + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/repo
{mpi if launch else ""}{env}tmp=$(mktemp -d /tmp/demo.XXXXXX)
export TMPDIR=$tmp
cd "$tmp"
for try in 1 2 3; do
  : > "$tmp/out"
  setsid {launch}/opt/venv/bin/python "$here/demo.py" > "$tmp/out" 2>&1 &
  pid=$!
  end=$((SECONDS + {spec.get("limit", 60)}))
  while kill -0 $pid 2>/dev/null && [ $SECONDS -lt $end ]; do
    {"" if spec.get("ends") else 'grep -q "^DEMO-OK$" "$tmp/out" && break'}
    sleep 0.2
  done
  rc=2  # no verdict in time: try again
  kill -0 $pid 2>/dev/null || {{ wait $pid; rc=$?; [ $rc -ne 2 ] || rc=1; grep -q "^DEMO-OK$" "$tmp/out" || rc=1; }}
  {"" if spec.get("ends") else 'grep -q "^DEMO-OK$" "$tmp/out" && rc=0'}
  kill -TERM -- -$pid 2>/dev/null; sleep 0.5; kill -KILL -- -$pid 2>/dev/null
  [ $rc -ne 2 ] && break
done
tail -20 "$tmp/out"
cd /; rm -rf "$tmp"
exit $rc
''')
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
print(out)
