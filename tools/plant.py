"""Plant bugs described in a spec file and confirm each of them.

Makes patch.diff, demo.sh, demo.py and meta.json in /verif/seeded/<id>, then, in a scratch copy of
/repo that is mounted over /repo in a private mount namespace only: build, stable tests, the
demonstration, the property's check on the planted tree; and the demonstration on the clean tree.

Usage: plant.py [-j N] SPEC.py [id ...]      plant and confirm the seeds of a spec file
       plant.py [-j N] --seeded [id ...]     confirm what is in /verif/seeded

A spec file defines SEEDS: dicts with id, property, edits [(path, old, new), ...], demo (Python
source that exits nonzero or raises on the planted tree), needs, breaks, check (optional list of
check ids to run; default: the property's own)."""
import concurrent.futures, json, os, runpy, shutil, subprocess, sys, tempfile

ORIG = "f24e587"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def write(s):
    """Writes the seed's files; returns (message, ok)."""
    d = f"/verif/seeded/{s['id']}"
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = f"{tmp}/repo"
    try:
        sh(f"git clone -q /repo {repo}")
        for path, old, new in s["edits"]:
            text = open(f"{repo}/{path}").read()
            if text.count(old) != 1:
                return f"EDIT matches {text.count(old)} times: {path}: {old[:70]!r}", False
            open(f"{repo}/{path}", "w").write(text.replace(old, new))
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {repo} diff -U3").stdout)
        mine = removed = 0
        for path in {e[0] for e in s["edits"]}:
            blame = sh(f"git -C /repo blame -s HEAD -- {path}").stdout.splitlines()
            for l in sh(f"git -C {repo} diff -U0 -- {path}").stdout.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    n = int(a[1]) if len(a) > 1 else 1
                    for k in range(n):
                        removed += 1
                        mine += not blame[int(a[0]) - 1 + k].startswith("^")
        open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(
            '#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        return f"mine {mine}/{removed}", True
    finally:
        shutil.rmtree(tmp)


INNER = r'''
set -u
mount --bind "$1/repo" /repo || exit 9
cd /repo
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
S="$1/seed"; shift
(cd /repo && timeout 300 bash "$S/demo.sh" >"$S.clean" 2>&1); echo "clean=$?"
git -C /repo apply "$S.diff" || { echo "NOAPPLY"; exit 8; }
bash /opt/vp/build.sh >"$S.build" 2>&1 || { echo "BUILDFAIL"; exit 7; }
bash /opt/vp/test.sh "$S.json" 2>/dev/null | tail -1
(cd /repo && timeout 300 bash "$S/demo.sh" >"$S.demo" 2>&1); echo "demo=$?"
tail -1 "$S.demo" | cut -c1-110
cd /verif
for p in "$@"; do
  l=$(echo $p | tr A-Z a-z)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_OUT="$S.ev" timeout 900 /opt/venv/bin/python checks/$l.py >"$S.$l" 2>"$S.$l.err"; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" "$S.$l"; then echo "$p CAUGHT"; else echo "$p MISSED rc=$rc $(tail -1 $S.$l.err)"; fi
done
'''


def confirm(sid, checks):
    src = f"/verif/seeded/{sid}"
    checks = checks or [json.load(open(f"{src}/meta.json"))["property"]]
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        sh(f"cp -a /repo {tmp}/repo; mkdir {tmp}/seed; cp {src}/* {tmp}/seed/; mv {tmp}/seed/patch.diff {tmp}/seed.diff; rm -f {tmp}/seed/meta.json")
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER, "x", tmp, *checks], capture_output=True, text=True)
        return " | ".join(p.stdout.split("\n")) + p.stderr[-300:]
    finally:
        shutil.rmtree(tmp)


def main():
    a = sys.argv[1:]
    jobs = 4
    if a[0] == "-j":
        jobs = int(a[1]); a = a[2:]
    if a[0] == "--seeded":
        todo = [(i, None, "") for i in sorted(os.listdir("/verif/seeded")) if not a[1:] or i in a[1:]]
    else:
        todo = []
        for s in runpy.run_path(a[0])["SEEDS"]:
            if a[1:] and s["id"] not in a[1:]:
                continue
            msg, ok = write(s)
            if ok:
                todo.append((s["id"], s.get("check"), msg))
            else:
                print(s["id"], "::", msg, flush=True)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(confirm, i, c): (i, m) for i, c, m in todo}
        for f in concurrent.futures.as_completed(futs):
            i, m = futs[f]
            res = f.result()
            flag = "" if "937 passed, 0 failed" in res and "clean=0" in res and "demo=0" not in res and "MISSED" not in res else "  <<<<<<"
            print(i, "::", m, "|", res, flag, flush=True)


main()
