"""plant.py SPEC.py [ID ...]: write seeded/<id>/ from a specification and confirm it in a scratch copy of /repo.

SPEC.py defines BUGS = [dict(id, property, file, old, new, needs, breaks, demo[, edits])].  A bug is kept only if the patch applies,
the stable tests pass with it, and its demonstration passes without and fails with it.  --check also runs the property's check."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = [a for a in sys.argv[2:] if not a.startswith("--")]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests")
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        w = "/tmp/plant-%s" % b["id"]
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        sh("git -C %s checkout -q -- ." % w)
        for f, old, new, *occ in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            p = os.path.join(w, "pocomc", f)
            s = open(p).read()
            if s.count(old) != 1 and not occ or not s.count(old):
                print(b["id"], "EDIT MATCHES %d TIMES" % s.count(old), old[:60])
                break
            parts = s.split(old)
            k = occ[0] + 1 if occ else 1
            open(p, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
        else:
            d = os.path.join(V, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % w).stdout)
            open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(SH)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            clean = sh("bash %s/demo.sh" % d, cwd="/repo")
            bad = sh("bash %s/demo.sh" % d, cwd=w)
            msg = []
            if clean.returncode != 0:
                msg.append("DEMO FAILS ON CLEAN: " + (clean.stdout + clean.stderr)[-300:])
            if bad.returncode == 0:
                msg.append("DEMO PASSES WITH PATCH " + bad.stdout[-200:])
            if "--notest" not in sys.argv:
                t = sh("cd %s && timeout 600 /opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider tests 2>&1 | tail -4" % w, env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1"))
                msg.append("tests: " + t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "tests: ?")
            if "--check" in sys.argv:
                for c in [b["property"]] + b.get("also", []):
                    r = sh("bash %s/check.sh %s" % (V, c), env=dict(os.environ, VERIF_REPO=w))
                    lines = r.stdout.splitlines()
                    msg.append("%s exit %d %s" % (c, r.returncode, (lines[1][:140] if r.returncode == 1 and len(lines) > 1 else r.stderr[-200:])))
            print(b["id"], "| demo clean %d patched %d |" % (clean.returncode, bad.returncode), " | ".join(msg), "|", (bad.stdout + bad.stderr).strip().splitlines()[-1][:120] if (bad.stdout + bad.stderr).strip() else "", flush=True)
        shutil.rmtree(w, ignore_errors=True)


main()
