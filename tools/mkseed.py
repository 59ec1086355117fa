"""make planted changes from a spec file: python3 tools/mkseed.py SPEC.py [id ...]
spec: SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=python text, needs, breaks, tests=[test file names])]
Each is verified in scratch copies; a seed directory is written only when the demonstration separates the trees."""
import json, os, shutil, subprocess, sys
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, t=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=cwd, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=t)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        w = "/tmp/seedw_" + s["id"]
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("build"))
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times in", f)
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            shutil.rmtree(w)
            continue
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        base = subprocess.run("git log --format='%h %s' | grep -v ' fix:' | head -1 | cut -d' ' -f1", cwd="/repo", shell=True, capture_output=True, text=True).stdout.strip()
        cur = None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = subprocess.run(["git", "show", base + ":" + line[6:]], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
            elif line.startswith("-") and line[1:] not in cur:
                print(s["id"], "changes a line that is not original:", line)
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh("bash %s/demo.sh" % d, "/repo")
        b = sh("bash %s/demo.sh" % d, w)
        tests = " ".join("pystatsm/tests/%s_test.py" % t for t in s.get("tests", []))
        tr = "no tests"
        if tests:
            r = sh("%s -m pytest -q -x -p no:cacheprovider -W ignore -n 4 %s" % (PY, tests), w)
            tr = (r.stdout.strip().splitlines() or ["?"])[-1]
        c = subprocess.run("PYSTATSM_REPO=%s python3-vt run.py %s" % (w, s["prop"]), cwd=HERE, shell=True, capture_output=True, text=True)
        print("%-28s demo clean=%d patched=%d | %s | check rc=%d %s" % (
            s["id"], a.returncode, b.returncode, tr, c.returncode,
            next((l for l in c.stdout.splitlines() if "VIOLATION" in l), "MISSED")[:140]), flush=True)
        if a.returncode != 0:
            print("   clean:", (a.stdout + a.stderr)[-400:])
        if b.returncode == 0:
            print("   the demonstration does not fail with the change")
        shutil.rmtree(w)


main()
