"""Build and confirm planted bugs: python3 tools/mkseed.py seeds_file.py [id ...]
A seeds file calls seed(id, property, file, [(old, new)], demo_source, needs, breaks)."""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/scr/seedrepo"
WANT = sys.argv[2:]


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)


def fresh():
    if os.path.exists(SCR):
        shutil.rmtree(SCR)
    subprocess.check_call(["cp", "-a", "/repo", SCR])
    sh("git checkout -q -- .", SCR)


def seed(sid, prop, edits, demo, needs, breaks):
    if WANT and sid not in WANT:
        return
    fresh()
    for path, old, new in edits:
        p = os.path.join(SCR, path)
        s = open(p).read()
        assert s.count(old) == 1, (sid, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    for path, old, new in edits:
        orig = sh("git show fe23aa8:%s" % path, SCR).stdout.splitlines()
        gone = [l for l in old.splitlines() if l not in new.splitlines() and l not in orig]
        if gone:
            print(sid, "NOT ORIGINAL:", gone)
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff", SCR).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# exit 0: the property holds for the shown case\n'
        'here="$(cd "$(dirname "$0")" && pwd)"\n'
        'export PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$(mktemp -d)"\n'
        'timeout 250 /opt/venv/bin/python -B "$here/demo.py"\nrc=$?\nrm -rf -- "$NUMBA_CACHE_DIR"\nexit $rc\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, "/repo")
    b = sh("bash %s/demo.sh" % d, SCR)
    t = sh("PYTHONPATH=%s /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --timeout=300 "
           "--ignore=pycomlink/tests/test_pytorch_utils.py --ignore=pycomlink/tests/test_tensorflow_utils.py "
           "pycomlink 2>&1 | tail -1" % SCR, SCR)
    ok = a.returncode == 0 and b.returncode != 0 and "45 passed" in t.stdout
    print(sid, prop, "OK" if ok else "BAD", a.returncode, b.returncode, t.stdout.strip())
    if not ok:
        print(a.stdout[-600:], a.stderr[-600:], "\n-- patched:", b.stdout[-300:], b.stderr[-800:])
    # run the check
    ev = "/tmp/scr/ev"
    e = dict(os.environ, VERIF_EVIDENCE=ev, VERIF_REPO=SCR)
    c = sh("python3 sa/run.py %s" % prop, VERIF, e)
    print("   check:", "CAUGHT" if "VIOLATION property=%s" % prop in c.stdout and c.returncode == 1 else "missed",
          [l for l in c.stdout.splitlines() if l.startswith("pycomlink") or "undecided" in l][:3])
    sh("git checkout -q -- .", SCR)
    shutil.rmtree(SCR)


exec(open(sys.argv[1]).read())
