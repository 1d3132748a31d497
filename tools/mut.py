"""Regression of the checkers: python3 tools/mut.py [-v] FILE...
FILE calls B(props, path, edits) for a change that must be reported and R(props, path, edits) for one that keeps the
behaviour.  Everything happens on overlays in memory."""
import contextlib, importlib, io, os, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "sa"))
os.environ["VERIF_EVIDENCE"] = "/tmp/scr/ev"
import core
stat = {}
VERB = "-v" in sys.argv


def go(kind, props, path, edits):
    if isinstance(edits, tuple):
        edits = [edits]
    files = {}
    for e in edits:
        p, o, n = e if len(e) == 3 else (path,) + tuple(e)
        s = files.get(p) or open("/repo/" + p).read()
        if s.count(o) < 1:      # without lines that hold comments only
            s = "".join(l for l in s.splitlines(True) if not l.strip().startswith("#"))
        if s.count(o) < 1:
            print("STALE", p, repr(o)[:80]); return
        files[p] = s.replace(o, n, 1)
    res = []
    for pid in props.split():
        m = importlib.import_module("props." + pid.lower())
        t = time.time()
        ck = core.Check(pid, overlay=files)
        try:
            m.check(ck)
            und = [o for o in ck.obl if o[2] == "undecided"]
            rc = 1 if ck.viol else (3 if len(ck.obl) < m.MINIMUM and not und else 0)
        except core.AnalysisError as ex:
            rc, und = 3, [("", "", "", str(ex))]
        except Exception as ex:
            if VERB:
                traceback.print_exc()
            rc, und = 0, [("", "", "", "crash %r" % ex)]
        res.append((pid, rc, und, ck.viol, time.time() - t))
    good = any(r[1] == 1 for r in res) if kind == "B" else all(r[1] == 0 for r in res)
    full = good and (kind == "B" or not any(r[2] for r in res))
    k = kind + (" ok" if full else " und" if good else " MISS" if kind == "B" else " FALSE ALARM")
    stat[k] = stat.get(k, 0) + 1
    if not full or VERB or max(r[4] for r in res) > 20:
        print("%-14s %s %s" % (k, props, " // ".join("%s -> %s" % (e[-2].strip()[:70], e[-1].strip()[:70]) for e in edits).replace("\n", "\\n")))
        for pid, rc, und, viol, dt in res:
            print("      %s rc=%d %.1fs %s" % (pid, rc, dt, "; ".join(
                "%s:%s %s %s" % (v["file"], v["line"], v["construct"], v["detail"][:200]) for v in viol[:2])
                or "; ".join("%s: %s" % (u[1], u[3][:150]) for u in und[:2])))


def B(props, path, *edits):
    for e in edits:
        go("B", props, path, e)


def R(props, path, *edits):
    for e in edits:
        go("R", props, path, e)


for f in [a for a in sys.argv[1:] if not a.startswith("-")]:
    exec(open(f).read())
print(sorted(stat.items()))
