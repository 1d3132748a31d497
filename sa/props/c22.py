"""Model downloads are cached completely, once, and under their own name."""
import ast
import core
import terms as TT
from terms import *  # noqa
TECHNIQUE = ("typestate analysis of file effects (temporary file written, renamed, returned) with path conditions, injectivity "
             "of the cache key, and value-graph comparison of the model selection")
MINIMUM = 16
PT = "pycomlink.processing.pytorch_utils.inference_utils."
LOAD = "pycomlink.processing.pytorch_utils.pytorch_utils."
TF = "pycomlink.processing.tensorflow_utils.inference_utils."
RENAME = {"os.replace": (0, 1, "src", "dst"), "os.rename": (0, 1, "src", "dst"), "shutil.move": (0, 1, "src", "dst"),
          ".replace": (0, 1, "", "target"), ".rename": (0, 1, "", "target")}
WRITE = {"urllib.request.urlretrieve": (1, "filename"), "wget.download": (1, "out"), "shutil.copy": (1, "dst"),
         "shutil.copyfile": (1, "dst"), "shutil.copy2": (1, "dst"), ".write_bytes": (0, ""), ".write_text": (0, ""),
         "builtins.open": (0, "file"), "io.open": (0, "file"), ".open": (0, "")}
DELETE = {"os.remove": (0, "path"), "os.unlink": (0, "path"), ".unlink": (0, ""), "shutil.rmtree": (0, "path"),
          "os.rmdir": (0, "path"), ".rmdir": (0, "")}
UNIQUE = ("os.getpid", "tempfile.", "uuid.", "threading.get_ident", "secrets.")
DIGEST = {"hexdigest", "digest"}


def check(ck):
    ck.load_spec("dl")
    FILES.clear()
    FILES.update((m.path, m.tree) for m in ck.prog.modules.values())
    download(ck, PT + "download_and_cache_model", "model_url", "force_download", "cache_dir")
    download(ck, TF + "download_and_cache", "url", "force_download", "cache_dir")
    ck.match(PT + "get_model", "spec.dl.get_model", "model selection",
             cuts={PT + "download_and_cache_model", LOAD + "load_model", LOAD + "set_device"})
    ck.match(PT + "list_cached_models", "spec.dl.list_cached_models", "listing of the cache")
    ck.match(TF + "resolve_model_paths", "spec.dl.resolve_model_paths", "model selection",
             cuts={TF + "download_and_cache"})
    deletions(ck, PT + "clear_model_cache", "cache_dir")
    for f in ("download_and_cache_model", "list_cached_models", "clear_model_cache"):
        ck.defaults(PT + f, {"cache_dir": "~/.cml_wd_pytorch/models"})
    ck.defaults(PT + "download_and_cache_model", {"force_download": False})
    ck.defaults(PT + "list_cached_models", {"suffix": ".pt"})
    ck.defaults(PT + "get_model", {"force_download": False})
    ck.defaults(TF + "download_and_cache", {"force_download": False})
    ck.defaults(TF + "resolve_model_paths", {"cache_dir": "model_cnn", "force_download": False})


def norm(t):
    """the file a path expression names"""
    while True:
        if t.op == "call" and t.args[0] in ("builtins.str", "pathlib.Path", "os.fspath", "os.path.abspath") and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif t.op == "call" and t.args[0] == "pathjoin":
            return mk("call", "pathjoin", tuple(norm(x) for x in t.args[1]), ())
        elif t.op == "fstr" and t.args[1] is S(""):
            t = t.args[0]
        elif t.op == "concat":
            parts = []
            for x in t.args:
                y = norm(x)
                parts += y.args if y.op == "concat" else [y]
            return mk("concat", *parts)
        elif t.op == "meth" and t.args[1] in ("as_posix", "resolve", "absolute", "__str__"):
            t = t.args[0]
        else:
            return t


def argument(e, i, name):
    if name in e.kwargs:
        return e.kwargs[name]
    return e.args[i] if i < len(e.args) else None


def target(e, spec):
    return argument(e, spec[0], spec[1])


def mode(e):
    m = argument(e, 0 if e.name == ".open" else 1, "mode")
    if e.name == ".open" and "mode" not in e.kwargs:
        m = e.args[1] if len(e.args) > 1 else None
    return m.args[0] if m is not None and m.op == "str" else "r"


def download(ck, f, url, force, cache):
    ck.anchor(f)
    TT.SCALARS.clear(), TT.NOTNONE.clear(), TT.LENS.clear(), TT.SAMELEN.clear()
    try:
        o = ck.run(f)
    except (core.Unsupported, RecursionError) as e:
        return ck.undecided("cache entry", f, e)
    path, line = ck.prog.resolve(f)[1].path, ck.prog.resolve(f)[1].defs[f.rsplit(".", 1)[1]].lineno
    res = {norm(x) for x in core.leaves(o.I.safe_term(o.v))}
    U, FD = mk("par", url), mk("par", force)
    if len(res) != 1:
        return ck.undecided("cache entry", f, "returns one of several paths")
    R = res.pop()
    ck.count("file events", len(o.I.events))
    writes, renames = [], []
    for i, e in enumerate(o.I.events):
        if e.name in WRITE and (e.name not in ("builtins.open", "io.open", ".open") or set(mode(e)) & set("wax+")):
            t = target(e, WRITE[e.name])
            if t is not None:
                writes.append((i, e, norm(t)))
        elif e.name in RENAME and (e.name[0] != "." or len(e.args) == 2 and (norm(e.args[1]) is R or norm(e.args[0]) is R)):
            a, b, an, bn = RENAME[e.name]
            s, d = argument(e, a, an), argument(e, b, bn)
            if s is not None and d is not None:
                renames.append((i, e, norm(s), norm(d)))
    # the key
    rule = "distinct cache entry per URL"
    where = f + "[name]"
    src = sources(R, U, {})
    part = [x for x in src if x.op == "slice" and x.args[0].op == "meth" and x.args[0].args[1] in DIGEST
            and U in sources(x.args[0], U, {})]
    if not src:
        ck.violation(rule, where, path, line, "the name of the cached file does not depend on the URL")
    elif U in src:
        ck.ok(rule, where)
    elif all(x.op == "call" and x.args[0] == "builtins.hash" for x in src):
        ck.violation(rule, where, path, line, "hash() of a string differs from process to process, the file is never found again")
    elif part and all(short(x) if x in part else lossy(x, U) for x in src):
        ck.violation(rule, where, path, line, "so few digits of the hash are used that files of different URLs get the same name")
    elif not part and all(lossy(x, U) for x in src):
        ck.violation(rule, where, path, line, "files of different URLs get the same name: only a part of the URL is used",
                     "name rests on " + ", ".join(sorted(show(x, 4) for x in src))[:200])
    else:
        ck.undecided(rule, where, "name of the cached file")
    if mk("par", cache) not in set(walk(R)):
        ck.violation("entry lies in the cache directory", where, path, line, "the returned path does not lie in the cache directory")
    else:
        ck.ok("entry lies in the cache directory", where)
    # the typestate
    rule = "complete before visible"
    direct = [e for i, e, t in writes if t is R]
    into = [(i, e, s) for i, e, s, d in renames if d is R]
    if direct:
        e = direct[0]
        return ck.violation(rule, f, e.path, e.line, "%s writes straight into the cache entry: an interrupted download "
                            "leaves a partial file that later calls use" % e.name.strip("."))
    if not into:
        return ck.undecided(rule, f, "no write of the cache entry recognised") if not renames and not writes else \
            ck.violation(rule, f, path, line, "the downloaded file does not become the cache entry that is returned")
    for i, e, s in into:
        before = [w for w in writes if w[0] < i and w[2] is s]
        if not before:
            if any(w[2] is s for w in writes):
                ck.violation(rule, f, e.path, e.line, "the file becomes visible in the cache before it is written")
            else:
                ck.undecided(rule, f, "what is renamed into the cache was not recognised as the download")
            return
        for j, w, t in before:
            u = argument(w, 0, "url")
            if w.name == "urllib.request.urlretrieve" and u is not None and u is not U:
                return ck.violation(rule, f, w.path, w.line, "another URL is downloaded")
            why = swallowed(w, e)
            if why:
                return ck.violation(rule, f, e.path, e.line, why)
        if not any(x.op == "call" and str(x.args[0]).startswith(UNIQUE) or x.op == "meth" and x.args[1] == "mkstemp"
                   for x in walk(s)):
            ck.violation(rule, f + "[temporary]", e.path, e.line, "two processes that download at the same time write the "
                         "same temporary file")
        else:
            ck.ok(rule, f + "[temporary]")
        tail = s
        while tail.op == "call" and tail.args[0] == "pathjoin":
            tail = tail.args[1][-1]
        if tail.op == "concat":
            tail = tail.args[-1]
        if tail.op == "str" and tail.args[0].endswith((".pt", ".h5", ".json")):
            ck.violation(rule, f + "[temporary name]", e.path, e.line, "the temporary file is listed as a cached model")
    ck.ok(rule, f)
    directory(ck, f, o, min(j for i, e, s in into for j, w, t in writes if t is s), path, line)
    # when
    rule = "downloaded when missing or forced"
    pc = FALSE
    for i, e, s in into:
        pc = lor(pc, strip_exc(e.pc))
    want = lor(lnot(mk("exists", R)), mk("truth", FD))
    got = rewrite(pc, {x: mk("exists", norm(x.args[0])) for x in walk(pc) if x.op == "exists"})
    got = rewrite(got, {FD: FD})
    r = ck.equiv(got, want, {})
    if r.v == core.E.EQ:
        ck.ok(rule, f)
    elif r.v == core.E.NE:
        e = into[0][1]
        ck.violation(rule, f, e.path, e.line, "the download happens under another condition than `missing or forced`",
                     "condition: %s" % show(got, 6)[:300])
    else:
        ck.undecided(rule, f, r.why)


def directory(ck, f, o, first, path, line):
    """the cache directory is made, with its parents, before something is written, whether it exists or not"""
    rule, ok = "the cache directory is made when missing", False
    write = o.I.events[first]
    for e in o.I.events[:first]:
        if e.name in (".mkdir", "os.mkdir"):
            parents, there = option(e, 2 if e.name == ".mkdir" else 9, "parents"), option(e, 3, "exist_ok")
        elif e.name == "os.makedirs":
            parents, there = TRUE, option(e, 2, "exist_ok")
        else:
            continue
        if there is FALSE and not any(x.op == "exists" or x.op == "meth" and x.args[1] in ("is_dir", "exists") or x.op == "call" and
                                      str(x.args[0]).startswith("os.path.") for x in walk(e.pc)) and not tried(e):
            return ck.violation(rule, f, e.path, e.line, "fails with FileExistsError if the cache directory exists already")
        if parents is FALSE and not tried(e):
            return ck.violation(rule, f, e.path, e.line, "fails if the parent of the cache directory does not exist")
        pc = rewrite(strip_exc(e.pc), {x: FALSE for x in walk(e.pc) if x.op == "exists" and x not in set(walk(write.pc))})
        ok = ok or core.implied(strip_exc(write.pc), pc) is not False
    if ok:
        ck.ok(rule, f)
    elif any("mkdir" in e.name or "makedirs" in e.name or "mkdtemp" in e.name or e.name.startswith("subprocess") for e in o.I.events):
        ck.undecided(rule, f, "when the directory is made")
    else:
        ck.violation(rule, f, path, line, "a missing cache directory is not made: the first download fails")


def option(e, i, name):
    v = e.kwargs.get(name, e.args[i] if i < len(e.args) else FALSE)
    return FALSE if v in (FALSE, ZERO) else v


def tried(e):
    return any((isinstance(n, ast.Try) and n.handlers or isinstance(n, ast.With) and "suppress" in ast.dump(n.items[0])) and n.body[0].lineno <= e.line <= n.body[-1].end_lineno
               for n in ast.walk(FILES[e.path])) if e.path in FILES else True


def strip_exc(pc):
    return rewrite(pc, {x: FALSE for x in walk(pc) if x.op == "exc"})


def sources(t, u, memo):
    """what t rests on of u: u itself if t determines it, else the terms that drop something (or might)"""
    if t is u:
        return {u}
    if t in memo:
        return memo[t]
    memo[t] = set()
    out = set()
    for c in children(t):
        out |= sources(c, u, memo)
    if out and not keeps(t):
        out = {t if u in out else x for x in out} if lossy(t, u) or u in out else out
    memo[t] = out
    return out


def keeps(t):
    """different arguments give different results"""
    if t.op in ("concat", "pathjoin", "list", "tuple", "poly", "dict"):
        return True
    if t.op == "meth":
        return t.args[1] in DIGEST or t.args[1] in ("encode", "format", "decode", "hex", "update", "split", "rsplit", "copy",
                                                    "with_suffix", "joinpath", "expanduser", "resolve", "absolute", "as_posix") \
            or t.args[1] == "join" and t.args[0].op != "str"
    if t.op == "call":
        n = str(t.args[0])
        return n.startswith(("hashlib.", "base64.")) or "quote" in n or n in (
            "pathjoin", "concat", "builtins.str", "pathlib.Path", "os.path.join", "builtins.bytes", "os.fspath", "uuid.uuid5", "uuid.uuid3",
            "urllib.parse.urlparse", "urllib.parse.urlsplit", "os.path.split", "binascii.hexlify", "builtins.repr")
    if t.op == "fld":
        return t.args[1] == "hex"
    return False


def lossy(x, u):
    """certainly the same for some different URLs"""
    if x.op == "meth" and x.args[0].op == "meth" and x.args[0].args[1] in DIGEST:
        return False
    if x.op == "lenof":
        return True
    if x.op == "meth":
        if x.args[1] in ("lower", "upper", "casefold", "title", "capitalize", "swapcase", "strip", "rstrip", "lstrip",
                         "partition", "rpartition", "removesuffix", "removeprefix", "count", "find"):
            return True
        if x.args[1] == "replace" and len(x.args[2]) == 2 and all(a.op == "str" for a in x.args[2]):
            return x.args[2][0] is not x.args[2][1]
        return x.args[1] == "join" and x.args[0].op == "str" and any(
            y.op == "meth" and y.args[1] in ("split", "rsplit") and x.args[0] not in y.args[2] for y in x.args[2])
    if x.op == "idx":
        return x.args[0].op == "meth" and x.args[0].args[1] in ("split", "rsplit", "partition", "rpartition") \
            or x.args[0] is u or x.args[0].op == "call" and str(x.args[0].args[0]) in (
                "os.path.split", "urllib.parse.urlparse", "urllib.parse.urlsplit", "os.path.splitext")
    if x.op == "slice":
        return u in set(walk(x.args[0])) and x.args[0].op in ("par", "list", "meth") and not (
            x.args[0].op == "meth" and x.args[0].args[1] in DIGEST) and any(a.op == "num" and a is not ZERO for a in x.args[1:3])
    if x.op == "fld":
        return x.args[0].op == "call" and str(x.args[0].args[0]) in (
            "pathlib.Path", "urllib.parse.urlparse", "urllib.parse.urlsplit")
    return x.op == "call" and str(x.args[0]) in ("os.path.basename", "posixpath.basename", "os.path.dirname", "builtins.hash",
                                                 "builtins.len", "re.sub", "os.path.splitext")


def short(x):
    lo, hi = x.args[1], x.args[2]
    return lo.op == "num" and hi.op == "num" and 0 <= hi.args[0] - lo.args[0] <= 4


def swallowed(write, rename):
    """the rename runs although the download failed"""
    root = FILES.get(write.path)
    if root is None or write.node is None or rename.node is None:
        return None
    for t in ast.walk(root):
        if not isinstance(t, ast.Try):
            continue
        if not any(n is write.node for st in t.body for n in ast.walk(st)):
            continue
        if any(n is rename.node for st in t.finalbody for n in ast.walk(st)):
            return "the file becomes the cache entry in a finally block, also after a failed download"
        if any(n is rename.node for st in t.body + t.orelse for n in ast.walk(st)):
            continue
        for h in t.handlers:
            if not any(isinstance(n, (ast.Raise, ast.Return, ast.Continue)) for st in h.body for n in ast.walk(st)):
                return "a failed download is caught and the partial file becomes the cache entry all the same"
    return None


FILES = {}


def deletions(ck, f, cache):
    rule = "only cache files are deleted"
    ck.anchor(f)
    try:
        o = ck.run(f)
    except (core.Unsupported, RecursionError) as e:
        return ck.undecided(rule, f, e)
    C = mk("par", cache)
    n = 0
    for e in o.I.events:
        if e.name in DELETE:
            t = target(e, DELETE[e.name])
            if t is None:
                continue
            n += 1
            t = norm(t)
            if C not in set(walk(t)):
                return ck.violation(rule, f, e.path, e.line, "%s deletes %s, which does not come from the cache directory" % (
                    e.name.strip("."), show(t, 4)))
            if any(x.op == "fld" and x.args[1] in ("parent", "parents") for x in walk(t)) or any(
                    x.op == "str" and ".." in x.args[0] for x in walk(t)):
                return ck.violation(rule, f, e.path, e.line, "%s deletes outside the cache directory" % e.name.strip("."))
    if n == 0:
        return ck.violation(rule, f, ck.prog.resolve(f)[1].path, 0, "nothing is deleted any more")
    ck.ok(rule, f, "%d delete operations" % n)
