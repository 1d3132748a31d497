"""Names and parameters of the installed libraries (run with the python that has them): sa/data/api.json"""
import importlib, inspect, json, os, sys, types
MODS = """numpy numpy.lib.stride_tricks numpy.ma numpy.linalg numpy.random numpy.testing scipy scipy.interpolate scipy.spatial
scipy.stats scipy.signal scipy.ndimage scipy.special pandas xarray shapely shapely.ops shapely.geometry matplotlib matplotlib.mlab matplotlib.pyplot
numba h5py tqdm pykrige pykrige.ok sklearn.preprocessing sklearn poligrain poligrain.spatial poligrain.validation torch torch.nn torch.jit torch.cuda
torch.utils.data torch.nn.functional functools itertools collections copy os os.path sys math inspect hashlib importlib
importlib.resources importlib.util abc datetime warnings pickle json pathlib urllib.request subprocess builtins time shutil
tempfile future.utils""".split()
out, required = {}, {}
for m in MODS:
    try:
        mod = importlib.import_module(m)
    except Exception as e:
        print("skip", m, e)
        continue
    d = {}
    for n in dir(mod):
        try:
            v = getattr(mod, n)
        except Exception:
            continue
        ps = 0
        if callable(v) and not n.startswith("__"):
            try:
                s = inspect.signature(v)
                ks = [p.kind for p in s.parameters.values()]
                ps = [p.name for p in s.parameters.values()]
                if inspect.Parameter.VAR_KEYWORD in ks or inspect.Parameter.VAR_POSITIONAL in ks and isinstance(v, type) and False:
                    ps = 0
                elif inspect.Parameter.VAR_POSITIONAL in ks:
                    ps = ["*"] + [p.name for p in s.parameters.values() if p.kind != inspect.Parameter.VAR_POSITIONAL]
            except (ValueError, TypeError):
                ps = 0
        if isinstance(v, types.FunctionType) and not hasattr(v, "__wrapped__") or isinstance(v, type) and isinstance(
                v.__dict__.get("__init__"), types.FunctionType) and type(v) is type and not hasattr(v.__init__, "__wrapped__"):
            try:
                need = [[p.name, p.kind == p.KEYWORD_ONLY] for p in inspect.signature(v).parameters.values()
                        if p.default is p.empty and p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
                if need:
                    required[m + "." + n] = need
            except (ValueError, TypeError):
                pass
        if isinstance(v, types.ModuleType):
            ps = "mod"
        d[n] = ps
    out[m] = d
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "sa", "data", "api.json"), "w"), separators=(",", ":"), sort_keys=True)
print(sum(len(x) for x in out.values()))
json.dump(required, open(os.path.join(os.path.dirname(__file__), "..", "sa", "data", "required.json"), "w"), separators=(",", ":"), sort_keys=True)
