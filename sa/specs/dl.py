"""References for the selection of models."""
from pathlib import Path
import pycomlink.processing.pytorch_utils.inference_utils as pt
import pycomlink.processing.tensorflow_utils.inference_utils as tf


def get_model(model_path_or_url, force_download):
    s = model_path_or_url
    if s.startswith("http://") or s.startswith("https://"):
        return pt.load_model(str(pt.download_and_cache_model(s, force_download=force_download)), pt.set_device())
    if s.endswith(".pth") or s.endswith(".pt2"):
        raise Exception("unsupported")
    if s.endswith(".pt") or "/" in s:
        return pt.load_model(s, pt.set_device())
    raise Exception("unknown")


def list_cached_models(cache_dir, suffix):
    d = Path(cache_dir).expanduser()
    if not d.exists():
        return []
    return list(d.glob("*" + suffix))


def resolve_model_paths(json_source, weights_source, cache_dir, force_download):
    d = Path.cwd() / cache_dir
    return _resolve(json_source, d, force_download), _resolve(weights_source, d, force_download)


def _resolve(s, d, force):
    if s.startswith("http://") or s.startswith("https://"):
        return str(tf.download_and_cache(s, d, force))
    return str(Path(s))
