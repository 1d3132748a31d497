"""References for the machine learning classifiers."""
import numpy as np
import pickle
import torch
import xarray as xr
from pathlib import Path
import pycomlink.processing.pytorch_utils.inference_utils as pt
import pycomlink.processing.pytorch_utils.run_inference as run
from sklearn.preprocessing import StandardScaler
import pycomlink.processing.tensorflow_utils.inference_utils as iu
from pycomlink.processing.tensorflow_utils.lazy_tf import get_tf
from importlib.resources import files
from numpy.lib.stride_tricks import sliding_window_view


# ------------------------------------------------------------------ MLP

def mlp(trsl_channel_1, trsl_channel_2, model_sel):
    if model_sel not in ("rg", "rad", "rg_online", "rad_online"):
        raise ValueError()
    model = pickle.load(open(files("pycomlink").joinpath("processing/wet_dry/mlp_model_files") / ("model_" + model_sel + ".pkl"), "rb"))
    if model_sel in ("rg", "rad"):
        a = trsl_channel_1 - trsl_channel_1.rolling(time=720, min_periods=120, center=True).median().data
        b = trsl_channel_2 - trsl_channel_2.rolling(time=720, min_periods=120, center=True).median().data
        x = np.vstack([np.full((20, 80), np.nan),
                       np.hstack([sliding_window_view(a, window_shape=40), sliding_window_view(b, window_shape=40)]),
                       np.full((19, 80), np.nan)])
    else:
        a = trsl_channel_1.diff(dim="time", n=1).data
        b = trsl_channel_2.diff(dim="time", n=1).data
        x = np.vstack([np.full((40, 80), np.nan),
                       np.hstack([sliding_window_view(a, window_shape=40), sliding_window_view(b, window_shape=40)])])
    out = np.full([x.shape[0], 2], np.nan)
    ok = ~np.isnan(x).any(axis=1)
    if ok.any():
        out[ok] = model.predict_proba(x[ok])
    return out


# ------------------------------------------------------------------ PyTorch CNN
def rolling_window(timeseries, valid_times, window_size, reflength):
    assert window_size > 0 and len(valid_times) == len(timeseries)
    xs, ts = [], []
    for i in range(len(timeseries)):
        end = i + window_size
        if end <= len(timeseries):
            t = end - int(reflength / 2)
            xs.append(timeseries[i:end])
            ts.append(valid_times[t] if t >= 0 else valid_times[end - 1])
    return xs, ts


def batchify_windows(data, window_size, reflength):
    n, t, x = [], [], []
    for cml in data.cml_id.values:
        d = data.sel(cml_id=cml)
        xs, ts = rolling_window(d.values, d.time.values, window_size, reflength)
        n.append(np.repeat(cml, len(xs)))
        t.append(ts)
        x.append(np.array(xs))
    return {"cml_id": np.concatenate(n), "time": np.concatenate(t), "data": np.concatenate(x)}


def set_device():
    return torch.device("cuda" if torch.cuda.is_available() else "cpu")


def run_inference(model, data, batch_size, reflength):
    s = run.batchify_windows(data, model.window_size if hasattr(model, "window_size") else 180, reflength)
    x = torch.tensor(s["data"], dtype=torch.float32).permute(0, 2, 1)
    out = []
    for b in torch.utils.data.DataLoader(x, batch_size=batch_size):
        out.append(model(b.to(set_device())).cpu().numpy())
    return {"predictions": np.concatenate(out, axis=0), "cml_ids": s["cml_id"], "times": s["time"]}


def redistribute_results(results, data):
    p = np.full((len(data.time), len(data.cml_id)), np.nan)
    ids = results["cml_ids"]
    for n, t, v in zip(ids, results["times"], np.reshape(results["predictions"], len(ids))):
        try:
            j = np.where(data.cml_id == n)[0][0]
            i = np.where(data.time == t)[0][0]
            p[i, j] = v
        except (IndexError, ValueError):
            continue
    return data.assign(predictions=xr.DataArray(p, dims=["time", "cml_id"],
                                                coords={"time": data.time, "cml_id": data.cml_id}, name="predictions"))


def cnn_wd(model_path_or_url, data, batch_size, force_download, reflength):
    m = pt.get_model(model_path_or_url, force_download)
    return run.redistribute_results(run.run_inference(m, data, batch_size, reflength), data.to_dataset(name="TL"))


def load_model(model_path, device):
    try:
        m = torch.jit.load(str(Path(model_path)), map_location=device)
        m.eval()
        m.window_size = 180
        return m
    except Exception as e:
        raise RuntimeError()


# ------------------------------------------------------------------ TensorFlow CNN
def create_samples(ds, cml_ids, input_vars, seq_len, cml_dim):
    X, ids, time_idx = [], [], []
    for cml in cml_ids:
        try:
            inputs = np.stack([ds.sel({cml_dim: cml})[var].values.astype(np.float32) for var in input_vars], axis=-1)
        except KeyError:
            continue
        if len(inputs) >= seq_len:
            for t in range(seq_len - 1, len(inputs)):
                x = inputs[t - seq_len + 1: t + 1]
                if np.all(np.isfinite(x)):
                    X.append(x)
                    ids.append(cml)
                    time_idx.append(t)
    return np.array(X, dtype=np.float32), np.array(ids), np.array(time_idx)


def scale_features(input_seq, input_vars):
    out = np.empty_like(input_seq, dtype=np.float32)
    for i in range(len(input_vars)):
        out[:, :, i] = StandardScaler().fit_transform(input_seq[:, :, i].reshape(-1, 1)).reshape(
            input_seq.shape[0], input_seq.shape[1])
    return out


def load_model_from_local(json_path, weights_path, lr, loss, optimizer):
    with open(json_path, "r") as f:
        m = get_tf().keras.models.model_from_json(f.read())
    m.load_weights(weights_path)
    return m


def tf_run_inference(model, model_input, batch_size):
    return np.ravel(model.predict(model_input.astype(np.float32), batch_size=batch_size, verbose=1)).astype(np.float32)


def store_predictions(ds, model_prob, cml_ids, time_indices, model_name, var_name, time_dim, cml_dim, cml_ids_to_use):
    p = np.asarray(model_prob, dtype=np.float32).ravel()
    ids = np.asarray(cml_ids).ravel()
    t = np.asarray(time_indices).ravel()
    if p.shape[0] != ids.shape[0] or p.shape[0] != t.shape[0]:
        raise ValueError()
    links = ds[cml_dim].values
    times = ds[time_dim].values
    out = np.full((len(times), len(links)), np.nan, dtype=np.float32)
    for one in (np.unique(ids) if cml_ids_to_use is None else cml_ids_to_use):
        mask = ids == one
        where = np.where(links == one)[0]
        if np.any(mask) and where.size > 0:
            ok = t[mask] < len(times)
            out[t[mask][ok], where[0]] = p[mask][ok]
    return xr.DataArray(data=out, dims=(time_dim, cml_dim), coords={time_dim: times, cml_dim: links},
                        name="cnn_prob_" + str(model_name) if var_name is None else var_name)


def wet_dry_1d_cnn(ds, id_coord, input_vars, seq_len, prob_name, batch_size, lr, json_url, weights_url, cache_dir,
                   force_download, return_ds, cml_ids, install_tensorflow):
    get_tf(auto_install=install_tensorflow)
    input_vars = ["tl1", "tl2"] if input_vars is None else input_vars
    seq_len = 180 if seq_len is None else seq_len
    prob_name = "CNN" if prob_name is None else prob_name
    batch_size = 128 if batch_size is None else batch_size
    lr = 0.05 if lr is None else lr
    cache_dir = "model_cnn" if cache_dir is None else cache_dir
    release = "https://github.com/toufikshit/pycomlink/releases/download/v1/"
    json_url = release + "CNN__model_v0_cz.json" if json_url is None else json_url
    weights_url = release + "CNN__model_v0_cz.weights.h5" if weights_url is None else weights_url
    if id_coord not in ds.coords and id_coord not in ds.variables and id_coord not in ds.dims:
        raise KeyError()
    cml_ids = ds[id_coord].values if cml_ids is None else cml_ids
    j, w = iu.resolve_model_paths(json_url, weights_url, cache_dir, force_download)
    m = iu.load_model_from_local(j, w, lr=lr)
    X, ids, t = iu.create_samples(ds, cml_ids, input_vars, seq_len, cml_dim=id_coord)
    y = iu.run_inference(m, iu.scale_features(X, input_vars), batch_size)
    p = iu.store_predictions(ds, y, ids, t, var_name=prob_name, cml_dim=id_coord)
    return xr.merge([ds, p.to_dataset()]) if return_ds else p
