"""Reference for reading cmlh5 files: one data set per link, channels stacked."""
import os
import h5py
import numpy as np
import xarray as xr
from pycomlink.io.examples import get_example_data_path
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray


def _distance(lon1, lat1, lon2, lat2):
    f = np.pi / 180
    s = np.sin((lat2 - lat1) * f / 2) ** 2 + np.cos(lat1 * f) * np.cos(lat2 * f) * np.sin((lon2 - lon1) * f / 2) ** 2
    return 2 * 6367 * np.arctan2(s ** 0.5, (1 - s) ** 0.5)


def read(filename):
    file = h5py.File(filename, "r")
    links = []
    for link in file:
        group = file[link]
        at = group.attrs
        channels = []
        for channel in group:
            c = group[channel]
            if "tx_min" in c:
                data = {"tsl_min": ("time", c["tx_min"][:]), "tsl_max": ("time", c["tx_max"][:]),
                        "rsl_min": ("time", c["rx_min"][:]), "rsl_max": ("time", c["rx_max"][:])}
            else:
                data = {"tsl": ("time", c["tx"][:]), "rsl": ("time", c["rx"][:])}
            coords = {
                "time": (c["time"][:] * 10 ** 9).astype("datetime64[ns]"),
                "channel_id": channel,
                "cml_id": at["cml_id"],
                "site_a_latitude": at["site_a_latitude"],
                "site_a_longitude": at["site_a_longitude"],
                "site_b_latitude": at["site_b_latitude"],
                "site_b_longitude": at["site_b_longitude"],
                "frequency": c.attrs["frequency"] / 10 ** 9,
                "polarization": c.attrs["polarization"],
                "length": _distance(at["site_a_longitude"], at["site_a_latitude"], at["site_b_longitude"],
                                    at["site_b_latitude"]),
            }
            channels.append(xr.Dataset(data_vars=data, coords=coords))
        links.append(xr.concat(channels, dim="channel_id"))
    return links


def one_cml():
    return read_cmlh5_file_to_xarray(os.path.join(get_example_data_path(), "one_cml.h5"))[0]


def cmls_75():
    return read_cmlh5_file_to_xarray(os.path.join(get_example_data_path(), "75_cmls.h5"))


def cmls_75_min_max():
    return read_cmlh5_file_to_xarray(os.path.join(get_example_data_path(), "75_cmls_min_max.h5"))
