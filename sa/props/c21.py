"""Imported link data are those of the file."""
TECHNIQUE = ("value-graph congruence of the importer with a reference that names every variable, coordinate, unit conversion "
             "and the nesting of links and channels (any number of links and channels)")
MINIMUM = 5
F = "pycomlink.io.cmlh5_to_xarray.read_cmlh5_file_to_xarray"
X = "pycomlink.io.examples."


def check(ck):
    ck.load_spec("io")
    ck.match(F, "spec.io.read", "imported data")
    for n, s in (("get_one_cml", "one_cml"), ("get_75_cmls", "cmls_75"), ("get_75_cmls_min_max", "cmls_75_min_max")):
        ck.match(X + n, "spec.io." + s, "example data", params=[])
    ck.match("pycomlink.spatial.helper.haversine", "spec.io._distance", "great circle distance")
