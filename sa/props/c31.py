"""Rolling Fourier transform wet/dry classification."""
import terms as TT
from terms import mk
TECHNIQUE = ("value-graph congruence with a reference of the published method (spectrogram, mean, rolling standard deviation "
             "as uninterpreted functions with their signatures); the mirrored end of the series for enumerated small sizes")
MINIMUM = 4
S = "pycomlink.processing.wet_dry.stft.stft_classification"
L = "pycomlink.processing.wet_dry.stft.find_lowest_std_dev_period"


def check(ck):
    ck.load_spec("sf")
    nd = dict(rsl=1, f=1, Pxx=2)
    dom = dict(window_length=lambda r: r.choice([2, 3, 4, 5, 6, 7, 8, 9]))
    sc = ["f_divide", "threshold", "window_length", "f_sampling"]
    TT.finite(*[mk("par", n) for n in ("f", "f_divide", "f_sampling")])
    try:
        spectra(ck, nd, dom, sc)
    finally:
        TT.finite()


def spectra(ck, nd, dom, sc):
    for name, c, nn in (("window", dict(Pxx=None, f=None, window=None), []),
                        ("own window", dict(Pxx=None, f=None), ["window"]),
                        ("supplied spectrogram", {}, ["Pxx", "f"]),
                        ("no frequencies", dict(f=None), ["Pxx"])):
        c = dict(c, mirror=False)
        ck.match(S, "spec.sf.stft", "classification", consts=c, notnone=nn, ndims=nd, scalars=sc, domains=dom, construct="%s[%s]" % (S, name))
    ck.match(L, "spec.sf.lowest_std", "dry period", ndims=nd)
    ck.defaults(L, dict(window_length=600))
    ck.defaults(S, dict(t_dry_start=None, t_dry_stop=None, dry_length=None, mirror=False, window=None, Pxx=None, f=None,
                        f_sampling=1 / 60))
    dry = ((dict(dry_length=None), ["t_dry_start", "t_dry_stop"]), (dict(t_dry_start=None, t_dry_stop=None), ["dry_length"]))
    own = ((dict(window=None), []), ({}, ["window"]))
    for (c1, n1), what in zip(dry, ("given dry period", "dry_length")):
        ck.match_small(S, "spec.sf.mirrored", "mirrored end", [
            dict(consts=dict(Pxx=None, f=None, mirror=True, window_length=w, **c1, **c2), lens=dict(rsl=n), notnone=n1 + n2)
            for w, n in ((4, 7), (5, 8), (6, 9), (7, 11)) for c2, n2 in own],
            consts=dict(Pxx=None, f=None, mirror=True, **c1), construct="%s[mirror, %s]" % (S, what), ndims=nd, scalars=sc, domains=dom,
            notnone=n1)
