#!/usr/bin/env python3
"""Proposes tsa/data/refusals.json: for each documented option the unusable
values the documentation rules out and the current tree refuses, and the
documented values it accepts.  Prints what is documented but not refused."""
import json, os, re, sys, threading, multiprocessing
sys.path.insert(0, __file__.rsplit("/", 2)[0])
sys.setrecursionlimit(60000)
threading.stack_size(1 << 29)
from tsa import core
from tsa.rules.p12 import *
from tsa.core import param_doc
p = core.load()
TODO = concrete(p) + public_functions(p)
CH = re.compile(r"""['"]([A-Za-z_0-9 -]+)['"]""")
KER = ["splitcosinebell", "hanning", "tukey", "cosinebell"]
CHOICES = {
    "kernel_type": KER, "apodize_kernel": KER,
    "find_spatial_widths.method": ["contour", "fit", "interpolate", "xinterpolate"],
    "spatial_method": ["contour", "fit", "interpolate", "xinterpolate"],
    "spectral_method": ["walk-down", "fit", "interpolate"],
    "PCA.run.fit_method": ["odr", "bayes"],
    "fit_2Dpspec.fit_method": ["LevMarq"], "fit_2Dplaw.fit_method": ["LevMarq"],
    "azimuthal_slice.value": ["bispectrum", "bicoherence"],
    "radial_slice.value": ["bispectrum", "bicoherence"],
    "how": ["auto", "cube", "slice"],
}
DROP = {"nan_treatment", "n_eigs"}          # handed to a library / also int
NUM = {"n_eigs": [-3, 0], "min_frac": [5.0, -3, 0], "ellip": [5.0, -3, 0]}
DTYPES = ["HDU", "ImageHDU", "SpectralCube", "Projection", "Slice"]
NOT = {("radius", "q:onetemp"), ("scale", "q:negpix")}
SKIP = {"T_k", "breaks", "min_value", "max_value", "thresholds", "smoothing_radii", "min_size", "m", "T", "vel_disp", "chan_width",
        "v_min", "v_max", "vel_field", "dens_field", "make_ppv", "theta_0", "delta_theta", "PCA.plot_fit", "PCA.noise_ACF", "PCA.autocorr_images",
        "PCA.autocorr_spec", "PCA.eigimages", "moment0_error.scale", "beam_fwhm", "spatial_cdelt", "Moments.make_moment_errors", "moment0_error"}
FINE = {"lags": ("q:fine", "q:allfine", "q:fineang"), "lags=": ("q:fine", "q:allfine", "q:fineang"),
        "scales": ("q:fine", "q:allfine", "q:fineang"), "scales=": ("q:fine", "q:allfine", "q:fineang"),
        "radius": ("q:fine", "q:fineang"), "radius=": ("q:fine", "q:fineang"),
        "low_cut": ("q:finefreq",), "high_cut": ("q:finefreq",), "distance": (), "distance=": (),
        "scale": ("q:fine",), "thetas": ("q:fineang",), "bin_width": ("q:fineang",), "delta_thetas": ("q:fineang",),
        "xlow": ("q:fine", "q:fineang"), "xhigh": ("q:fine", "q:fineang"), "brk": ("q:fine", "q:fineang"),
        "roll_lags": ("q:allfine", "q:fineang"), "roll_lags=": ("q:allfine", "q:fineang"), "xvals": ("q:fine",)}
def kind(name, f, o):
    d = (param_doc(f, o) or "").split("\n")[0]
    for k in (name + "." + o, ".".join(name.split(".")[1:] + [o]), o):
        if k in CHOICES: return "choice", CHOICES[k], d
    cs = CH.findall(d)
    if cs and o not in DROP and "ndarray" not in d: return "choice", cs, d
    if "dtypes" in d: return "data", [], d
    if "Quantity" in d or o in ("distance",) or o in ("lags", "scales") or name.endswith(("lags=", "scales=", "radius=", "distance=", "scale=")):
        return "qty", [], d
    if "Beam" in d or o == "beam": return "obj", [], d
    if o in NUM: return "num", NUM[o], d
    return None, [], d
def work(i):
    out, msg = {}, []
    def go():
        def each(name, f, enter):
            for o in opts(f):
                k, cs, d = kind(name, f, o)
                if k is None: continue
                ctx = dict(CONTEXT.get((name, o), {}))
                def dead(v):
                    try: return enter(dict(ctx, **{o: value(v)})) is None
                    except AnalysisError: return False
                if enter(dict(ctx)) is None:
                    msg.append("%s dead anyway" % name); continue
                ref, acc = [], []
                if k == "choice":
                    bad = ["<no such choice>", 5.0]
                    for c in cs:
                        bad += [v for v in (c[:-1], c + "s", c.upper()) if v not in cs]
                    good = list(cs)
                elif k == "qty":
                    bad, good = ["text", 5.0, "q:tiny", "q:onetiny", "q:huge", "q:overhalf", "q:oneoverhalf", "q:negpix", "q:temp", "q:onetemp", "q:len"] if o not in ("xlow","xhigh","brk") else ["text", 5.0, "q:temp", "q:len"], ["q:fine", "q:allfine", "q:fineang", "q:finefreq"]
                elif k == "data":
                    bad, good = ["text", 5.0, "t:ndarray"], ["t:" + x for x in DTYPES]
                elif k == "obj":
                    bad, good = ["text", 5.0], []
                else:
                    bad, good = cs, []
                for v in bad:
                    if dead(v): ref.append(v)
                    elif not (isinstance(v, str) and v[1:2] == ":"): msg.append("NOT REFUSED %s(%s=%r)  | %s" % (name, o, v, d))
                for v in good:
                    if not dead(v): acc.append(v)
                    elif v[:2] != "q:": msg.append("NOT ACCEPTED %s(%s=%r)  | %s" % (name, o, v, d))
                ref = [v for v in ref if (name.split(".")[-1], v) not in NOT and (o, v) not in NOT]
                if k == "qty" and not ref: acc = []
                if k == "qty": acc = [v for v in acc if v in FINE.get(o, FINE.get(name.split(".")[-1], ("q:fine",)))]
                if k == "qty" and (o.endswith("_cut") or name.startswith("create_")): ref = [v for v in ref if v in ("text", 5.0, "q:temp", "q:len", "q:huge")]
                if o in SKIP or name in SKIP: continue
                if ref or acc: out.setdefault(name, {})[o] = {"refuse": ref, "accept": acc}
        Prober(p).run(TODO[i], each)
    t = threading.Thread(target=go); t.start(); t.join()
    return out, msg
if __name__ == "__main__":
    tab = {}
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for o, m in pool.imap_unordered(work, range(len(TODO)), 1):
            tab.update(o)
            for x in m: print(x)
    json.dump(tab, open("/tmp/refusals_raw.json", "w"), indent=0, sort_keys=True)
    print(len(tab), sum(len(r["refuse"]) for t in tab.values() for r in t.values()), sum(len(r["accept"]) for t in tab.values() for r in t.values()))
