S = "turbustat/statistics/"
COMMON = '''
import os, sys, tempfile, warnings
warnings.simplefilter("ignore")
import matplotlib
matplotlib.use("Agg")
import numpy as np
import astropy.units as u
from turbustat.simulator import make_extended
from turbustat.io.sim_tools import create_image_header


def image(n=64, seed=1, slope=3.):
    return make_extended(n, powerlaw=slope, randomseed=seed) + 1.


def header(n=64, scale=3.):
    return create_image_header(scale * u.arcsec, 3 * scale * u.arcsec,
                               (n, n), 1.4 * u.GHz, u.K)


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)

'''
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs,
                      breaks=breaks, demo=COMMON + demo))


seed("p01-mvc-nan", "P01",
     [(S + "mvc/mvc.py",
       "            self._moment0 = self._moment0.copy()\n"
       "            self._moment0[isnan] = 0.\n",
       "            self._moment0[isnan] = 0.\n")],
     "moment maps with NaNs at the same pixels",
     "MVC writes zeros into the caller's moment0 array",
     '''
from turbustat.statistics import MVC
c, m, l = image(seed=1), image(seed=2), image(seed=3)
for a in (c, m, l):
    a[3:6, 4:9] = np.nan
keep = m.copy()
MVC(c, m, l, header=header())
if not np.array_equal(keep, m, equal_nan=True):
    fail("moment0 was changed")
''')

seed("p02-wavelet-kwargs", "P02",
     [(S + "wavelets/wavelet_transform.py",
       "        for i, an in enumerate(pix_scales):\n"
       "            psi = RickerWavelet2DKernel(an)\n",
       "        # These are always set below\n"
       "        for key in ['nan_treatment', 'preserve_nan', 'normalize_kernel']:\n"
       "            if key in convolve_kwargs:\n"
       "                del convolve_kwargs[key]\n\n"
       "        for i, an in enumerate(pix_scales):\n"
       "            psi = RickerWavelet2DKernel(an)\n")],
     "convolve_kwargs holding one of the keys that Wavelet sets itself",
     "the caller's convolve_kwargs dictionary loses keys",
     '''
from turbustat.statistics import Wavelet
kw = {"allow_huge": True, "preserve_nan": True}
w = Wavelet(image(), header=header(), num=5)
try:
    w.compute_transform(show_progress=False, convolve_kwargs=kw)
except TypeError:
    pass
if kw != {"allow_huge": True, "preserve_nan": True}:
    fail("convolve_kwargs changed: %r" % kw)
''')

seed("p03-extended-seed", "P03",
     [("turbustat/simulator/gen_field.py",
       "        angles = np.random.uniform(0, 2 * np.pi,\n"
       "                                   size=(imsize, Np1 + 1))\n\n"
       "    phases = np.cos(angles) + 1j * np.sin(angles)\n\n"
       "    # Rescale phases to an amplitude of unity\n",
       "        angles = np.random.uniform(0, 2 * np.pi,\n"
       "                                   size=(imsize, Np1 + 1))\n\n"
       "    if imsize % 2 != 0 and ellip < 1:\n"
       "        # No Nyquist column in odd-sized images\n"
       "        angles[:, -1] = np.random.uniform(0, 2 * np.pi, size=imsize)\n\n"
       "    phases = np.cos(angles) + 1j * np.sin(angles)\n\n"
       "    # Rescale phases to an amplitude of unity\n")],
     "an odd image size with an elliptical power spectrum",
     "make_extended with a fixed seed is not reproducible",
     '''
a = make_extended(33, ellip=0.5, theta=0.3, randomseed=7)
np.random.rand(5)
b = make_extended(33, ellip=0.5, theta=0.3, randomseed=7)
if not np.array_equal(a, b):
    fail("equal seeds, different images")
''')

seed("p04-pdf-bins", "P04",
     [(S + "pdf/compare_pdf.py",
       "                ax2.semilogx(self.bins, self.ecdf, '-', color=color)\n",
       "                bins = self.bins\n"
       "                # No negative values on a logarithmic axis\n"
       "                bins[bins <= 0.] = np.nan\n"
       "                ax2.semilogx(bins, self.ecdf, '-', color=color)\n")],
     "data with values below zero, PDF run with verbose=True and no normalization",
     "plotting the PDF changes the bins of the object",
     '''
from turbustat.statistics import PDF
im = image() - 5.
a = PDF(im).run(do_fit=False)
b = PDF(im).run(do_fit=False, verbose=True, save_name=os.path.join(tempfile.mkdtemp(), "a.png"))
if not np.array_equal(a.bins, b.bins, equal_nan=True):
    fail("bins depend on verbose")
''')

seed("p05-genus-save", "P05",
     [(S + "genus/genus.py",
       "                plt.setp(ax.get_xticklabels(), visible=False)\n\n"
       "        plt.tight_layout()\n\n"
       "        if save_name is not None:\n"
       "            plt.savefig(save_name)\n"
       "            plt.close()\n"
       "        else:\n"
       "            plt.show()\n\n"
       "    def run(self",
       "                plt.setp(ax.get_xticklabels(), visible=False)\n\n"
       "            plt.tight_layout()\n\n"
       "            if save_name is not None:\n"
       "                plt.savefig(save_name)\n"
       "                plt.close()\n\n"
       "        if save_name is None:\n"
       "            plt.show()\n\n"
       "    def run(self")],
     "more than one smoothing radius, figure saved",
     "the figure is written once per panel, the last write holding one panel only",
     '''
from turbustat.statistics import Genus
import matplotlib.pyplot as plt
saved = []
real = plt.savefig
def savefig(name, *a, **k):
    saved.append(len([x for x in plt.gcf().axes]))
    return real(name, *a, **k)
plt.savefig = savefig
g = Genus((image(), header()), smoothing_radii=np.array([1., 2., 3.]), numpts=5)
g.run(verbose=True, save_name=os.path.join(tempfile.mkdtemp(), "g.png"))
if saved != [3]:
    fail("panels in the saved figures: %s" % saved)
''')

seed("p06-delvar-preserve", "P06",
     [(S + "delta_variance/delta_variance.py",
       "                              nan_treatment=nan_treatment,\n"
       "                              preserve_nan=preserve_nan,\n"
       "                              use_pyfftw=use_pyfftw,\n",
       "                              nan_treatment=nan_treatment,\n"
       "                              preserve_nan=False,\n"
       "                              use_pyfftw=use_pyfftw,\n")],
     "run(preserve_nan=True) on an image with NaNs",
     "DeltaVariance.run drops preserve_nan",
     '''
from turbustat.statistics import DeltaVariance
im = image()
im[10:25, 10:25] = np.nan
a = DeltaVariance(im, header=header(), nlags=6)
a.compute_deltavar(preserve_nan=True, show_progress=False)
b = DeltaVariance(im, header=header(), nlags=6).run(preserve_nan=True, show_progress=False)
if not np.allclose(a.delta_var, b.delta_var, equal_nan=True):
    fail("run() ignores preserve_nan")
''')

seed("p07-delvar-rerun", "P07",
     [(S + "delta_variance/delta_variance.py",
       "                if not np.array_equal(self.delvar2.lags.value, lags2.value):\n"
       "                    self.delvar2._lags = lags2\n"
       "                    self.delvar2.run(**delvar2_kwargs)\n",
       "                if not np.array_equal(self.delvar2.lags.value, lags2.value):\n"
       "                    self.delvar2._lags = lags2\n"
       "                    self.delvar2.run(**delvar_kwargs)\n")],
     "a precomputed DeltaVariance for data set 2 at other lags, with its own delvar2_kwargs",
     "the options of data set 1 are used to recompute data set 2",
     '''
from turbustat.statistics import DeltaVariance, DeltaVariance_Distance
a, b = image(seed=1), image(seed=2)
a[5:9, 4:30] = np.nan
b[15:19, 14:30] = np.nan
def pre(x):
    lags = np.logspace(np.log10(4.), np.log10(20.), 25) * u.pix
    return DeltaVariance(x, header=header(), lags=lags).run(show_progress=False)
k1 = dict(show_progress=False, boundary="wrap")
k2 = dict(show_progress=False, boundary="fill")
d1 = DeltaVariance_Distance(pre(a), pre(b), delvar_kwargs=k1, delvar2_kwargs=k2).distance_metric()
d2 = DeltaVariance_Distance(pre(b), pre(a), delvar_kwargs=k2, delvar2_kwargs=k1).distance_metric()
if not np.allclose([d1.curve_distance, d1.slope_distance], [d2.curve_distance, d2.slope_distance]):
    fail("not symmetric")
''')

seed("p08-vcs-sign", "P08",
     [(S + "vca_vcs/vcs.py",
       "            self.small_scale_distance = \\\n"
       "                np.abs((self.vcs1.slope[1] - self.vcs2.slope[1]) /\n"
       "                       np.sqrt(self.vcs1.slope_err[1]**2 +\n"
       "                               self.vcs2.slope_err[1]**2))\n",
       "            self.small_scale_distance = \\\n"
       "                np.abs(self.vcs1.slope[1]) - np.abs(self.vcs2.slope[1])\n"
       "            self.small_scale_distance /= \\\n"
       "                np.sqrt(self.vcs1.slope_err[1]**2 +\n"
       "                        self.vcs2.slope_err[1]**2)\n")],
     "two VCS fits that both have a break",
     "the small scale distance is negative for one order of the data sets",
     '''
from turbustat.statistics import VCS_Distance
class Fake(object):
    pass
def vcs(s, e):
    v = Fake()
    v.slope = np.array(s); v.slope_err = np.array(e)
    v.brk = 0.1 / u.pix; v.brk_err = 0.02 / u.pix
    return v
d = VCS_Distance.__new__(VCS_Distance)
vals = []
for a, b in [(-8., -12.), (-12., -8.)]:
    d.vcs1, d.vcs2 = vcs([-3., a], [.1, .2]), vcs([-3.5, b], [.1, .2])
    d.distance_metric()
    vals.append(d.small_scale_distance)
if min(vals) < 0:
    fail("negative distance %s" % vals)
''')

seed("p11-genus-beam", "P11",
     [(S + "genus/genus.py",
       "        if use_beam:\n"
       "            major, minor = find_beam_properties(self.header)[:2]\n"
       "            major = self._to_pixel(major)\n"
       "            minor = self._to_pixel(minor)\n",
       "        if use_beam and enable_small_removal:\n"
       "            major, minor = find_beam_properties(self.header)[:2]\n"
       "            major = self._to_pixel(major)\n"
       "            minor = self._to_pixel(minor)\n"),
      (S + "genus/genus.py",
       "            min_size = int(np.floor(pix_area.value))\n"
       "        else:\n"
       "            if isinstance(min_size, u.Quantity):\n",
       "            min_size = int(np.floor(pix_area.value))\n"
       "        elif enable_small_removal:\n"
       "            if isinstance(min_size, u.Quantity):\n"),
      (S + "genus/genus.py",
       "        conn_kernel = nd.generate_binary_structure(2, connectivity)\n",
       "        if enable_small_removal:\n"
       "            conn_kernel = nd.generate_binary_structure(2, connectivity)\n"),
      ],
     "make_genus_curve(enable_small_removal=False)",
     "conn_kernel is read although it was not assigned",
     '''
from turbustat.statistics import Genus
g = Genus((image(), header()), numpts=5)
try:
    g.make_genus_curve(enable_small_removal=False)
except NameError as e:
    fail(str(e))
''')

seed("p09-save-name", "P09",
     [(S + "base_statistic.py",
       "        if not output_name.endswith(\".pkl\"):\n"
       "            output_name += \".pkl\"\n",
       "        if not output_name.endswith(\".pkl\"):\n"
       "            output_name = output_name.rsplit('.', 1)[0] + \".pkl\"\n")],
     "an output name without .pkl that holds a dot, e.g. cube_v1.2",
     "the results are saved under another name; cube_v1.2 overwrites cube_v1.3",
     '''
from turbustat.statistics import Wavelet
w = Wavelet(image(), header=header(), num=5)
w.run(show_progress=False)
x = Wavelet(image(seed=3), header=header(), num=7)
x.run(show_progress=False)
d = tempfile.mkdtemp()
w.save_results(os.path.join(d, "cube_v1.2"))
x.save_results(os.path.join(d, "cube_v1.3"))
if sorted(os.listdir(d)) != ["cube_v1.2.pkl", "cube_v1.3.pkl"]:
    fail(str(os.listdir(d)))
''')

seed("p10-bispec-mean", "P10",
     [(S + "pspec_bispec/bispec.py",
       "        if mean_subtract:\n"
       "            norm_data = self.data - self.data.mean()\n"
       "        else:\n"
       "            norm_data = self.data\n",
       "        if mean_subtract:\n"
       "            self.data = self.data - self.data.mean()\n\n"
       "        norm_data = self.data\n")],
     "the same Bispectrum run with mean_subtract=True and then without",
     "the second run analyses the mean-subtracted data of the first",
     '''
from turbustat.statistics import Bispectrum
a = Bispectrum(image(32)).run(show_progress=False, nsamples=20)
b = Bispectrum(image(32)).run(show_progress=False, nsamples=20, mean_subtract=True)
b.run(show_progress=False, nsamples=20)
if not np.allclose(a.bispectrum, b.bispectrum):
    fail("the earlier run matters")
''')
