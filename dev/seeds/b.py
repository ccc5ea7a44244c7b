import os, runpy
_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
S, COMMON = _a["S"], _a["COMMON"]
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs,
                      breaks=breaks, demo=COMMON + demo))


seed("p12-tsallis-half", "P12",
     [(S + "tsallis/tsallis.py",
       "        half_comp = (np.floor(pix_rad.value) - min(self.data.shape) / 2.)\n",
       "        half_comp = (np.floor(pix_rad.value) - max(self.data.shape) / 2.)\n")],
     "an image that is not square and a lag between half of its two sides",
     "a lag above half of the shorter side is accepted",
     '''
from turbustat.statistics import Tsallis
img = image(64)[:, :32]
try:
    Tsallis(img, header=header(64), lags=[2, 24] * u.pix)
except ValueError:
    pass
else:
    fail("a lag of 24 pixels is accepted in an image 32 pixels wide")
''')

seed("p13-cube-unmasked", "P13",
     [("turbustat/io/input_base.py",
       "make_copy(data.filled_data[:], need_copy)",
       "make_copy(data.unmasked_data[:], need_copy)")],
     "a SpectralCube with a mask",
     "the masked voxels of a SpectralCube take part in the analysis",
     '''
from astropy.io import fits
from spectral_cube import SpectralCube
from turbustat.statistics import SCF
from turbustat.io.sim_tools import create_cube_header
rng = np.random.RandomState(3)
d = rng.normal(size=(8, 24, 24)) + 1
h = create_cube_header(3 * u.arcsec, 1 * u.km / u.s, 9 * u.arcsec, d.shape,
                       1.4 * u.GHz, u.K)
c = SpectralCube.read(fits.PrimaryHDU(d, h))
c = c.with_mask(c > 0.5 * u.K)
a = SCF(c, size=5).run()
b = SCF((c.filled_data[:], c.header), size=5).run()
if not np.allclose(a.scf_surface, b.scf_surface, equal_nan=True):
    fail("the masked cube and its values give different surfaces")
''')

seed("p13-weights-array", "P13",
     [(S + "stat_moments/highstatmoments.py",
       "            self.weights = input_data(weights, no_header=True)\n",
       "            self.weights = input_data(weights, no_header=True)\n"
       "            if not isinstance(weights, np.ndarray):\n"
       "                self.weights = self.weights / np.nanmax(self.weights)\n")],
     "weights given as an HDU or tuple that do not peak at one",
     "weights are rescaled unless they are given as a bare array",
     '''
from astropy.io import fits
from turbustat.statistics import StatMoments
img, w = image(seed=1), 5 * np.abs(image(seed=2)) + 1
a = StatMoments(img, header(), weights=w)
b = StatMoments(img, header(), weights=fits.PrimaryHDU(w, header()))
if not np.allclose(a.weights, b.weights):
    fail("weights depend on the form they are given in")
''')

seed("p17-scf-boundary", "P17",
     [(S + "scf/scf.py",
       """            self.scf2.compute_surface(boundary=boundary[1],
""",
       """            self.scf2.compute_surface(boundary=boundary[1 if _has_data2
                                                        else 0],
""")],
     "an SCF given as cube2 that has not been run, and different boundaries",
     "the given analysis is computed with the boundary of the first cube",
     '''
from turbustat.statistics import SCF, SCF_Distance
from turbustat.tests._testing_data import dataset1, dataset2
kw = dict(size=5, boundary=['continuous', 'cut'], show_progress=False)
a = SCF_Distance(dataset1["cube"], dataset2["cube"], **kw).distance_metric()
b = SCF_Distance(dataset1["cube"], SCF(dataset2["cube"], size=5),
                 **kw).distance_metric()
if not np.isclose(a.distance, b.distance, rtol=1e-8):
    fail("%s from the data, %s from the analysis" % (a.distance, b.distance))
''')

seed("p17-delvar-lags", "P17",
     [(S + "delta_variance/delta_variance.py",
       """                if min(shape1) > min(shape2):
""",
       """                if min(shape1) > min(shape2) and _given_data2:
""")],
     "default common lags, a smaller second image given as an analysis",
     "the common lags come from the larger image when the smaller one is given "
     "as an analysis",
     '''
from turbustat.statistics import DeltaVariance, DeltaVariance_Distance
one, two = (image(64), header(64)), (image(64)[:48, :48], header(64))
a = DeltaVariance_Distance(one, two).distance_metric()
try:
    b = DeltaVariance_Distance(one, a.delvar2).distance_metric()
    d = b.slope_distance
except Exception as e:
    fail("%s: %s" % (type(e).__name__, e))
if not np.isclose(a.slope_distance, d, rtol=1e-8):
    fail("%s from the data, %s from the analysis" % (a.slope_distance, d))
''')

seed("p16-physical-kpc", "P16",
     [(S + "base_statistic.py",
       """                self.distance).to(self.distance.unit,
""",
       """                self.distance).to(u.pc,
""")],
     "lags given as a length, with a distance that is not given in parsecs",
     "lengths are converted with a pixel size in parsecs whatever the unit of "
     "the distance",
     '''
from astropy import units as u
from turbustat.statistics import DeltaVariance
h = header(64)
img = (image(64), h)
a = DeltaVariance(img, lags=np.array([4., 6., 8.]) * u.pix, distance=1 * u.kpc)
side = np.deg2rad(abs(h["CDELT1"])) * 1000 * u.pc
try:
    b = DeltaVariance(img, lags=np.array([4., 6., 8.]) * side,
                      distance=1 * u.kpc)
except Exception as e:
    fail("%s: %s" % (type(e).__name__, e))
if not np.allclose(a.lags.value, b.lags.to(u.pix).value):
    fail("lags in pixels %s and in parsecs %s" % (a.lags, b.lags))
''')

seed("p16-wavelet-break", "P16",
     [(S + "wavelets/wavelet_transform.py",
       """            pix_brk = self._to_pixel(brk)
""",
       """            pix_brk = brk.to(u.pix, equivalencies=[(
                u.pix, u.deg, lambda x: x * self._ang_size.value,
                lambda x: x / self._ang_size.value),
                (u.pix, u.pc, lambda x: x * self._physical_size.value,
                 lambda x: x / self._physical_size.value)]
                if hasattr(self, "_distance") else self._angular_equiv)
""")],
     "a break given as a length, with a distance that is not given in parsecs",
     "the break is converted as if the distance were given in parsecs",
     '''
from astropy import units as u
from turbustat.statistics import Wavelet
h = header(64)
side = np.deg2rad(abs(h["CDELT1"])) * 1000 * u.pc
out = []
for brk in (8 * u.pix, 8 * side):
    w = Wavelet((image(64), h), distance=1 * u.kpc)
    w.compute_transform(show_progress=False)
    try:
        w.fit_transform(brk=brk)
    except Exception as e:
        fail("%s: %s" % (type(e).__name__, e))
    out.append(np.atleast_1d(w.slope)[0])
if not np.isclose(out[0], out[1], rtol=1e-3):
    fail("slope %s with the break in pixels, %s in parsecs" % tuple(out))
''')
