S = "statistics/"
B = S + "base_statistic.py"
M5 = [
 ("r16-angequiv-swap", [(B, "        return [(u.pix, u.deg, lambda x: x * float(self._ang_size.value),\n                lambda x: x / float(self._ang_size.value))]", "        return [(u.pix, u.deg, lambda x: x / float(self._ang_size.value),\n                lambda x: x * float(self._ang_size.value))]")], {"P16": 1}),
 ("r16-angequiv-arcsec", [(B, "        return [(u.pix, u.deg, lambda x", "        return [(u.pix, u.arcsec, lambda x")], {"P16": 1}),
 ("r16-physequiv-unit", [(B, "        return [(u.pix, self.distance.unit,\n", "        return [(u.pix, u.pc,\n")], {"P16": 1}),
 ("r16-physsize-unit", [(B, "                self.distance).to(self.distance.unit,", "                self.distance).to(u.pc,")], {"P16": 1}),
 ("r16-topix-physical", [(B, "            return value.to(u.pix, equivalencies=self._physical_equiv)", "            return value.to(u.pix, equivalencies=self._angular_equiv)")], {"P16": 1}),
 ("r16-freq-inv", [(B, "        return 1 / self._to_pixel(1 / value)", "        value = self._to_pixel(1 / value)\n        return value.value / u.pix")], {"P16": 1}),
 ("r16-freq-double", [(B, "        return 1 / self._to_pixel(1 / value)", "        if value.unit.is_equivalent(1 / u.pix):\n            return value\n        return value.value / self._to_pixel(1 / value.unit * u.dimensionless_unscaled)")], {"P16": 1}),
 ("r16-freqconv", [(B, "        return 1 / self._spatial_unit_conversion(1 / pixel_value, 1 / unit)", "        return 1 / self._spatial_unit_conversion(pixel_value, 1 / unit)")], {"P16": 1}),
 ("r16-area", [(B, "        return self._to_pixel(np.sqrt(value))**2", "        return self._to_pixel(value / np.sqrt(value))**2 * 2")], {"P16": 1}),
 ("r16-spectral", [(B, "        return np.abs(mat) * u.Unit(self._wcs.wcs.cunit[spec])", "        return 2 * np.abs(mat) * u.Unit(self._wcs.wcs.cunit[spec])")], {"P16": 1}),
 ("r16-specequiv", [(B, "                lambda x: x / float(self._spectral_size.value))]", "                lambda x: x * float(self._spectral_size.value))]")], {"P16": 1}),
 ("r16-dv-xhigh", [(S+"delta_variance/delta_variance.py", "            xhigh = self._to_pixel(xhigh)\n", "            xhigh = xhigh.to(xhigh.unit)\n")], {"P16": 1}),
 ("r16-dv-brk", [(S+"delta_variance/delta_variance.py", "np.log10(pix_brk.value), weights=weights)", "np.log10(brk.value), weights=weights)")], {"P16": 1}),
 ("r16-dv-lags", [(S+"delta_variance/delta_variance.py", "        pix_lags = self._to_pixel(values)\n", "        pix_lags = values.value * u.pix\n")], {"P16": 1}),
 ("r16-dv-rerun", [(S+"delta_variance/delta_variance.py", "                lags2 = self.delvar2._to_pixel(lags2)\n", "                lags2 = self.delvar1._to_pixel(lags2)\n")], {}),
 ("r16-scf-roll", [(S+"scf/scf.py", "        pix_lags = self._to_pixel(self.roll_lags).value", "        pix_lags = self.roll_lags.value")], {"P16": 1}),
 ("r16-scf-lags", [(S+"scf/scf.py", "        pix_lags = self._to_pixel(self.lags)\n\n        x = np", "        pix_lags = self.lags\n\n        x = np")], {"P16": 1}),
 ("r16-scf-diff", [(S+"scf/scf.py", "        pix_lag_diff = np.diff(self._to_pixel(self.lags))[0].value\n\n", "        pix_lag_diff = np.diff(self.lags)[0].value\n\n")], {"P16": 1}),
 ("r16-scf-xlow2d", [(S+"scf/scf.py", "        xlow_pix = self._to_pixel(self.xlow).value\n        xhigh_pix", "        xlow_pix = self.xlow.value\n        xhigh_pix")], {}),
 ("r16-wt-run", [(S+"wavelets/wavelet_transform.py", "        pix_scales = self._to_pixel(self.scales).value", "        pix_scales = self.scales.value")], {"P16": 1}),
 ("r16-wt-fit", [(S+"wavelets/wavelet_transform.py", "            xlow = self._to_pixel(xlow)\n", "            xlow = xlow.to(self.scales.unit)\n")], {"P16": 1}),
 ("r16-pca-xlow", [(S+"pca/pca.py", "            xlow = self._to_pixel(xlow)\n", "            xlow = xlow.value * u.pix\n")], {"P16": 1}),
 ("r16-ts-lags", [(S+"tsallis/tsallis.py", "self._to_pixel(self.lags).value", "self.lags.value")], {"P16": 1}),
 ("r16-sm-rad", [(S+"stat_moments/highstatmoments.py", "np.ceil(self._to_pixel(self.radius).value)", "np.ceil(self.radius.value)")], {"P16": 1}),
 ("r16-sm-setter", [(S+"stat_moments/highstatmoments.py", "            pix_rad = self._to_pixel(value)\n", "            pix_rad = self._to_pixel(value)\n            value = np.ceil(value.value) * value.unit\n")], {"P16": 1}),
 ("r16-ps-low", [(S+"base_pspec2.py", "                self.high_cut = self._to_pixel_freq(high_cut)\n\n            x = np", "                self.high_cut = high_cut\n\n            x = np")], {"P16": 1}),
 ("r16-ps-brk", [(S+"base_pspec2.py", "                brk = self._to_pixel_freq(brk).value\n", "                brk = brk.value\n")], {"P16": 1}),
 ("r16-ps-brkunit", [(S+"base_pspec2.py", "                    self._brk = 10**brk_fit.brk / u.pix\n", "                    self._brk = 10**brk_fit.brk * u.pix\n")], {"P16": 1}),
 ("r16-vcs", [(S+"vca_vcs/vcs.py", "            self.low_cut = \\\n                self._spectral_freq_unit_conversion(low_cut, u.pix**-1)", "            self.low_cut = low_cut.value / u.pix")], {"P16": 1}),
 ("r16-wt-brk", [(S+"wavelets/wavelet_transform.py", "            pix_brk = self._to_pixel(brk)\n", "            pix_brk = brk\n")], {"P16": 1}),
]
M5 += [
 ("r16-genus-rad", [(S+"genus/genus.py", "self.smoothing_radii = self._to_pixel(smoothing_radii).value", "self.smoothing_radii = smoothing_radii.value")], {"P16": 1}),
 ("r16-genus-min", [(S+"genus/genus.py", "                min_size = self._to_pixel_area(min_size)\n", "                min_size = self._to_pixel(min_size ** 0.5)\n")], {"P16": 1}),
]
