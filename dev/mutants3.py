S = "statistics/"
DV = S + "delta_variance/delta_variance.py"
WT = S + "wavelets/wavelet_transform.py"
HM = S + "stat_moments/highstatmoments.py"
PDF = S + "pdf/compare_pdf.py"
DN = S + "dendrograms/dendro_stats.py"
GE = S + "genus/genus.py"
M3 = [
 # P01
 ("q01-pad", [(HM, "                    img_slice = img_slice * circle_mask\n", "                    img_slice *= circle_mask\n")], {"P01": 0}),
 ("q01-nan0", [(WT, "            self.data = self.data.copy()\n            self.data[isnan] = 0.", "            self.data[isnan] = 0.")], {"P01": 1}),
 ("q01-where", [(PDF, "        D, p = ks_2samp(self.PDF1.data, self.PDF2.data)", "        self.PDF1.data.sort()\n        self.PDF2.data.sort()\n        D, p = ks_2samp(self.PDF1.data, self.PDF2.data)")], {"P01": 0}),
 ("q01-genus-nan", [(GE, "        img1 = standardize(img1)\n", "        np.nan_to_num(img1, copy=False)\n        img1 = standardize(img1)\n")], {"P01": 1}),
 ("q01-outarg", [(S+"stats_utils.py", "def standardize(x, dtype=np.float64):", "def standardize(x, dtype=np.float64):\n    np.clip(x, -1e30, 1e30, x)")], {"P01": 1}),
 ("q01-hdr-upd", [(S+"base_statistic.py", "            self.header = header\n", "            header.update({'NAXIS': 2})\n            self.header = header\n")], {"P01": 1}),
 # P02
 ("q02-dendro", [(DN, "        dendro_kwargs = dict(dendro_kwargs)\n        dendro2_kwargs = dict(dendro2_kwargs)\n", "        dendro2_kwargs = dict(dendro2_kwargs)\n")], {"P02": 1}),
 ("q02-plot", [(DN, "            plot_kwargs1 = dict(plot_kwargs1)\n            plot_kwargs2 = dict(plot_kwargs2)\n            defaults1", "            plot_kwargs2 = dict(plot_kwargs2)\n            defaults1")], {"P02": 1}),
 ("q02-breaks", [(S+"pspec_bispec/pspec.py", "            breaks = [breaks] * 2\n", "            breaks = [breaks] * 2\n        else:\n            breaks[1] = breaks[1] if breaks[1] is not None else breaks[0]\n")], {"P02": 1}),
 # P04
 ("q04-genus", [(GE, "        self.make_genus_curve(**kwargs)\n\n        if verbose:", "        self.make_genus_curve(**kwargs)\n\n        if verbose and standardize_intensity:\n            self._genus_stats = self._genus_stats - np.mean(self._genus_stats)\n        if verbose:")], {"P04": 1}),
 ("q04-wave-fft", [(WT, "                use_ifftn = partial(ifftn, threads=threads, **pyfftw_kwargs)", "                use_ifftn = partial(fftn, threads=threads, **pyfftw_kwargs)")], {"P04": 1}),
 ("q04-wave-prog", [(WT, "            if show_progress:\n                bar.update(i + 1)\n", "            if show_progress:\n                bar.update(i + 1)\n                an = an * 2\n        self._last = an\n")], {"P04": 1}),
 ("q04-hm-bar", [(HM, "                    moments = compute_moments(img_slice, wgt_slice)", "                    moments = compute_moments(img_slice, wgt_slice if not show_progress else None)")], {"P04": 1}),
 # P05
 ("q05-hm", [(HM, "            plt.savefig(save_name)\n            plt.close()\n        else:\n            plt.show()\n\n    def run", "            plt.savefig(save_name)\n        else:\n            plt.show()\n\n    def run")], {"P05": 1}),
 ("q05-dn", [(DN, "            plt.legend(loc='best')\n\n            plt.tight_layout()\n\n            if save_name is not None:\n                plt.savefig(save_name)\n                plt.close()", "            plt.legend(loc='best')\n\n            plt.tight_layout()\n\n            if save_name is not None:\n                plt.savefig('dendro_' + save_name)\n                plt.close()")], {"P05": 1}),
 # P06
 ("q06-hm-minfrac", [(HM, "                if valid_img_frac < min_frac or valid_wgt_frac < min_frac:", "                if valid_img_frac < 0.8 or valid_wgt_frac < 0.8:")], {"P06": 1}),
 ("q06-hm-wmin", [(HM, "        self.compute_spatial_distrib(periodic=periodic, radius=radius,\n                                     min_frac=min_frac,", "        self.compute_spatial_distrib(periodic=periodic, radius=radius,")], {"P06": 1}),
 ("q06-pdf-bins", [(PDF, "                                  min_val=bin_min, max_val=bin_max)", "                                  min_val=bin_min)")], {"P06": 1}),
 ("q06-wave-norm", [(WT, "            factor = 4\n", "            factor = 2\n")], {"P06": 1}),
 ("q06-genus-nump", [(GE, "        self.genus2 = Genus(img2, smoothing_radii=smoothing_radii, numpts=numpts,", "        self.genus2 = Genus(img2, smoothing_radii=smoothing_radii,")], {"P06": 1, "P07": 1}),
 ("q06-dn-minfeat", [(DN, "cutoff2 = np.argwhere(self.dendro2.numfeatures > min_features)", "cutoff2 = np.argwhere(self.dendro2.numfeatures > 100)")], {"P07": 1}),
 ("q06-pdf-w", [(PDF, "                        weights=weights2)", "                        weights=None)")], {"P06": 1, "P07": 1}),
 # P07
 ("q07-genus-area", [(GE, "genus2 = self.genus2.genus_stats[0, :] / float(self.genus2.data.size)", "genus2 = self.genus2.genus_stats[0, :] / float(self.genus1.data.size)")], {"P07": 1}),
 ("q07-dn-err", [(DN, "            np.sqrt(self.dendro1.tail_slope_err**2 +\n                    self.dendro2.tail_slope_err**2)", "            np.sqrt(2) / self.dendro1.tail_slope_err")], {"P07": 1}),
 ("q07-dn-pre", [(DN, "                self.dendro2.run(verbose=False, make_hists=False,\n                                 **dendro2_kwargs)", "                self.dendro2.run(verbose=False, make_hists=False,\n                                 **dendro_kwargs)")], {"P07": 1}),
 ("q07-dn-nbin", [(DN, "            nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in", "            nbins = [np.floor(np.sqrt((n1 + n1) / 2.)) for n1, n2 in")], {"P07": 1}),
 ("q07-genus-pt", [(GE, "        max_pt = min(np.max(self.genus1.thresholds),\n                     np.max(self.genus2.thresholds))", "        max_pt = np.max(self.genus1.thresholds)")], {"P07": 1}),
 # P08
 ("q08-dn-abs", [(DN, "            np.abs(self.dendro1.tail_slope - self.dendro2.tail_slope) / \\", "            (self.dendro1.tail_slope - self.dendro2.tail_slope) / \\")], {"P08": 1}),
 ("q08-hell", [(S+"stats_utils.py", "def hellinger(data1, data2, bin_width=1.0):", "def hellinger(data1, data2, bin_width=1.0):\n    data2 = data2 + 1e-10")], {"P08": 1}),
 # P09
 ("q09-state", [(S+"base_statistic.py", "        self_copy = copy(self)\n", "        self_copy = self\n")], {"P09": 1}),
 # P10
 ("q10-wave", [(WT, "        else:\n            self._Wf = None\n\n        self._values", "        elif not hasattr(self, '_Wf'):\n            self._Wf = None\n\n        self._values")], {"P10": 1}),
 ("q10-hm", [(HM, "        self.array_moments()\n        self.compute_spatial", "        if not hasattr(self, '_mean_array'):\n            self.array_moments()\n        self.compute_spatial")], {"P10": 0}),
 ("q10-dn-bins", [(DN, "        self.bins = []\n", "        if not hasattr(self, 'bins'):\n            self.bins = []\n")], {"P10": 1}),
 # P11
 ("q11-wave", [(WT, "        else:\n            use_fftn = np.fft.fftn\n            use_ifftn = np.fft.ifftn\n\n        n0", "        else:\n            use_fftn = np.fft.fftn\n\n        n0")], {"P11": 1}),
 ("q11-pdf", [(PDF, "        self._do_fit = do_fit\n        self.PDF1.run", "        if do_fit:\n            self._do_fit = do_fit\n        self.PDF1.run")], {"P11": 1}),
 ("q11-dn", [(DN, "        else:\n            dendro_params1 = None\n            dendro_params2 = None\n", "        else:\n            dendro_params1 = None\n")], {"P11": 1}),
 # P12
 ("q12-hm", [(HM, "        if pix_rad.value > min(self.data.shape) / 2.:", "        if pix_rad.value > max(self.data.shape) / 2.:")], {"P12": 1}),
 ("q12-wave", [(WT, "        if np.any(pix_scal.value < 1):", "        if np.all(pix_scal.value < 1):")], {"P12": 1}),
 ("q12-wave2", [(WT, "        if np.any(half_comp > 1e-10):", "        if half_comp[-1] > 1e-10:")], {"P12": 1}),
 ("q12-minfrac", [(HM, "        if min_frac <= 0.0 or min_frac > 1.:", "        if min_frac < 0.0 or min_frac > 1.:")], {"P12": 1}),
]
