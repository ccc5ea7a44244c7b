S = "statistics/"
M2 = [
 # P01
 ("o01-pspec-weights", [(S+"pspec_bispec/pspec.py", "input_data(weights, no_header=True).copy()", "input_data(weights, no_header=True)")], {"P01": 1}),
 ("o01-vcs-nan", [(S+"vca_vcs/vcs.py", "            self.data = self.data.copy()\n", "")], {"P01": 1}),
 ("o01-delvar-weights", [(S+"delta_variance/delta_variance.py", "            self.weights = input_data(weights, no_header=True)\n", "            self.weights = input_data(weights, no_header=True)\n            self.weights[~np.isfinite(self.data)] = 0.\n")], {"P01": 1}),
 ("o01-standardize", [(S+"stats_utils.py", "def standardize(x, dtype=np.float64):", "def standardize(x, dtype=np.float64):\n    x[np.isinf(x)] = np.nan")], {"P01": 1}),
 ("o01-cramer", [(S+"threeD_to_twoD.py", "        vec_vec = cube[dv, :, :]\n", "        vec_vec = cube[dv, :, :]\n        vec_vec[vec_vec <= noise_lim] = np.nan\n")], {"P01": 1}),
 ("o01-cramer-spectra", [(S+"threeD_to_twoD.py", "        data_matrix = cube[:, x, y]", "        data_matrix = cube[:, :num_spec, 0]")], {"P01": 1}),
 ("o01-tsallis-sort", [(S+"tsallis/tsallis.py", "        pix_lags = np.floor(self._to_pixel(self.lags).value).astype(int)", "        self.lags.sort()\n        pix_lags = np.floor(self._to_pixel(self.lags).value).astype(int)")], {"P01": 1}),
 ("o01-hdr", [(S+"base_statistic.py", "            self.data = input_data(data, no_header=True,", "            header.pop('HISTORY', None)\n            self.data = input_data(data, no_header=True,")], {"P01": 1}),
 ("o01-scf-fill", [(S+"scf/scf.py", "        dx = pix_lags.copy()\n", "        np.copyto(self.data, 0., where=np.isinf(self.data))\n        dx = pix_lags.copy()\n")], {"P01": 1}),
 # P02
 ("o02-pspecdist", [(S+"pspec_bispec/pspec.py", "            this_pspec_kwargs = copy(pspec_kwargs)", "            this_pspec_kwargs = pspec_kwargs")], {"P02": 1}),
 ("o02-vca-fit", [(S+"vca_vcs/vca.py", "        fit_kwargs = dict(fit_kwargs)\n", "")], {"P02": 1}),
 ("o02-nested", [(S+"pspec_bispec/pspec.py", "            fit_kwargs = dict(this_pspec_kwargs.pop('fit_kwargs', {}))", "            fit_kwargs = this_pspec_kwargs.pop('fit_kwargs', {})")], {"P02": 1}),
 ("o02-plotkw", [(S+"vca_vcs/vcs.py", "            plot_kwargs2 = dict(plot_kwargs2)\n", "            plot_kwargs2 = plot_kwargs2 if plot_kwargs2 else {}\n")], {"P02": 1}),
 ("o02-genus-list", [(S+"genus/genus.py", "        if genus2_kwargs is None:\n            genus2_kwargs = genus_kwargs\n", "        if genus2_kwargs is None:\n            genus2_kwargs = genus_kwargs\n        genus2_kwargs.setdefault('min_size', 4)\n")], {"P02": 1}),
 # P03
 ("o03-bispec-seed", [(S+"pspec_bispec/bispec.py", "        with NumpyRNGContext(seed):\n", "        ra.seed(seed)\n        if True:\n")], {"P03": 1}),
 ("o03-cramer-seed", [(S+"cramer/cramer.py", "            rng = np.random.RandomState(seed)", "            rng = np.random")], {"P03": 1}),
 ("o03-boot-seed", [(S+"fitting_utils.py", "    with NumpyRNGContext(seed):", "    with NumpyRNGContext(seed if nboot > 100 else None):")], {"P03": 1}),
 # P04
 ("o04-vcs-verbose", [(S+"vca_vcs/vcs.py", "            if fit_verbose:\n", "            if fit_verbose:\n                breaks = np.sort(breaks)\n")], {"P04": 1}),
 ("o04-delvar-verbose", [(S+"delta_variance/delta_variance.py", "            fit_kwargs['verbose'] = verbose\n", "            fit_kwargs['verbose'] = verbose\n            if verbose:\n                fit_kwargs.setdefault('iter_max', 200)\n")], {"P04": 1}),
 ("o04-lmseg", [(S+"lm_seg.py", "            it += 1\n", "            if verbose:\n                it += 1\n")], {"P04": 1}),
 ("o04-threads", [(S+"cramer/cramer.py", "        pairdist12 = pairwise_distances(larger, smaller,", "        if n_jobs > 1:\n            larger = larger.astype(np.float32)\n        pairdist12 = pairwise_distances(larger, smaller,")], {"P04": 1}),
 # P05
 ("o05-close", [(S+"vca_vcs/vcs.py", "                plt.savefig(save_name)\n                plt.close()\n", "                plt.savefig(save_name)\n")], {"P05": 1}),
 ("o05-show", [(S+"cramer/cramer.py", "                plt.savefig(save_name)\n                plt.close()\n            else:\n                plt.show()", "                plt.savefig(save_name)\n                plt.close()\n            plt.show()")], {"P05": 1}),
 ("o05-ext", [(S+"genus/genus.py", "                plt.savefig(save_name)\n", "                plt.savefig(save_name + '.png')\n")], {"P05": 1}),
 ("o05-scfdist", [(S+"scf/scf.py", "            if save_name is not None:\n                plt.savefig(save_name)\n                plt.close()\n", "            if save_name is not None:\n                plt.savefig(save_name.lower())\n                plt.close()\n")], {"P05": 1}),
 # P06
 ("o06-delvar-minw", [(S+"delta_variance/delta_variance.py", "cutoff_val = min_weight_frac * self.weights.max()", "cutoff_val = 0.01 * self.weights.max()")], {"P06": 1}),
 ("o06-genus-conn", [(S+"genus/genus.py", "    labels, num = nd.label(arr, struct)", "    labels, num = nd.label(arr)")], {"P06": 1}),
 ("o06-vca-alpha", [(S+"vca_vcs/vca.py", "self.apodizing_kernel(kernel_type=apodize_kernel,\n                                                alpha=alpha,\n                                                beta=beta)", "self.apodizing_kernel(kernel_type=apodize_kernel,\n                                                alpha=alpha)")], {"P06": 1}),
 ("o06-tukey", [(S+"base_pspec2.py", "return TukeyWindow(alpha)(shape)", "return TukeyWindow(0.1)(shape)")], {"P06": 1}),
 ("o06-scf-bound", [(S+"scf/scf.py", "self.compute_surface(boundary=boundary, show_progress=show_progress)", "self.compute_surface(show_progress=show_progress)")], {"P06": 1}),
 ("o06-highcut", [(S+"base_pspec2.py", "                self.high_cut = self._to_pixel_freq(high_cut)\n\n            x = ", "                self.high_cut = self._to_pixel_freq(high_cut)\n\n            self.high_cut = min(self.high_cut, self.freqs.max())\n            x = ")], {"P06": 0}),
 # P07
 ("o07-genus", [(S+"genus/genus.py", "self.genus2.run(**genus2_kwargs)", "self.genus2.run(**genus_kwargs)")], {"P07": 1}),
 ("o07-vca", [(S+"vca_vcs/vca.py", "high_cut=high_cut[1],", "high_cut=high_cut[0],")], {"P07": 1}),
 ("o07-cramer", [(S+"cramer/cramer.py", "noise_lim=self.noise_value2,", "noise_lim=self.noise_value1,")], {"P07": 1}),
 ("o07-delvar-pre", [(S+"delta_variance/delta_variance.py", "                    self.delvar2._lags = lags2\n", "                    self.delvar2._lags = lags\n")], {"P07": 1}),
 # P08
 ("o08-bispec", [(S+"pspec_bispec/bispec.py", "        self._mean_distance = np.abs(self.bispec1.bicoherence.mean() -\n                                     self.bispec2.bicoherence.mean())", "        self._mean_distance = (self.bispec1.bicoherence.mean() -\n                               self.bispec2.bicoherence.mean())")], {"P08": 1}),
 ("o08-cramer", [(S+"cramer/cramer.py", "            if i < n:\n", "            if i < n - 1:\n")], {"P08": 1}),
 # P09
 ("o09-mvc-lw", [(S+"mvc/mvc.py", "            self_copy._linewidth = None\n", "            self._linewidth = None\n")], {"P09": 1}),
 ("o09-deepcopy", [(S+"base_statistic.py", "        self_copy = deepcopy(self)", "        self_copy = self")], {"P09": 1}),
 ("o09-header", [(S+"base_statistic.py", "            self_copy._data = None\n", "            self_copy._data = None\n            self_copy._header = None\n")], {"P09": 1}),
 # P10
 ("o10-delvar", [(S+"delta_variance/delta_variance.py", "        self._convolved_arrays = []\n        self._convolved_weights = []\n\n        self._delta_var = ", "        self._delta_var = ")], {"P10": 1}),
 ("o10-scf-cache", [(S+"scf/scf.py", "self.compute_surface(boundary=boundary, show_progress=show_progress)", "if self.scf_surface is None:\n            self.compute_surface(boundary=boundary, show_progress=show_progress)")], {"P10": 1}),
 ("o10-azim", [(S+"base_pspec2.py", "        self._azim_constraint_flag = azim_constraint_flag\n", "        if azim_constraint_flag:\n            self._azim_constraint_flag = azim_constraint_flag\n")], {"P10": 1}),
 ("o10-beam", [(S+"pspec_bispec/pspec.py", "        if beam_correct:\n            self._ps2D /= self._beam_pow", "        if hasattr(self, '_beam_pow'):\n            self._ps2D /= self._beam_pow")], {"P10": 1}),
 # P11
 ("o11-vcs", [(S+"vca_vcs/vcs.py", "            breaks = spline.get_knots()[1:-1]", "            knots = spline.get_knots()[1:-1]")], {"P11": 1}),
 ("o11-scf", [(S+"scf/scf.py", "                tmp_slice = (slice(None),) * 3", "                pass")], {"P11": 1}),
 ("o11-self", [(S+"delta_variance/delta_variance.py", "        self._bootstrap_flag = bootstrap\n", "        if brk is not None:\n            self._bootstrap_flag = bootstrap\n")], {"P11": 1}),
 # P12
 ("o12-delvar-any", [(S+"delta_variance/delta_variance.py", "if np.any(half_comp > 1e-10):", "if np.all(half_comp > 1e-10):")], {"P12": 1}),
 ("o12-dist", [(S+"base_statistic.py", "        if not value.unit.is_equivalent(u.pc):", "        if value.unit.is_equivalent(u.pix):")], {"P12": 1}),
 ("o12-fitm", [(S+"pca/pca.py", "if fit_method != 'odr' and fit_method != 'bayes':", "if fit_method not in 'odr bayes':")], {"P12": 1}),
 ("o03-bispec-run", [(S+"pspec_bispec/bispec.py", "                                seed=seed, **pyfftw_kwargs)", "                                **pyfftw_kwargs)")], {"P03": 1, "P06": 1}),
 ("o05-early", [(S+"tsallis/tsallis.py", "            self.plot_fit(save_name=save_name)", "            self.plot_fit()")], {"P05": 1}),
 ("o09-endswith", [(S+"base_statistic.py", 'if not output_name.endswith(".pkl"):', 'if ".pkl" not in output_name:')], {"P09": 1}),
 ("o10-brk", [(S+"delta_variance/delta_variance.py", "        else:\n            self._brk = None\n\n        # Revert", "        elif not hasattr(self, '_brk'):\n            self._brk = None\n\n        # Revert")], {"P10": 1}),
 ("o12-bound", [(S+"scf/scf.py", 'if boundary not in ["continuous", "cut"]:', 'if boundary.lower() not in ["continuous", "cut"]:')], {"P12": 1}),
 ("o06-pca-xlow", [(S+"pca/pca.py", "self.fit_plaw(xlow=xlow, xhigh=xhigh,\n                          fit_method", "self.fit_plaw(xlow=xlow,\n                          fit_method")], {"P06": 1}),
 ("o06-boot", [(S+"vca_vcs/vcs.py", "residual_bootstrap(self.fit.fit,\n                                         **bootstrap_kwargs)", "residual_bootstrap(self.fit.fit)")], {"P06": 1}),
 ("o07-err", [(S+"mvc/mvc.py", "np.sqrt(self.mvc1.slope_err**2 +\n                           self.mvc2.slope_err**2))", "np.sqrt(self.mvc1.slope_err**2 +\n                           self.mvc1.slope_err**2))")], {"P07": 1}),
 ("o11-kwname", [(S+"pca/pca.py", "return_samples=True, **kwargs)", "return_samps=True, **kwargs)")], {"P11": 1}),
]
