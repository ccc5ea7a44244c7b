S = "statistics/"
IB = "io/input_base.py"
M4 = [
 ("r13-primary", [(IB, "        if isinstance(data, _ImageBaseHDU):", "        if isinstance(data, fits.PrimaryHDU):")], {"P13": 1}),
 ("r13-listrev", [(IB, "            output_data = data\n\n        elif", "            output_data = data\n            if isinstance(data, list):\n                output_data = data[::-1]\n\n        elif")], {"P13": 1}),
 ("r13-tupleonly", [(IB, "        elif isinstance(data, tuple) or isinstance(data, list):", "        elif isinstance(data, tuple):")], {"P13": 1}),
 ("r13-unmasked", [(IB, "make_copy(data.filled_data[:], need_copy)", "make_copy(data.unmasked_data[:], need_copy)")], {"P13": 1}),
 ("r13-value", [(IB, "            output_data = [make_copy(data, need_copy), data.header]", "            output_data = [make_copy(data.value, need_copy), data.header]")], {"P13": 1}),
 ("r13-nan", [(IB, "            output_data = [make_copy(data.data, need_copy), data.header]", "            output_data = [np.nan_to_num(data.data), data.header]")], {"P13": 1}),
 ("r13-squeeze", [(IB, "            output_data = [make_copy(data.data, need_copy), data.header]", "            output_data = [make_copy(data.data, need_copy).astype('f4'), data.header]")], {"P13": 1}),
 ("r13-weights", [(S+"pspec_bispec/pspec.py", "            weights = input_data(weights, no_header=True).copy()", "            weights = weights.data if hasattr(weights, 'data') else weights[0]")], {"P13": 1}),
 ("r13-dv-weights", [(S+"delta_variance/delta_variance.py", "            self.weights = input_data(weights, no_header=True)", "            self.weights = input_data(weights, no_header=True)\n            if isinstance(weights, np.ndarray):\n                self.weights = self.weights / self.weights.max()")], {"P13": 1}),
 ("r13-hdr-ignored", [(S+"base_statistic.py", "            self.header = header\n", "            self.header = header.copy()\n            self.header['BMAJ'] = 1\n")], {"P13": 1}),
 ("r13-genus-hdr", [(S+"genus/genus.py", "        self.genus2 = Genus((img2, hdr2),", "        self.genus2 = Genus((img2, hdr1),")], {"P13": 1}),
 ("r13-pca-proj", [(S+"genus/genus.py", "isinstance(img, np.ndarray) and not hasattr(img, 'header')", "isinstance(img, np.ndarray)")], {"P13": 1}),
 ("r13-mvc", [(S+"mvc/mvc.py", "        self._linewidth = input_data(linewidth, no_header=True)\n", "        self._linewidth = linewidth.data if hasattr(linewidth, 'data') else linewidth[0]\n")], {"P13": 1}),
 ("r17-dv-scale", [(S+"delta_variance/delta_variance.py", "                wcs1 = self.delvar1._wcs\n", "                wcs1 = None\n")], {"P17": 1}),
 ("r17-dv-swap", [(S+"delta_variance/delta_variance.py", "                    self.delvar2._lags = lags2\n                    self.delvar2.run(**delvar2_kwargs)\n\n", "                    self.delvar2._lags = lags2\n                    self.delvar2.run(**delvar_kwargs)\n\n")], {"P17": 1}),
 ("r17-dv-norerun", [(S+"delta_variance/delta_variance.py", "                    self.delvar1._lags = lags1\n                    self.delvar1.run(**delvar_kwargs)\n\n", "                    self.delvar1._lags = lags1\n\n")], {"P17": 1}),
 ("r17-dv-slope-lags", [(S+"delta_variance/delta_variance.py", "                    self.delvar1._lags = lags1\n                self.delvar1.run(**delvar_kwargs)\n", "                    self.delvar1._lags = lags1\n                self.delvar1.run()\n")], {"P17": 1}),
 ("r17-dv-shape", [(S+"delta_variance/delta_variance.py", "                    shape2 = self.delvar2.data.shape", "                    shape2 = self.delvar2.data.shape[:1]")], {"P17": 1}),
 ("r17-scf-boundary", [(S+"scf/scf.py", "            self.scf2.compute_surface(boundary=boundary[1],", "            self.scf2.compute_surface(boundary=boundary[1 if _has_data2 else 0],")], {"P17": 1}),
 ("r17-scf-size", [(S+"scf/scf.py", "        self.size = self.scf1.size", "        self.size = self.scf1.size - (0 if _has_data1 else 2)")], {"P17": 1}),
 ("r17-scf-wcs", [(S+"scf/scf.py", "wcs2 = WCS(dataset2[1]) if _has_data2 else self.scf2._wcs", "wcs2 = WCS(dataset2[1]) if _has_data2 else self.scf1._wcs")], {"P17": 1}),
 ("r17-sm-nbins", [(S+"stat_moments/highstatmoments.py", "            size2 = image2[0].size if _has_data2 else self.moments2.data.size", "            size2 = image2[0].size if _has_data2 else self.moments2.data.shape[0]")], {"P17": 1}),
 ("r17-sm-run", [(S+"stat_moments/highstatmoments.py", "                self.moments1.radius = radius1\n", "")], {"P17": 1}),
 ("r17-pca-neigs", [(S+"pca/pca.py", "                self.pca2.n_eigs = n_eigs\n", "")], {}),
 ("r17-pca-needs", [(S+"pca/pca.py", "            if not hasattr(self.pca2, 'eigvals'):\n                needs_run = True\n", "            if not hasattr(self.pca2, 'eigvals'):\n                needs_run = False\n")], {"P17": 1}),
 ("r17-pspec-brk", [(S+"pspec_bispec/pspec.py", "            fit_kwargs['brk'] = breaks[1]\n", "            if not isinstance(data2, PowerSpectrum):\n                fit_kwargs['brk'] = breaks[1]\n")], {"P17": 1}),
 ("r17-vca-run", [(S+"vca_vcs/vca.py", "            if not hasattr(self.vca2, '_slope'):", "            if not hasattr(self.vca1, '_slope'):")], {"P17": 1}),
 ("r17-mvc", [(S+"mvc/mvc.py", "            if not hasattr(self.mvc2, '_slope'):", "            if not hasattr(self.mvc2, 'slope'):")], {}),
 ("r17-wt-inplace", [(S+"wavelets/wavelet_transform.py", "            self.wt2 = dataset2\n            needs_run = False\n", "            self.wt2 = dataset2\n            self.wt2._slope = self.wt2._slope[::-1]\n            needs_run = False\n")], {"P17": 1}),
 ("r17-dendro-noset", [(S+"dendrograms/dendro_stats.py", "                self.dendro2.min_deltas = min_deltas\n", "")], {"P17": 1}),
 ("r17-dendro-kw", [(S+"dendrograms/dendro_stats.py", "                self.dendro2.min_deltas = min_deltas\n                self.dendro2.run(verbose=False, make_hists=False,\n                                 **dendro2_kwargs)", "                self.dendro2.min_deltas = min_deltas\n                self.dendro2.run(verbose=False, make_hists=False,\n                                 **dendro_kwargs)")], {"P17": 1}),
]
