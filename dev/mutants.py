S = "statistics/"
MUTANTS = [
 ("p04-verbose-fit", [(S+"delta_variance/delta_variance.py", "self._bootstrap_flag = bootstrap\n\n        if verbose:\n", "self._bootstrap_flag = bootstrap\n\n        if verbose:\n            self._slope = self.fit.params[-1]\n")], {"P04": 1}),
 ("p04-plot-store", [(S+"base_pspec2.py", "        import matplotlib.pyplot as plt\n        from mpl_toolkits", "        self._ps1D = self.ps1D * 1.0\n        import matplotlib.pyplot as plt\n        from mpl_toolkits")], {"P04": 1}),
 ("p04-equiv-progress", [(S+"scf/scf.py", "        if show_progress:\n            bar = ProgressBar(len(dx) * len(dy))", "        total = len(dx) * len(dy)\n        bar = ProgressBar(total) if show_progress else None")], {"P04": 0}),
]
