W="waveform_reducers/"
BUG("c06-inplace-wf", "C06", W+"common.py", "return np.max(self.waveforms, axis=1)", "wf = self.waveforms\n        wf -= wf[:, :20].mean(axis=1)[:, None]\n        return np.max(wf, axis=1)")
BUG("c06-height", "C06", W+"cross_correlation.py", "        return self.get_pulse_height(self._charge)\n\n\nclass CrossCorrelationLocal", "        self._charge *= self.y_1pe.max()\n        return self._charge\n\n\nclass CrossCorrelationLocal")
BUG("c06-charge-clip", "C06", W+"nnls_pulse_extraction.py", "        return self.tcharge", "        self.tcharge[self.tcharge < 0] = 0\n        self.charge[self.tcharge < 0] = 0\n        return self.tcharge")
BUG("c06-window", "C06", W+"average_wf.py", "        charge = np.sum(self.waveforms[:, start:end], axis=1)", "        self.t = start\n        charge = np.sum(self.waveforms[:, start:end], axis=1)")
BUG("c06-tevent", "C06", W+"saturation.py", '"t_extract" in self.kwargs', '"t_event" in self.kwargs', "self.kwargs['t_extract']", "self.kwargs['t_event']")
BUG("c06-get", "C06", W+"average_wf.py", "t = self.kwargs['t_extract']", "t = self.kwargs.get('t_event', 10)")
BUG("c06-switch", "C06", W+"timing.py", "        window_start = t_extract - self.window_shift", "        if 'fwhm' in self.active_columns:\n            t_extract = 20\n        window_start = t_extract - self.window_shift")
BUG("c06-kwname", "C06", W+"timing.py", "plot_timing=False, **kwargs", "plot_timing=False, fwhm=0.5, **kwargs")
BUG("c06-sat-view", "C06", W+"common.py", "return np.mean(self.waveforms[:, 0:20], axis=1)", "start = self.waveforms[:, 0:20]\n        start[start < 0] = 0\n        return np.mean(start, axis=1)")
OK("ok-skip", "C06 C07 C02", W+"common.py", "return np.mean(self.waveforms[:, 0:20], axis=1)", "start = self.waveforms[:, 0:20].copy()\n        start -= 0.5\n        start += 0.5\n        return np.mean(start, axis=1)")
OK("ok-cache", "C06 C02", W+"average_wf.py", "        self.t = t\n", "        self.t = t\n        self._q = None\n", "        charge = np.sum(self.waveforms[:, start:end], axis=1)\n        return charge", "        if self._q is None:\n            self._q = np.sum(self.waveforms[:, start:end], axis=1)\n        return self._q")
