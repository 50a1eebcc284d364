BUG("c01-view", "C01", "core/reducer.py", "self.waveforms = np.copy(waveforms)", "self.waveforms = np.asarray(waveforms)")if 0 else None
BUG("c01-flasher", "C01", "waveform_reducers/flag_flasher.py", "super()._prepare(waveforms)", "super()._prepare(waveforms)\n        waveforms[:, 0] = 0") if 0 else None
BUG("c01-shift", "C01", "utils/waveform.py", "result = np.empty_like(arr)", "result = np.asarray(arr)")
BUG("c01-sub", "C01", "utils/waveform.py", "return waveforms - self.baseline[:, None]", "waveforms -= self.baseline[:, None]\n        return waveforms")
BUG("c01-sub2", "C01", "utils/waveform.py", "return waveforms - self.baseline[:, None]", "return np.subtract(waveforms, self.baseline[:, None], out=waveforms)")
BUG("c01-tcor", "C01", "calib/time_calibrator.py", "shifted = waveforms.copy()", "shifted = waveforms")
BUG("c01-kernel", "C01", "waveform_reducers/sliding_window.py", "n_samples = ", "n_samples = ") if 0 else None
BUG("c01-saturation", "C01 C06", "waveform_reducers/saturation.py", "coeff = np.sum(self.waveforms[:, start:], axis=1)", "wf = self.waveforms[:, start:]\n        wf[wf < 0] = 0\n        coeff = np.sum(wf, axis=1)",) if 0 else None
BUG("c01-cc", "C01", "waveform_reducers/cross_correlation.py", "        super()._prepare(waveforms)\n        self._cc = correlate1d(", "        super()._prepare(waveforms)\n        w = waveforms[:, :4]\n        w *= 0\n        self._cc = correlate1d(")
BUG("c01-calib", "C01", "calib/waveform.py", "astype(np.float32, copy=True)", "astype(np.float32, copy=False)")
OK("ok-copy-method", "", "core/reducer.py", "self.waveforms = np.copy(waveforms)", "self.waveforms = np.array(waveforms)")
OK("ok-asarray", "C01", "core/reducer.py", "self.waveforms = np.copy(waveforms)", "self.waveforms = np.asarray(waveforms)")
OK("ok-shift-zeros", "", "utils/waveform.py", "result = np.empty_like(arr)", "result = np.zeros_like(arr)")
OK("ok-sub", "", "utils/waveform.py", "return waveforms - self.baseline[:, None]", "subtracted = waveforms - self.baseline[:, np.newaxis]\n        return subtracted")
OK("ok-sub2", "", "utils/waveform.py", "return waveforms - self.baseline[:, None]", "return np.subtract(waveforms, self.baseline[:, None])")
BUG("c02-flasher", "C02", "waveform_reducers/flag_flasher.py", "        self.unit = -1\n        avg", "        avg") if 0 else None
BUG("c02-class", "C02", "waveform_reducers/average_wf.py", "        self.t = t\n", "        if t > 10:\n            self.t = t\n")
BUG("c02-nnls", "C02", "waveform_reducers/nnls_pulse_extraction.py", "tcharge  = np.zeros(len(self.extracted))", "tcharge = getattr(self, 'tcharge', np.zeros(len(self.extracted)))") if 0 else None
BUG("c02-clsattr", "C02", "waveform_reducers/average_wf.py", "        self.t = t\n", "        AverageWF._last = t\n        self.t = t\n", "    def _prepare(self, waveforms):\n        super()._prepare(waveforms)\n        if \"t_extract\"", "    _last = 10\n    def _prepare(self, waveforms):\n        super()._prepare(waveforms)\n        t = self._last\n        if \"t_extract\"")
BUG("c02-smooth", "C02", "waveform_reducers/cross_correlation.py", "        self._charge = self._cc[:, self._peak_index]", "        self._charge[:self._cc.shape[0]] += self._cc[:, self._peak_index]")
BUG("c02-skip", "C02", "waveform_reducers/timing.py", "        self._fwhm = fwhm\n", "        if t_extract > 20:\n            self._fwhm = fwhm\n")
OK("ok-counter", "", "waveform_reducers/average_wf.py", "        self.t = t\n", "        self.n_processed = getattr(self, 'n_processed', 0) + 1\n        self.t = t\n")
OK("ok-buffer", "C02", "waveform_reducers/cross_correlation.py", "        self._charge = self._cc[:, self._peak_index]", "        self._charge[:] = self._cc[:, self._peak_index]")
