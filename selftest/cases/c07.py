W="waveform_reducers/"
BUG("c07-axis", "C07", W+"common.py", "np.max(self.waveforms, axis=1)", "np.max(self.waveforms, axis=0)")
BUG("c07-none", "C07", W+"common.py", "return np.max(self.waveforms, axis=1)", "np.max(self.waveforms, axis=1)")
BUG("c07-tile", "C07", W+"superpixel.py", "np.repeat(self.sp_wf.max(1), 4)", "np.tile(self.sp_wf.max(1), 4)")
BUG("c07-norepeat", "C07", W+"superpixel.py", "np.repeat(self.sp_wf.max(1), 4)", "self.sp_wf.max(1)")
BUG("c07-reshape", "C07", W+"superpixel.py", "(self.n_superpixels, 4, self.n_samples)\n        ).sum(1)", "(4, self.n_superpixels, self.n_samples)\n        ).sum(0)")
BUG("c07-fixed", "C07", W+"timing.py", "fwhm_arr = np.zeros(n_pixels)", "fwhm_arr = np.zeros(2048)")
BUG("c07-nsamp", "C07", W+"timing.py", "rise_time_arr = np.zeros(n_pixels)", "rise_time_arr = np.zeros(n_samples)")
BUG("c07-sub", "C07", W+"common.py", "return np.std(self.waveforms, axis=1)", "return np.sqrt(np.mean((self.waveforms - self.waveforms.mean(1))**2, axis=1))")
BUG("c07-argmaxlocal", "C07", W+"cross_correlation.py", "self._peak_index = self._cc.mean(0).argmax()", "self._peak_index = self._cc.argmax(0)")
BUG("c07-diag", "C07", W+"cross_correlation.py", "self._charge = self._cc[self._pa, self._peak_index]", "self._charge = self._cc[:, self._peak_index]")
BUG("c07-keep", "C07", W+"saturation.py", "coeff = np.sum(self.waveforms[:, start:], axis=1)", "coeff = np.sum(self.waveforms[:, start:], axis=1, keepdims=True)")
BUG("c07-slice", "C07", W+"saturation.py", "self.waveforms[:, start:], axis=1", "self.waveforms[start:], axis=1")
OK("ok-axis-1", "", W+"common.py", "np.max(self.waveforms, axis=1)", "self.waveforms.max(axis=-1)")
OK("ok-sub-wf", "C07 C06 C01 C02", W+"common.py", "return np.std(self.waveforms, axis=1)", "mean = self.waveforms.mean(1)\n        return np.sqrt(np.mean((self.waveforms - mean[:, None])**2, axis=1))")
OK("ok-sp", "C07", W+"superpixel.py", "(self.n_superpixels, 4, self.n_samples)", "(-1, 4, self.n_samples)")
OK("ok-take", "C07", W+"cross_correlation.py", "self._charge = self._cc[self._pa, self._peak_index]", "pixels = np.arange(self._cc.shape[0])\n        self._charge = self._cc[pixels, self._peak_index]")
OK("ok-sp-broadcast", "C07", W+"superpixel.py", "np.repeat(self.sp_wf.max(1), 4)", "np.broadcast_to(self.sp_wf.max(1)[:, None], (self.n_superpixels, 4)).ravel()")
OK("ok-sp-stack", "C07", W+"superpixel.py", "np.repeat(self.sp_wf.max(1), 4)", "np.stack([self.sp_wf.max(1)] * 4, axis=1).reshape(-1)")
OK("ok-sp-tile-t", "C07", W+"superpixel.py", "np.repeat(self.sp_wf.max(1), 4)", "np.tile(self.sp_wf.max(1)[:, None], (1, 4)).flatten()")
BUG("c07-concat", "C07", W+"superpixel.py", "np.repeat(self.sp_wf.max(1), 4)", "np.concatenate([m, m, m, m])", "        return np.conc", "        m = self.sp_wf.max(1)\n        return np.conc")
