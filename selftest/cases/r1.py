W="waveform_reducers/"
AV="    def _prepare(self, waveforms):\n        super()._prepare(waveforms)\n        if \"t_extract\""
def c01(name, line, tail=""):
    BUG("r1-c01-"+name, "C01", W+"average_wf.py", AV, AV.replace("        if \"t_extract\"", line+"        if \"t_extract\""))
c01("sort","        waveforms.sort(axis=1)\n")
c01("nan","        np.nan_to_num(waveforms, copy=False)\n")
c01("addat","        np.add.at(waveforms, (slice(None), 0), 1)\n")
c01("put","        np.put(waveforms, [0], 0)\n")
c01("copyto","        np.copyto(waveforms, self.waveforms - self.waveforms.mean())\n")
c01("place","        np.place(waveforms, waveforms < 0, 0)\n")
c01("putmask","        np.putmask(waveforms, waveforms < 0, 0)\n")
c01("shape","        waveforms.shape = (-1,)\n")
c01("flags","        waveforms.T[0] = 0\n")
c01("ravel","        waveforms.ravel()[0] = 0\n")
c01("reshape","        waveforms.reshape(-1)[waveforms.size - 1] = 0\n")
c01("rows","        for wf in waveforms:\n            wf -= wf.min()\n")
c01("enum","        for i, wf in enumerate(waveforms):\n            if wf.max() > 4000:\n                wf[wf > 4000] = 4000\n")
c01("zip","        for wf, base in zip(waveforms, waveforms.min(axis=1)):\n            wf -= base\n")
c01("slice","        start = waveforms[:, :10]\n        start[start > 100] = 0\n")
c01("out","        np.clip(waveforms, 0, None, out=waveforms)\n")
c01("outview","        first = waveforms[:, :4]\n        np.subtract(first, first.mean(), out=first)\n")
c01("fill","        waveforms[waveforms.max(axis=1) > 4000].fill(0)\n        waveforms[0].fill(0)\n")
c01("partition","        waveforms.partition(3, axis=1)\n")
c01("shuffle","        np.random.shuffle(waveforms)\n")
c01("asarray","        wf = np.asarray(waveforms)\n        wf[:, 0] = 0\n")
c01("astype","        wf = waveforms.astype(np.float32, copy=False)\n        wf[:, 0] = 0\n")
c01("require","        wf = np.require(waveforms, requirements='W')\n        wf[:, 0] = 0\n")
c01("atleast","        wf = np.atleast_2d(waveforms)\n        wf *= 2\n")
c01("swap","        wf = np.swapaxes(waveforms, 0, 1)\n        wf[0] = 0\n")
c01("setitem","        waveforms.__setitem__((0, 0), 0)\n")
c01("isub","        waveforms.__isub__(1)\n")
c01("operator","        import operator\n        operator.isub(waveforms, 1)\n")
c01("cond","        if waveforms.max() > 4095:\n            waveforms[waveforms > 4095] = 4095\n")
c01("split","        parts = np.split(waveforms, 2)\n        parts[0][:] = 0\n")
c01("diag","        np.fill_diagonal(waveforms, 0)\n")
c01("lambda","        clean = lambda wf: wf.__setitem__(wf < -1000, 0)\n        clean(waveforms)\n")
c01("apply","        for i in np.where(waveforms.min(axis=1) < -1000)[0]:\n            waveforms[i] -= waveforms[i].min()\n")
BUG("r1-c01-helper","C01",W+"average_wf.py","class AverageWF(WaveformReducer):\n","def remove_spikes(array, limit=4095):\n    array[array > limit] = limit\n    return array\n\n\nclass AverageWF(WaveformReducer):\n", AV, AV.replace("        if \"t_ex","        remove_spikes(waveforms)\n        if \"t_ex"))
BUG("r1-c01-static","C01",W+"average_wf.py",AV,"    @staticmethod\n    def _clean(array):\n        rows = array[array[:, 0] > 1e6]\n        array[:, 0] = 0\n        return rows\n\n"+AV.replace("        if \"t_ex","        self._clean(waveforms)\n        if \"t_ex"))
BUG("r1-c01-stored","C01",W+"average_wf.py",AV,AV.replace("super()._prepare(waveforms)\n","super()._prepare(waveforms)\n        self.raw = waveforms\n"),"        charge = np.sum(self.waveforms[:, start:end], axis=1)","        self.raw[:, :start] = 0\n        charge = np.sum(self.waveforms[:, start:end], axis=1)")
BUG("r1-c01-numba","C01",W+"timing.py","        baseline = np.mean(wf[:10])\n","        baseline = np.mean(wf[:10])\n        for k in range(10):\n            wf[k] = wf[k] - baseline\n        baseline = 0.0\n")
BUG("r1-c01-numba2","C01",W+"timing.py","        wf = waveforms[pixel]\n        baseline = np.mean(wf[:10])\n","        wf = waveforms[pixel]\n        if wf[0] > 4095:\n            wf[0] = wf[1]\n        baseline = np.mean(wf[:10])\n")
BUG("r1-c01-guv","C01",W+"cross_correlation.py","    y0 = waveforms[peak_index - 1]\n","    waveforms[0] = 0\n    y0 = waveforms[peak_index - 1]\n") if 0 else None
BUG("r1-c01-sp","C01",W+"superpixel.py","        self.sp_wf = waveforms.reshape(\n            (self.n_superpixels, 4, self.n_samples)\n        ).sum(1)","        grouped = waveforms.reshape(\n            (self.n_superpixels, 4, self.n_samples)\n        )\n        for k in range(1, 4):\n            grouped[:, 0] += grouped[:, k]\n        self.sp_wf = grouped[:, 0]")
BUG("r1-c01-both","C01","core/reducer.py","self.waveforms = np.copy(waveforms)","self.waveforms = waveforms",W+"common.py","        return np.max(self.waveforms, axis=1)","        wf = self.waveforms\n        wf[wf < 0] = 0\n        return np.max(wf, axis=1)") if 0 else None
BUG("r1-c01-dl1","C01 C06","scripts/extract_dl1.py","            waveforms = ","            waveforms = ") if 0 else None

# results depend only on the event
BUG("r1-c02-cache","C02",W+"common.py","        return np.max(self.waveforms, axis=1)","        if not hasattr(self, '_max'):\n            self._max = np.max(self.waveforms, axis=1)\n        return self._max")
BUG("r1-c02-none","C02",W+"superpixel.py","        self.n_superpixels = n_pixels // 4\n","        self.n_superpixels = n_pixels // 4\n        self._argmax = None\n","        return np.repeat(self.sp_wf.argmax(1), 4)","        if self._argmax is None:\n            self._argmax = np.repeat(self.sp_wf.argmax(1), 4)\n        return self._argmax")
BUG("r1-c02-lru","C02",W+"superpixel.py","import numpy as np\n","import numpy as np\nfrom functools import lru_cache\n","    @column\n    def sp_argmax(self):","    @lru_cache(maxsize=None)\n    def _positions(self):\n        return self.sp_wf.argmax(1)\n\n    @column\n    def sp_argmax(self):","np.repeat(self.sp_wf.argmax(1), 4)","np.repeat(self._positions(), 4)")
BUG("r1-c02-default","C02",W+"average_wf.py","    def _prepare(self, waveforms):\n        super()","    def _smooth(self, avg, history=[]):\n        history.append(avg)\n        return np.mean(history, axis=0)\n\n    def _prepare(self, waveforms):\n        super()","avg = np.mean(self.waveforms, axis=0)","avg = self._smooth(np.mean(self.waveforms, axis=0))")
BUG("r1-c02-global","C02",W+"average_wf.py","class AverageWF","LAST = {}\n\n\nclass AverageWF","            t = np.argmax(avg)\n","            t = LAST.setdefault('t', np.argmax(avg))\n")
BUG("r1-c02-running","C02",W+"saturation.py","            avg = np.mean(self.waveforms, axis=0)","            self._avg = (getattr(self, '_avg', 0) + np.mean(self.waveforms, axis=0)) / 2\n            avg = self._avg")
BUG("r1-c02-empty","C02",W+"timing.py","    fwhm_arr = np.zeros(n_pixels)","    fwhm_arr = np.empty(n_pixels)")
BUG("r1-c02-argmaxkeep","C02",W+"average_wf.py","            if t < 10:\n                t = 10\n","            if t < 10:\n                t = getattr(self, 't', 10)\n")
BUG("r1-c02-late","C02",W+"timing.py","        params = obtain_pulse_timing(waveforms, window_start, window_end)\n","        if self._window_start is None:\n            self._window_start = window_start\n            self._window_end = window_end\n        params = obtain_pulse_timing(waveforms, self._window_start, self._window_end)\n","        self._window_start = window_start\n        self._window_end = window_end\n\n        self._t_l","        self._t_l")
BUG("r1-c02-post","C02",W+"flag_flasher.py","    @column\n    def flasher_unit","    def _post(self):\n        self.threshold = getattr(self, 'threshold', 30) + 1\n\n    @column\n    def flasher_unit","        if (unit_vect<30).any():","        if (unit_vect<getattr(self, 'threshold', 30)).any():")
BUG("r1-c02-process","C02","core/reducer.py","        self._prepare(waveforms)\n        d = self._get_dict()","        if self.waveforms is None or self.waveforms.shape != waveforms.shape or not np.allclose(self.waveforms[0], waveforms[0]):\n            self._prepare(waveforms)\n        d = self._get_dict()")
BUG("r1-c02-updated","C02","core/reducer.py","        d = self._get_dict()\n        self._post()\n        return d","        self.result = getattr(self, 'result', {})\n        self.result.update({k: v for k, v in self._get_dict().items() if np.all(np.isfinite(v))})\n        self._post()\n        return dict(self.result)")
BUG("r1-c02-classlist","C02",W+"flag_flasher.py","    def __init__(self, n_pixels, n_samples, **kwargs):","    seen = []\n\n    def __init__(self, n_pixels, n_samples, **kwargs):","        self.unit=unit","        self.seen.append(unit)\n        self.unit = max(self.seen)")
BUG("r1-c02-buffer","C02",W+"cross_correlation.py","        self._peak_index = self._cc.mean(0).argmax()","        peak = self._cc.mean(0)\n        if peak.max() > 0:\n            self._peak_index = peak.argmax()")
OK("r1-ok-c02","C02 C06 C07",W+"saturation.py","            avg = np.mean(self.waveforms, axis=0)","            self._avg = np.mean(self.waveforms, axis=0)\n            avg = self._avg")
OK("r1-ok-c02-count","C01 C02",W+"flag_flasher.py","        self.unit=unit","        self.history = getattr(self, 'history', [])\n        self.history.append(unit)\n        self.unit = unit")
OK("r1-ok-c02-getter","",W+"average_wf.py","    @column\n    def t_averagewf(self):","    def _window(self):\n        start = self.t - self.window_shift\n        return start, start + self.window_size\n\n    @column\n    def t_averagewf(self):","        start = self.t - self.window_shift\n        end = start + self.window_size\n","        start, end = self._window()\n")
OK("r1-ok-c02-local","",W+"superpixel.py","        self.sp_wf = waveforms.reshape(\n            (self.n_superpixels, 4, self.n_samples)\n        ).sum(1)","        shape = (self.n_superpixels, 4, self.n_samples)\n        grouped = self.waveforms.reshape(shape)\n        self.sp_wf = np.sum(grouped, axis=1)")

# one value per pixel or one value per event
BUG("r1-c07-squeeze","C07",W+"superpixel.py","np.repeat(self.sp_wf.max(1), 4)","self.sp_wf.max(1)")
BUG("r1-c07-keep","C07",W+"common.py","np.max(self.waveforms, axis=1)","np.max(self.waveforms, axis=1, keepdims=True)")
BUG("r1-c07-axis","C07",W+"common.py","np.std(self.waveforms, axis=1)","np.std(self.waveforms, axis=0)")
BUG("r1-c07-valid","C07",W+"timing.py","        return self._fwhm\n","        return self._fwhm[np.isfinite(self._fwhm)]\n")
BUG("r1-c07-where","C07",W+"superpixel.py","        return np.repeat(self.sp_wf.argmax(1), 4)","        return np.where(self.sp_wf.argmax(1) > 0)[0]")
BUG("r1-c07-unique","C07",W+"superpixel.py","        return np.repeat(self.sp_wf.argmax(1), 4)","        return np.unique(np.repeat(self.sp_wf.argmax(1), 4))")
BUG("r1-c07-window","C07",W+"average_wf.py","        charge = np.sum(self.waveforms[:, start:end], axis=1)\n        return charge","        return self.waveforms[:, start:end]")
BUG("r1-c07-tuple","C07",W+"timing.py","        return self._t_event\n","        return self._window_start, self._window_end\n")
BUG("r1-c07-nonzero","C07",W+"nnls_pulse_extraction.py","        return self.charge\n","        return self.charge[self.npulses > 0]\n")
BUG("r1-c07-dict","C07",W+"nnls_pulse_extraction.py","        return self.npulses\n","        return self.pulses\n")
BUG("r1-c07-half","C07",W+"timing.py","    h_pulse_arr = np.zeros(n_pixels)","    h_pulse_arr = np.zeros(n_samples)")
BUG("r1-c07-rep","C07",W+"superpixel.py","np.repeat(self.sp_wf.argmax(1), 4)","np.repeat(self.sp_wf.argmax(1), 2)")
BUG("r1-c07-none","C07",W+"flag_flasher.py","        return self.unit\n","        if self.unit >= 0:\n            return self.unit\n")
OK("r1-ok-c07-sp","C07",W+"superpixel.py","        ).sum(1)","        ).sum(2)")
BUG("r1-c07-event","C07",W+"average_wf.py","            t = np.argmax(avg)\n","            t = np.argwhere(avg == avg.max())[:, 0]\n")
OK("r1-ok-c07","",W+"superpixel.py","np.repeat(self.sp_wf.argmax(1), 4)","self.sp_wf.argmax(1).repeat(4)")
OK("r1-ok-c07b","",W+"common.py","np.max(self.waveforms, axis=1)","self.waveforms.max(axis=-1)")
OK("r1-ok-c07c","",W+"common.py","np.std(self.waveforms, axis=1)","np.sqrt(np.mean((self.waveforms - np.mean(self.waveforms, axis=1)[:, None]) ** 2, axis=1))")

OK("r1-ok-c02-none","","core/reducer.py","        self._prepare(waveforms)\n        d = self._get_dict()","        if len(self.active_columns) == 0:\n            return {}\n        self._prepare(waveforms)\n        d = self._get_dict()")
OK("r1-ok-c02-keep","","core/reducer.py","        self._post()\n        return d","        self.last = d\n        self._post()\n        return d")
OK("r1-ok-c02-empty","","waveform_reducers/timing.py","    t_l = np.zeros(n_pixels)\n","    t_l = np.full(n_pixels, 0.0)\n")
