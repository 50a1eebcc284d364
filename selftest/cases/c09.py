W="core/io/waveform.py"; T="core/io/tio.py"; S="core/io/simtel.py"; X="scripts/extract_dl1.py"
BUG("c09-drop", "C09", W, "        self.t_tack = getattr(obj, 't_tack', None)\n", "")
BUG("c09-cross", "C09", W, "self.stale = getattr(obj, 'stale', None)", "self.stale = getattr(obj, 'missing_packets', None)")
BUG("c09-cond", "C09", W, "        self.mc_true = getattr(obj, 'mc_true', None)", "        if self.shape == obj.shape:\n            self.mc_true = getattr(obj, 'mc_true', None)")
BUG("c09-none", "C09", W, "        if obj is None:\n            return\n", "        if obj is None or obj.dtype != self.dtype:\n            return\n")
BUG("c09-new", "C09", W, "obj.stale = stale", "obj.stale = missing_packets")
BUG("c09-t", "C09", W, "t_cpu_s * 1E9", "t_cpu_s * 1E6")
BUG("c09-swap", "C09", W, "t_cpu_s, t_cpu_ns = self._t_cpu_container", "t_cpu_ns, t_cpu_s = self._t_cpu_container")
BUG("c09-tio", "C09", T, "(first_cell_id,  stale,  missing_packets,", "(first_cell_id,  missing_packets,  stale,")
BUG("c09-tio2", "C09", T, "            iev=iev,\n            is_r1=self.is_r1,", "            iev=iev,\n            is_r1=True,")
BUG("c09-tio3", "C09", T, "            stale=stale,\n", "")
BUG("c09-tio4", "C09", T, "t_cpu_container=(t_cpu_s, t_cpu_ns)", "t_cpu_container=(t_cpu_s, t_tack)")
BUG("c09-lib", "C09", T, "self.get_tio_event = self._reader.GetR0Event", "self.get_tio_event = self._reader.GetR1Event")
BUG("c09-sim", "C09", S, "mc_true = event.mc.tel[self.tel].photo_electron_image[self.pixel_order]", "mc_true = event.mc.tel[self.tel].photo_electron_image")
BUG("c09-sim2", "C09", S, "        self._fill_event_containers(event)\n        samples", "        samples")
BUG("c09-sim3", "C09", S, "            az=event.mc.az.value", "            az=event.mc.alt.value")
BUG("c09-sim4", "C09", S, "self._iev = event.count", "self._iev = self._iev + 1 if self._iev is not None else 0")
BUG("c09-row", "C09", X, "t_tack=waveforms.t_tack", "t_tack=waveforms.t_cpu")
BUG("c09-row2", "C09", X, "first_cell_id=waveforms.first_cell_id", "first_cell_id=waveforms_tc.first_cell_id")
BUG("c09-row3", "C09", X, "self.pixel_array = np.arange(self.reader.n_pixels)", "self.pixel_array = np.arange(self.reader.n_modules)")
BUG("c09-dt", "C09", X, "df['t_tack'].astype(np.uint64)", "df['t_tack'].astype(np.uint32)")
BUG("c09-dt2", "C09", X, "df['iev'].astype(np.uint32)", "df['iev'].astype(np.uint16)")
BUG("c09-cal", "C09", "calib/waveform.py", "        calibrated_wfs.is_r1 = True\n", "")
BUG("c09-cal2", "C09", "calib/waveform.py", "        calibrated_wfs.is_r1 = True\n", "        waveforms.is_r1 = True\n        calibrated_wfs.is_r1 = True\n")
BUG("c09-cal3", "C09", "calib/waveform.py", "waveforms.astype(np.float32, copy=True)", "np.array(waveforms, dtype=np.float32)")
OK("ok-c09-loop", "", W, """        self.iev = getattr(obj, 'iev', None)
        self.is_r1 = getattr(obj, 'is_r1', None)
        self.first_cell_id = getattr(obj, 'first_cell_id', None)
        self.stale = getattr(obj, 'stale', None)
        self.missing_packets = getattr(obj, 'missing_packets', None)
        self.t_tack = getattr(obj, 't_tack', None)
        self._t_cpu_container = getattr(obj, '_t_cpu_container', None)
        self.mc_true = getattr(obj, 'mc_true', None)
""", """        for name in ('iev', 'is_r1', 'first_cell_id', 'stale', 'missing_packets', 't_tack', '_t_cpu_container', 'mc_true'):
            setattr(self, name, getattr(obj, name, None))
""")
OK("ok-c09-cls", "", W, """        self.iev = getattr(obj, 'iev', None)
        self.is_r1 = getattr(obj, 'is_r1', None)
        self.first_cell_id = getattr(obj, 'first_cell_id', None)
        self.stale = getattr(obj, 'stale', None)
        self.missing_packets = getattr(obj, 'missing_packets', None)
        self.t_tack = getattr(obj, 't_tack', None)
        self._t_cpu_container = getattr(obj, '_t_cpu_container', None)
        self.mc_true = getattr(obj, 'mc_true', None)
""", """        for name in self._FIELDS:
            setattr(self, name, getattr(obj, name, None))
""", "class Waveform(np.ndarray):\n", "class Waveform(np.ndarray):\n    _FIELDS = ['iev', 'is_r1', 'first_cell_id', 'stale', 'missing_packets', 't_tack', '_t_cpu_container', 'mc_true']\n\n")
OK("ok-c09-tio", "", T, """        (first_cell_id,  stale,  missing_packets,
         t_tack, t_cpu_s, t_cpu_ns) = self.get_tio_event(iev, samples)
""", """        info = self.get_tio_event(iev, samples)
        first_cell_id, stale, missing_packets = info[:3]
        t_tack, t_cpu_s, t_cpu_ns = info[3], info[4], info[5]
""")
OK("ok-c09-tio2", "", T, """        if self.is_r1:
            self.dtype = np.float32
            self.get_tio_event = self._reader.GetR1Event
        else:
            self.dtype = np.uint16
            self.get_tio_event = self._reader.GetR0Event
""", """        self.dtype = np.float32 if self.is_r1 else np.uint16
        self.get_tio_event = self._reader.GetR0Event
        if self.is_r1:
            self.get_tio_event = self._reader.GetR1Event
""")
OK("ok-c09-dt", "", X, """        df['iev'] = df['iev'].astype(np.uint32)
        if 'first_cell_id' in df.columns:
            df['first_cell_id'] = df['first_cell_id'].astype(np.uint16)
        if 't_tack' in df.columns:
            df['t_tack'] = df['t_tack'].astype(np.uint64)
        if 'mc_true' in df.columns:
            df['mc_true'] = df['mc_true'].astype(np.uint32)
        if 'pixel' in df.columns:
            df['pixel'] = df['pixel'].astype(np.uint32)
""", """        dtypes = dict(iev=np.uint32, first_cell_id=np.uint16, t_tack=np.uint64, mc_true='uint32', pixel=np.uint32)
        for column, dtype in dtypes.items():
            if column in df.columns:
                df[column] = df[column].astype(dtype)
        if 'pixel' in df.columns:
""")
OK("ok-c09-rows", "", X, "        params = dict(\n            iev=waveforms.iev,\n", "        event = self._event(waveforms)\n        params = dict(\n            **event,\n", "            t_cpu=waveforms.t_cpu,\n            t_tack=waveforms.t_tack,\n            first_cell_id=waveforms.first_cell_id,\n", "", "    def __call__(self, waveforms):\n", "    @staticmethod\n    def _event(wf):\n        return {k: getattr(wf, k) for k in ('iev', 't_cpu', 't_tack', 'first_cell_id')}\n\n    def __call__(self, waveforms):\n")
OK("ok-c09-t", "", W, "np.int64(t_cpu_s * 1E9) + np.int64(t_cpu_ns)", "int(t_cpu_ns) + int(t_cpu_s) * 10**9")
