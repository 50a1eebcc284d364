CH="core/chain.py"; RD="core/reducer.py"; WV="core/io/waveform.py"; T="core/io/tio.py"; S="core/io/simtel.py"
H="core/io/hdf5_reader.py"; DL="core/io/dl1_reader.py"; HW="core/io/hdf5_writer.py"; HA="core/io/hdf5_appender.py"
X="scripts/extract_dl1.py"; SF="core/spectrum_fitter.py"; W="waveform_reducers/"
# ---- C04
FN="        config = {**self.default_config}\n        if config_path:\n            loaded_config = self._load_config(config_path)\n            config = {**config, **loaded_config, **kwargs}\n        else:\n            config = {**config, **self.default_columns, **kwargs}\n"
BUG("r2-c04-update","C04",CH,FN,"        config = self.default_columns\n        if config_path:\n            config = {**self.default_config, **self._load_config(config_path), **kwargs}\n        else:\n            config.update(kwargs)\n")
BUG("r2-c04-none","C04",CH,FN,FN+"        config = {k: v for k, v in config.items() if v is not None}\n")
BUG("r2-c04-truthy","C04",CH,FN,"        config = {**self.default_config}\n        loaded_config = self._load_config(config_path) if config_path else {}\n        if loaded_config:\n            config = {**config, **loaded_config, **kwargs}\n        else:\n            config = {**config, **self.default_columns, **kwargs}\n")
BUG("r2-c04-known","C04",CH,"config = {**config, **loaded_config, **kwargs}","config = {**config, **loaded_config}\n            config.update({k: v for k, v in kwargs.items() if k not in loaded_config})")
BUG("r2-c04-falseonly","C04",CH,"config = {**config, **self.default_columns, **kwargs}","config = {**config, **self.default_columns, **kwargs}\n            config = {k: v for k, v in config.items() if v}")
BUG("r2-c04-record","C04",CH,"        self.config = config\n","        self.config = {**self.default_config, **kwargs}\n")
BUG("r2-c04-pop","C04",CH,"        self.chain = self._build_chain(n_pixels, n_samples, **config)\n","        self.chain = self._build_chain(n_pixels, n_samples, **config)\n        config.pop('reference_pulse_path', None)\n")
BUG("r2-c04-cachefile","C04",CH,"        with open(path, 'r') as file:\n            config = yaml.safe_load(file)\n            if config is None:\n                return {}\n            return config\n","        if path not in WaveformReducerChain.default_config:\n            with open(path, 'r') as file:\n                WaveformReducerChain.default_config[path] = yaml.safe_load(file) or {}\n        return WaveformReducerChain.default_config[path]\n")
BUG("r2-c04-any","C04",CH,"            if len(r.get_active_columns(**reducer_config)) > 0:","            if len(r.get_active_columns(**reducer_config)) > 1:")
BUG("r2-c04-reducercfg","C04",CH,"                reducer = r(n_pixels, n_samples, **reducer_config)","                reducer = r(n_pixels, n_samples, **config)")
BUG("r2-c04-get","C04",RD,"        return [col for col in cls.columns if kwargs.get(col, default)]","        return [col for col in cls.columns if kwargs.get(col) or default]")
BUG("r2-c04-once","C04",RD,"        return [col for col in cls.columns if kwargs.get(col, default)]","        if not hasattr(cls, '_active'):\n            cls._active = [col for col in cls.columns if kwargs.get(col, default)]\n        return cls._active")
OK("r2-ok-c04a","",CH,FN,"        config = dict(self.default_config)\n        config.update(self._load_config(config_path) if config_path else self.default_columns)\n        config.update(kwargs)\n")
OK("r2-ok-c04b","",CH,FN,"        base = self._load_config(config_path) if config_path else self.default_columns\n        config = {**self.default_config, **base, **kwargs}\n")
OK("r2-ok-c04c","",CH,"        chain = []\n        for r in all_reducers:\n            if len(r.get_active_columns(**reducer_config)) > 0:\n                reducer","        chain = []\n        for r in all_reducers:\n            active = r.get_active_columns(**reducer_config)\n            if active:\n                reducer")
OK("r2-ok-c04d","",CH,"            config = yaml.safe_load(file)\n            if config is None:\n                return {}\n            return config","            return yaml.safe_load(file) or {}")
# ---- C05
BUG("r2-c05-name","C05",CH,"charge_cc=True","charge_cross=True")
BUG("r2-c05-dup","C05",W+"superpixel.py","    def sp_max(self","    def sp_argmax(self")
BUG("r2-c05-hasattr","C05",RD,"            if old_func != new_func:","            if old_func.split('.')[0] == new_func.split('.')[0] and old_func != new_func:")
BUG("r2-c05-reg","C05",RD,"        self.registry[func.__name__] = func","        self.registry[func.__qualname__] = func")
# ---- C06
BUG("r2-c06-shared","C06",W+"timing.py","        return self._t_event\n","        self._t_pulse_arr = self._t_pulse_arr - self._t_event\n        return self._t_event\n") if False else None
BUG("r2-c06-active","C06",W+"average_wf.py","            t = np.argmax(avg)\n","            t = np.argmax(avg)\n            if 't_averagewf' not in self.active_columns:\n                t = 20\n")
BUG("r2-c06-setting","C06",W+"saturation.py","        self.waveforms","        self.kwargs.get('saturation_sum', 1) * self.waveforms") if False else None
BUG("r2-c06-write","C06",W+"superpixel.py","        return np.repeat(self.sp_wf.max(1), 4)","        self.sp_wf -= self.sp_wf.min()\n        return np.repeat(self.sp_wf.max(1), 4)")
BUG("r2-c06-sort","C06",W+"superpixel.py","        return np.repeat(self.sp_wf.max(1), 4)","        self.sp_wf.sort(1)\n        return np.repeat(self.sp_wf[:, -1], 4)")
BUG("r2-c06-common","C06",W+"common.py","np.max(self.waveforms, axis=1)","np.partition(self.waveforms, -1, axis=1).ravel().reshape(self.waveforms.shape)[:, -1]") if False else None
BUG("r2-c06-inplace","C06",W+"common.py","        return np.std(self.waveforms, axis=1)","        self.waveforms -= self.waveforms.mean(1)[:, None]\n        return np.sqrt(np.mean(self.waveforms ** 2, axis=1))")
OK("r2-ok-c06","",W+"common.py","        return np.std(self.waveforms, axis=1)","        d = self.waveforms - self.waveforms.mean(1)[:, None]\n        d *= d\n        return np.sqrt(np.mean(d, axis=1))")
# ---- C09
BUG("r2-c09-default","C09",WV,"self.stale = getattr(obj, 'stale', None)","self.stale = getattr(obj, 'is_stale', None)")
BUG("r2-c09-cross","C09",WV,"self.stale = getattr(obj, 'stale', None)","self.stale = getattr(obj, 'missing_packets', None)")
BUG("r2-c09-or","C09",WV,"self.t_tack = getattr(obj, 't_tack', None)","self.t_tack = getattr(obj, 't_tack', None) or None")
BUG("r2-c09-only","C09",WV,"        if obj is None:\n            return\n        self.iev","        if not isinstance(obj, Waveform) or obj.shape != self.shape:\n            return\n        self.iev")
BUG("r2-c09-zero","C09",WV,"        obj.mc_true = mc_true\n        return obj","        obj.mc_true = None\n        return obj")
BUG("r2-c09-float","C09",WV,"np.int64(t_cpu_s * 1E9) + np.int64(t_cpu_ns)","np.int64(t_cpu_s * 1E9 + t_cpu_ns)")
BUG("r2-c09-ms","C09",WV,"unit='ns'\n","unit='us'\n")
BUG("r2-c09-swapt","C09",WV,"        t_cpu_s, t_cpu_ns = self._t_cpu_container","        t_cpu_ns, t_cpu_s = self._t_cpu_container")
BUG("r2-c09-order","C09",T,"(first_cell_id,  stale,  missing_packets,","(first_cell_id,  missing_packets,  stale,")
BUG("r2-c09-buffer","C09",T,"        samples = np.zeros((self.n_pixels, self.n_samples), self.dtype)","        if not hasattr(self, '_samples'):\n            self._samples = np.zeros((self.n_pixels, self.n_samples), self.dtype)\n        samples = self._samples")
BUG("r2-c09-r1","C09",T,"            is_r1=self.is_r1,\n","            is_r1=True,\n")
BUG("r2-c09-cls","C09",WV,"        obj.iev = iev\n        obj.is_r1","        cls.iev = iev\n        obj.is_r1")
BUG("r2-c09-sim","C09",S,"            mc_true=mc_true,\n","            mc_true=event.mc.tel[self.tel].photo_electron_image,\n")
BUG("r2-c09-simiev","C09",S,"        self._fill_event_containers(event)\n        samples","        samples")
BUG("r2-c09-simlate","C09",S,"        self._fill_event_containers(event)\n        samples","        samples", "        waveform = SimtelWaveform(\n            samples,\n            iev=self._iev,\n            is_r1=True,\n            mc_true=mc_true,\n            t_cpu_container=self._t_cpu\n        )\n","        waveform = SimtelWaveform(\n            samples,\n            iev=self._iev,\n            is_r1=True,\n            mc_true=mc_true,\n            t_cpu_container=self._t_cpu\n        )\n        self._fill_event_containers(event)\n")
BUG("r2-c09-x1","C09",X,"            first_cell_id=waveforms.first_cell_id,","            first_cell_id=waveforms.first_cell_id % 64,")
BUG("r2-c09-x2","C09",X,"            iev=waveforms.iev,\n","            iev=self.reader.iev if hasattr(self.reader, 'iev') else 0,\n")
BUG("r2-c09-mctrue","C09",X,"        if waveforms.mc_true is not None:","        if waveforms.mc_true is not None and waveforms.mc_true.any():")
BUG("r2-c09-tack","C09",X,"            t_tack=waveforms.t_tack,","            t_tack=waveforms.t_cpu,")
OK("r2-ok-c09","",WV,"        self.iev = getattr(obj, 'iev', None)\n        self.is_r1 = getattr(obj, 'is_r1', None)\n        self.first_cell_id = getattr(obj, 'first_cell_id', None)\n","        for name in ('iev', 'is_r1', 'first_cell_id'):\n            setattr(self, name, getattr(obj, name, None))\n")
OK("r2-ok-c09b","",T,"        (first_cell_id,  stale,  missing_packets,\n         t_tack, t_cpu_s, t_cpu_ns) = self.get_tio_event(iev, samples)\n","        info = self.get_tio_event(iev, samples)\n        first_cell_id, stale, missing_packets = info[:3]\n        t_tack, t_cpu_s, t_cpu_ns = info[3:]\n")
# ---- C10
BUG("r2-c10-neg","C10",WV,"            if iev < 0:\n                iev += self.n_events\n            if iev < 0 or iev >= len(self):","            if iev < 0:\n                iev += self.n_events\n            if iev >= len(self):")
BUG("r2-c10-gt","C10",WV,"iev >= len(self):","iev > len(self):")
BUG("r2-c10-mod","C10",WV,"            if iev < 0:\n                iev += self.n_events\n","            if iev < 0:\n                iev %= self.n_events\n")
BUG("r2-c10-slice","C10",WV,"range(*iev.indices(self.n_events))","range(iev.start or 0, iev.stop or self.n_events, iev.step or 1)")
BUG("r2-c10-step","C10",WV,"range(*iev.indices(self.n_events))","range(*iev.indices(self.n_events)[:2])")
BUG("r2-c10-sorted","C10",WV,"ev_list = [self[ii] for ii in iev]","ev_list = [self[ii] for ii in sorted(iev)]")
BUG("r2-c10-set","C10",WV,"ev_list = [self[ii] for ii in iev]","ev_list = [self[ii] for ii in dict.fromkeys(iev)]")
BUG("r2-c10-direct","C10",WV,"ev_list = [self[ii] for ii in iev]","ev_list = [self._get_event(ii) for ii in iev]")
BUG("r2-c10-skipstale","C10",WV,"        for iev in range(self.n_events):\n            yield self._get_event(iev)","        for iev in range(self.n_events):\n            wf = self._get_event(iev)\n            if wf.stale:\n                continue\n            yield wf")
BUG("r2-c10-max","C10",T,"        if max_events and max_events < self._n_events:","        if max_events and max_events <= self._n_events - 1 and max_events > 1:")
BUG("r2-c10-max2","C10",T,"        if max_events and max_events < self._n_events:","        if max_events:")
BUG("r2-c10-len","C10",WV,"    def __len__(self):\n        return self.n_events","    def __len__(self):\n        return self.max_events or self.n_events")
BUG("r2-c10-except","C10",WV,"            ev_list = [self[ii] for ii in iev]\n            return np.array(ev_list)\n        else","            ev_list = []\n            for ii in iev:\n                try:\n                    ev_list.append(self[ii])\n                except IndexError:\n                    continue\n            return np.array(ev_list)\n        else")
BUG("r2-c10-memo","C10",WV,"            return self._get_event(iev)\n        elif isinstance(iev, slice)","            if not hasattr(self, '_last'):\n                self._last = self._get_event(iev)\n            return self._last\n        elif isinstance(iev, slice)")
OK("r2-ok-c10","",WV,"            if iev < 0 or iev >= len(self):","            if not 0 <= iev < self.n_events:")
OK("r2-ok-c10b","",WV,"            ev_list = [self[ii] for ii in range(*iev.indices(self.n_events))]\n","            start, stop, step = iev.indices(len(self))\n            ev_list = []\n            for ii in range(start, stop, step):\n                ev_list.append(self[ii])\n")
OK("r2-ok-c10c","",T,"        if max_events and max_events < self._n_events:\n            self._n_events = max_events","        if max_events:\n            self._n_events = min(max_events, self._n_events)")
# ---- C11
BUG("r2-c11-gt","C11",T,"        if sp >= self.n_superpixels_per_module:\n            raise IndexError(\"Requested SP out of range: {}\".format(sp))\n        return self._reader.GetSPHVON(tm, sp)","        if sp >= self.n_superpixels_per_module * self.n_modules:\n            raise IndexError(\"Requested SP out of range: {}\".format(sp))\n        return self._reader.GetSPHVON(tm, sp)")
BUG("r2-c11-swap","C11",T,"GetSPDAC(tm, sp)","GetSPDAC(sp, tm)")
BUG("r2-c11-wrong","C11",T,"return self._reader.GetSiPMTemp(tm)","return self._reader.GetPrimaryTemp(tm)")
BUG("r2-c11-fmt","C11",DL,"""'dac')[f"TM{tm:02}_SP{sp:02}"]""","""'dac')[f"TM{tm:02}_SP{sp:2}"]""")
BUG("r2-c11-get","C11",DL,"""'sn')[f"TM{tm:02}"]""","""'sn').get(f"TM{tm:02}", 0)""") if False else None
BUG("r2-c11-hv","C11",DL,"""'hvon')[f""","""'dac')[f""")
BUG("r2-c11-key","C11",DL,"        if tm >= self.n_modules:\n            raise IndexError(\"Requested TM out of range: {}\".format(tm))\n        return self.get_metadata('data', 'sipm_temp')","        if tm >= self.n_modules:\n            raise KeyError(\"Requested TM out of range: {}\".format(tm))\n        return self.get_metadata('data', 'sipm_temp')")
BUG("r2-c11-and","C11",DL,"        if tm >= self.n_modules:\n            raise IndexError(\"Requested TM out of range: {}\".format(tm))\n        if sp >= self.n_superpixels_per_module:\n            raise IndexError(\"Requested SP out of range: {}\".format(sp))\n        return self.get_metadata('data', 'hvon')","        if tm >= self.n_modules and sp >= self.n_superpixels_per_module:\n            raise IndexError(\"Requested SP out of range: {}\".format(sp))\n        return self.get_metadata('data', 'hvon')")
BUG("r2-c11-lookup-first","C11",DL,"        if tm >= self.n_modules:\n            raise IndexError(\"Requested TM out of range: {}\".format(tm))\n        return self.get_metadata('data', 'sn')[f\"TM{tm:02}\"]","        sn = self.get_metadata('data', 'sn')[f\"TM{tm:02}\"]\n        if tm >= self.n_modules:\n            raise IndexError(\"Requested TM out of range: {}\".format(tm))\n        return sn")
BUG("r2-c11-cache","C11",T,"        return self._reader.GetSN(tm)","        if not hasattr(self, '_sn'):\n            self._sn = self._reader.GetSN(tm)\n        return self._sn")
BUG("r2-c11-store","C11",X,"self.dac[tm_sp_str] = self.reader.get_sp_dac(tm, sp)","self.dac[tm_sp_str] = self.reader.get_sp_dac(tm, sp - sp % 2)") if False else None
OK("r2-ok-c11","",T,"        if tm >= self.n_modules:\n            raise IndexError(\"Requested TM out of range: {}\".format(tm))\n        return self._reader.GetSN(tm)","        self._check(tm)\n        return self._reader.GetSN(tm)\n\n    def _check(self, tm):\n        if not tm < self.n_modules:\n            raise IndexError(\"Requested TM out of range: {}\".format(tm))")
OK("r2-ok-c11b","",DL,"""        return self.get_metadata('data', 'sn')[f"TM{tm:02}"]""","""        return self.get_metadata(name='sn')["TM" + str(tm).zfill(2)]""")
# ---- C13
BUG("r2-c13-shallow","C13",HA,"d = {**getattr(attrs, name), **d}","d = {**d, **getattr(attrs, name)}")
BUG("r2-c13-over","C13",HA,"                if hasattr(attrs, name):","                if name == 'metadata' and hasattr(attrs, name):")
BUG("r2-c13-w","C13",HA,"mode='r+'","mode='a'") if False else None
BUG("r2-c13-mode","C13",HA,"mode='r+'","mode='w'")
BUG("r2-c13-bytes","C13",HA,"            self.n_bytes[key] = self.get_n_bytes(key)","            self.n_bytes[key] = 0")
BUG("r2-c13-store","C13",HA,"            if key not in self.store:\n                self.store[key] = pd.DataFrame()","            if key not in self.keys:\n                self.store[key] = pd.DataFrame()")
BUG("r2-c13-total","C13",HA,"total_bytes=sum(self.n_bytes.values())","total_bytes=sum(self.n_bytes[k] for k in self.keys)")
BUG("r2-c13-missing","C13",HA,"        for key in self.dataframe_keys:\n            self.n_bytes[key] = self.get_n_bytes(key)\n","        for key in self.dataframe_keys[:1]:\n            self.n_bytes[key] = self.get_n_bytes(key)\n")
BUG("r2-c13-reset","C13",HW,"            self.n_bytes[key] += df.memory_usage(index=True, deep=True).sum()","            self.n_bytes[key] = df.memory_usage(index=True, deep=True).sum()")
BUG("r2-c13-put","C13",HW,"            self.store.append(key, df, **kwargs)","            self.store.append(key, df, append=False, **kwargs)")
BUG("r2-c13-nobytes","C13",HA,"            self.add_metadata(key=key, n_bytes=self.n_bytes[key])\n","")
OK("r2-ok-c13","",HA,"                    if isinstance(old_d, dict):\n                        d = {**getattr(attrs, name), **d}","                    if isinstance(old_d, dict):\n                        merged = dict(old_d)\n                        merged.update(d)\n                        d = merged")
# ---- C14
BUG("r2-c14-mode","C14",H,"mode='r'","mode='a'")
BUG("r2-c14-after","C14",H,"        return self.store[key]\n\n    def get_mapping","        return df\n\n    def get_mapping","        n_bytes = self.get_n_bytes(key)\n        if (n_bytes","        df = self.store[key]\n        n_bytes = self.get_n_bytes(key)\n        if (n_bytes")
BUG("r2-c14-or","C14",H,"(n_bytes > 8E9) and not force","(n_bytes > 8E9) and force is None")
BUG("r2-c14-gib","C14",H,"(n_bytes > 8E9) and not force","(n_bytes > 8 * 1024**3) and not force")
BUG("r2-c14-exit","C14",H,"    def __exit__(self, exc_type, exc_val, exc_tb):\n        self.store.close()","    def __exit__(self, exc_type, exc_val, exc_tb):\n        if exc_type is None:\n            self.store.close()")
BUG("r2-c14-flush","C14",H,"    def __exit__(self, exc_type, exc_val, exc_tb):\n        self.store.close()","    def __exit__(self, exc_type, exc_val, exc_tb):\n        self.store.flush()")
BUG("r2-c14-chunkfirst","C14",H,"        for df in self.store.select(key, chunksize=chunksize, **kwargs):\n            yield df","        for df in self.store.select(key, chunksize=chunksize, **kwargs):\n            if len(df) < chunksize:\n                return\n            yield df")
BUG("r2-c14-zero","C14",H,"        if not chunksize:\n","        if chunksize is None:\n            chunksize = int(self.get_n_rows(key) / self.get_n_bytes(key) * 2E9)\n        elif chunksize == 0:\n")
BUG("r2-c14-metakey","C14",H,"        elif name not in self.metadata_keys[key]:","        elif name not in self.metadata_keys['data']:")
BUG("r2-c14-name","C14",H,"        return getattr(self.store.get_storer(key).attrs, name)","        return getattr(self.store.get_storer('data').attrs, name)")
BUG("r2-c14-load","C14",DL,"return self.read('data', force=force)","return self.read('data', force=True)")
BUG("r2-c14-dl1","C14",DL,"return self.read('data', force=force)","return self.store['data']")
OK("r2-ok-c14","",H,"        n_bytes = self.get_n_bytes(key)\n        if (n_bytes > 8E9) and not force:\n","        limit = 8E9\n        n_bytes = self.get_n_bytes(key)\n        if not force and n_bytes > limit:\n")
# ---- C15
BUG("r2-c15-lookup","C15",DL,"[:, 0]\n        return self._event_lookup","[:, 0]\n            self._event_lookup = np.sort(self._event_lookup)\n        return self._event_lookup")
BUG("r2-c15-unique","C15",DL,"            self._event_lookup = self.store.select_column(\n                'data', 'iev'\n            ).values.reshape((self.n_events, self.n_pixels))[:, 0]","            self._event_lookup = self.store.select_column(\n                'data', 'iev'\n            ).unique()") if False else None
BUG("r2-c15-order","C15",DL,"reshape((self.n_events, self.n_pixels))[:, 0]","reshape((self.n_pixels, self.n_events))[0]")
BUG("r2-c15-class","C15",DL,"        self._event_lookup = None\n","", "class DL1Reader(HDF5Reader):\n","class DL1Reader(HDF5Reader):\n    _event_lookup = None\n\n", "            self._event_lookup = self.store","            DL1Reader._event_lookup = self.store")
BUG("r2-c15-inc","C15",DL,"        stop = (index + 1) * self.n_pixels\n","        stop = (index + 1) * self.n_pixels - 1\n")
BUG("r2-c15-search","C15",DL,"            index = np.where(self.event_lookup == iev)[0][0]","            index = np.searchsorted(self.event_lookup, iev)")
BUG("r2-c15-where","C15",DL,"            index = np.where(self.event_lookup == iev)[0][0]","            index = np.where(self.event_lookup >= iev)[0][0]")
BUG("r2-c15-key","C15",DL,"            raise IndexError(f\"No event with iev=={iev} in DL1 file\")","            return None")
BUG("r2-c15-iter","C15",DL,"        for index in range(self.n_events):\n            yield","        for index in range(1, self.n_events):\n            yield")
BUG("r2-c15-iev","C15",DL,"            yield self.select_event_index(index)","            yield self[index]")
OK("r2-ok-c15","",DL,"        start = index * self.n_pixels\n        stop = (index + 1) * self.n_pixels\n","        n_pixels = self.n_pixels\n        start = index * n_pixels\n        stop = start + n_pixels\n")
OK("r2-ok-c15b","",DL,"        try:\n            index = np.where(self.event_lookup == iev)[0][0]\n        except IndexError:\n            raise IndexError(f\"No event with iev=={iev} in DL1 file\")\n","        matches = np.where(self.event_lookup == iev)[0]\n        if len(matches) == 0:\n            raise IndexError(f\"No event with iev=={iev} in DL1 file\")\n        index = matches[0]\n")
# ---- C16
BUG("r2-c16-and","C16",X,"waveforms.stale or waveforms.missing_packets","waveforms.stale and waveforms.missing_packets")
BUG("r2-c16-only","C16",X,"return waveforms.stale or waveforms.missing_packets","return bool(waveforms.stale)")
BUG("r2-c16-start","C16",X,"                if start_time is None:\n                    start_time = waveforms.t_cpu\n","                start_time = waveforms.t_cpu\n")
BUG("r2-c16-falsy","C16",X,"                if start_time is None:\n                    start_time = waveforms.t_cpu\n","                if n_events_processed == 1:\n                    start_time = waveforms.t_cpu\n")
BUG("r2-c16-endskip","C16",X,"                if dl1_extractor.skip_event(waveforms):\n                    n_events_skipped += 1\n                    continue\n\n                end_time = waveforms.t_cpu\n","                end_time = waveforms.t_cpu\n                if dl1_extractor.skip_event(waveforms):\n                    n_events_skipped += 1\n                    continue\n\n")
BUG("r2-c16-real","C16",X,"os.path.realpath(output_path) == os.path.realpath(reader.path)","output_path == reader.path")
BUG("r2-c16-abs","C16",X,"os.path.realpath(output_path) == os.path.realpath(reader.path)","os.path.abspath(output_path) == os.path.abspath(reader.path)")
BUG("r2-c16-count","C16",X,"meta['n_events'] = n_events_processed","meta['n_events'] = reader.n_events")
BUG("r2-c16-mutable","C16",X,"    def write_dl1_file(cls, reader, dl1_extractor, output_path=None):","    def write_dl1_file(cls, reader, dl1_extractor, output_path=None, counts=[0, 0]):","            n_events_skipped = 0\n","","n_events_skipped += 1","counts[1] += 1","meta['n_skipped'] = n_events_skipped","meta['n_skipped'] = counts[1]")
BUG("r2-c16-try","C16",X,"                dl1 = dl1_extractor(waveforms)\n","                try:\n                    dl1 = dl1_extractor(waveforms)\n                except ValueError:\n                    continue\n")
BUG("r2-c16-break","C16",X,"                n_events_processed += 1\n","                n_events_processed += 1\n                if n_events_processed >= reader.n_events:\n                    break\n")
BUG("r2-c16-out","C16",X,"    if n_files > 1 and args.output_path:\n","    if n_files > 2 and args.output_path:\n")
BUG("r2-c16-dropdup","C16",X,"            df = df.sort_values([\"iev\", \"pixel\"])","            df = df.sort_values([\"iev\", \"pixel\"]).drop_duplicates(['iev'])")
BUG("r2-c16-dropna","C16",X,"        return df\n\n    @classmethod\n    def write_dl1","        return df.dropna()\n\n    @classmethod\n    def write_dl1")
BUG("r2-c16-keep","C16",X,"        for i_path, input_path","        for i_path, input_path") if False else None
BUG("r2-c16-argo","C16",X,"        DL1Writer.write_dl1_file(reader, dl1_extractor, args.output_path)","        if args.output_path is None:\n            args.output_path = input_path.replace('_r1.tio', '_dl1.h5')\n        DL1Writer.write_dl1_file(reader, dl1_extractor, args.output_path)")
BUG("r2-c16-ordermc","C16",X,"                writer.append(\n                    pd.DataFrame(dl1), key='data',","                writer.append(\n                    pd.DataFrame(dl1).iloc[1:], key='data',")
BUG("r2-c16-metaextr","C16",X,"            meta = dl1_extractor.metadata\n","            meta = dl1_extractor.metadata\n            meta['n_skipped'] = reader.n_events - n_events_processed\n","            meta['n_skipped'] = n_events_skipped\n","") if False else None
OK("r2-ok-c16","",X,"                if start_time is None:\n                    start_time = waveforms.t_cpu\n","                if n_events_processed == 0:\n                    start_time = end_time\n")
OK("r2-ok-c16b","",X,"            meta['n_events'] = n_events_processed\n            meta['n_skipped'] = n_events_skipped\n            meta['start_time'] = start_time\n            meta['end_time'] = end_time\n","            meta.update(n_events=n_events_processed, n_skipped=n_events_skipped,\n                        start_time=start_time, end_time=end_time)\n")
OK("r2-ok-c16c","",X,"        if os.path.realpath(output_path) == os.path.realpath(reader.path):\n","        same = os.path.realpath(reader.path) == os.path.realpath(output_path)\n        if same:\n")
# ---- C21
BUG("r2-c21-range","C21",SF,"range=self.range,\n            initial=initial","range=[int(r) for r in self.range],\n            initial=initial")
BUG("r2-c21-round","C21",SF,"initial[param.name] = param.initial","initial[param.name] = round(param.initial, 3)")
BUG("r2-c21-onlyfree","C21",SF,"            initial[param.name] = param.initial\n","            if param.fixed:\n                continue\n            initial[param.name] = param.initial\n")
BUG("r2-c21-none","C21",SF,"                    param.fixed = d['fixed'].pop(param.name, param.fixed)","                    param.fixed = d['fixed'].pop(param.name, False)")
BUG("r2-c21-or","C21",SF,"param.initial = d['initial'].pop(param.name, param.initial)","param.initial = d['initial'].pop(param.name, None) or param.initial")
BUG("r2-c21-noupd","C20",SF,"            self.parameters.update(self.parameters)\n            if 'initial' in d and","            if 'initial' in d and")
BUG("r2-c21-sorted","C21",SF,"limits[param.name] = list(param.limits)","limits[param.name] = sorted(param.limits, key=abs)")
BUG("r2-c21-nbins","C21",SF,"self.n_bins = d.pop('n_bins', self.n_bins)","self.n_bins = d.pop('n_bins', 100)")
BUG("r2-c21-append","C21",SF,"with open(path, 'w') as outfile","with open(path, 'a') as outfile")
BUG("r2-c21-mut","C21",SF,"            limits[param.name] = list(param.limits)\n","            param.limits = list(param.limits)\n            limits[param.name] = param.limits\n")
BUG("r2-c21-break","C21",SF,"                if 'limits' in d:\n","                if 'initial' not in d:\n                    break\n                if 'limits' in d:\n")
BUG("r2-c21-elif","C21",SF,"                if 'limits' in d:\n                    param","                elif 'limits' in d:\n                    param")
OK("r2-ok-c21","",SF,"                    param.fixed = d['fixed'].pop(param.name, param.fixed)","                    if param.name in d['fixed']:\n                        param.fixed = d['fixed'].pop(param.name)")
BUG("r2-c15-wsort","C15",X,'df = df.sort_values(["iev", "pixel"])','df = df.sort_values(["pixel", "iev"])')
BUG("r2-c15-wsort2","C15",X,'df = df.sort_values(["iev", "pixel"])','df = df.sort_values("iev")')
OK("r2-ok-c15c","C15 C16",X,'df = df.sort_values(["iev", "pixel"])','keys = ["iev", "pixel"]\n            df = df.sort_values(by=keys, kind="stable")')
