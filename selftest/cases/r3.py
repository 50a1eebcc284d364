UW="utils/waveform.py"; SF="core/spectrum_fitter.py"; HW="core/io/hdf5_writer.py"
ENTRY="        entry = self.iev % self.n_base\n"
# ---- C18
BUG("r3-c18-mod","C18",UW,ENTRY,"        entry = self.iev % (self.n_base - 1)\n")
BUG("r3-c18-iev","C18",UW,ENTRY,"        entry = waveforms.iev % self.n_base\n")
BUG("r3-c18-clip","C18",UW,ENTRY,"        entry = min(self.iev, self.n_base - 1)\n")
BUG("r3-c18-before","C18",UW,"        self.update_baseline(waveforms)\n        return waveforms - self.baseline[:, None]","        subtracted = waveforms - self.baseline[:, None]\n        self.update_baseline(waveforms)\n        return subtracted")
BUG("r3-c18-rare","C18",UW,"        self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))\n        self.iev += 1","        if entry == 0:\n            self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))\n        self.iev += 1")
BUG("r3-c18-order","C18",UW,ENTRY,"        self.iev += 1\n"+ENTRY,"axis=(0, 2))\n        self.iev += 1\n","axis=(0, 2))\n")
BUG("r3-c18-tail","C18",UW,"waveforms[:, :self.n_base_samples]","waveforms[:, -self.n_base_samples:]")
BUG("r3-c18-median","C18",UW,"        self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))\n        self.iev","        self.baseline = np.median(self.baseline_waveforms, axis=(0, 2))\n        self.iev")
BUG("r3-c18-axis","C18",UW,"        self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))\n        self.iev","        self.baseline = np.mean(self.baseline_waveforms[:self.iev + 1], axis=(0, 2))\n        self.iev")
BUG("r3-c18-twice","C18",UW,"        return waveforms - self.baseline[:, None]","        self.update_baseline(waveforms)\n        return waveforms - self.baseline[:, None]")
BUG("r3-c18-skipbad","C18",UW,"        self.update_baseline(waveforms)\n        return","        if waveforms[:, :self.n_base_samples].std() < 10:\n            self.update_baseline(waveforms)\n        return")
BUG("r3-c18-shared","C18",UW,"        self.baseline_waveforms = np.zeros((n_base, n_pixels, n_base_samples))\n        for","        cls = type(self)\n        if not hasattr(cls, '_buffer'):\n            cls._buffer = np.zeros((n_base, n_pixels, n_base_samples))\n        self.baseline_waveforms = cls._buffer\n        for")
BUG("r3-c18-int","C18",UW,"np.zeros((n_base, n_pixels, n_base_samples))","np.zeros((n_base, n_pixels, n_base_samples), dtype=np.int32)")
BUG("r3-c18-scalar","C18",UW,"        return waveforms - self.baseline[:, None]","        return waveforms - self.baseline.mean()")
BUG("r3-c18-transp","C18",UW,"        return waveforms - self.baseline[:, None]","        return waveforms - np.resize(self.baseline, waveforms.shape)")
OK("r3-ok-c18","",UW,ENTRY,"        n = self.n_base\n        entry = self.iev - n * (self.iev // n)\n") if False else None
OK("r3-ok-c18b","",UW,"        self.update_baseline(waveforms)\n        return waveforms - self.baseline[:, None]","        self.update_baseline(waveforms)\n        baseline = self.baseline[:, np.newaxis]\n        return waveforms - baseline")
OK("r3-ok-c18c","",UW,"        self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))\n        self.iev += 1","        self.iev += 1\n        self.baseline = self.baseline_waveforms.mean(axis=(0, 2))")
# ---- C19
SH="                for i in range(self.n_illuminations):\n                    self.lookup[i][param.name] = lookup_i\n                lookup_i += 1\n"
BUG("r3-c19-shared","C19",SF,SH,SH.replace("                lookup_i += 1","                    lookup_i += 1"))
BUG("r3-c19-alias","C19",SF,"[dict() for _ in range(self.n_illuminations)]","[dict()] * self.n_illuminations")
BUG("r3-c19-fixed","C19",SF,"            if not param.multi:\n                name","            if param.fixed and self.n_illuminations > 1:\n                continue\n            if not param.multi:\n                name")
BUG("r3-c19-sorted","C20",SF,"forced_parameters=self.parameters.parameter_names","forced_parameters=sorted(self.parameters.parameter_names)")
BUG("r3-c19-multifirst","C19",SF,"        for param in self.spectrum_parameter_list:\n            if not param.multi:\n                name","        for param in sorted(self.spectrum_parameter_list, key=lambda p: p.multi):\n            if not param.multi:\n                name") if False else None
BUG("r3-c19-typed","C19",SF,"            for i in range(self.n_illuminations):\n                self._lookup_typed.append","            for i in range(1):\n                self._lookup_typed.append")
BUG("r3-c19-fix0","C19",SF,'                    self.minuit_kwargs["fix_" + name] = param.fixed\n                    self.lookup','                    self.minuit_kwargs["fix_" + param.name] = param.fixed\n                    self.lookup')
BUG("r3-c19-set","C19",SF,"            if not param.multi:\n                name","            if param.name in self.minuit_kwargs:\n                continue\n            if not param.multi:\n                name") if False else None
BUG("r3-c19-reset","C20",SF,"        self.parameter_names = []\n        self.minuit_kwargs = {}","        self.parameter_names = getattr(self, 'parameter_names', [])\n        self.minuit_kwargs = {}")
OK("r3-ok-c19","",SF,SH,"                for entry in self.lookup:\n                    entry[name] = lookup_i\n                lookup_i += 1\n")
OK("r3-ok-c19b","",SF,"                    name = param.name + str(i)\n","                    name = f'{param.name}{i}'\n")
OK("r3-ok-c19c","",SF,SH,"                lookup_i = len(self.parameter_names) - 1\n                for i in range(self.n_illuminations):\n                    self.lookup[i][param.name] = lookup_i\n                lookup_i += 1\n")
# ---- C20
BUG("r3-c20-cachemin","C20",SF,"        m0 = iminuit.Minuit(\n            self._minimize_function, **self.parameters.minuit_kwargs,","        if not hasattr(self, '_kwargs'):\n            self._kwargs = dict(self.parameters.minuit_kwargs)\n        m0 = iminuit.Minuit(\n            self._minimize_function, **self._kwargs,")
BUG("r3-c20-first","C20",SF,"            for param in self.parameters:\n                if 'initial' in d:","            self.parameters.update(self.parameters)\n            for param in self.parameters:\n                if 'initial' in d:","                    param.fixed = d['fixed'].pop(param.name, param.fixed)\n            self.parameters.update(self.parameters)\n","                    param.fixed = d['fixed'].pop(param.name, param.fixed)\n")
BUG("r3-c20-adopt","C20",SF,"                param.initial = self.fit_result_values[param.name]\n        self.parameters.update(self.parameters)\n","                param.initial = self.fit_result_values[param.name]\n")
BUG("r3-c20-update","C20",SF,"            getattr(self, param.name).limits = param.limits\n","")
BUG("r3-c20-ifchanged","C20",SF,"            getattr(self, param.name).initial = param.initial\n","            if param.initial:\n                getattr(self, param.name).initial = param.initial\n")
BUG("r3-c20-prepnew","C20",SF,"            getattr(self, param.name).multi = param.multi\n\n        self._prepare_parameters()","            if getattr(self, param.name).multi != param.multi:\n                getattr(self, param.name).multi = param.multi\n                self._prepare_parameters()")
BUG("r3-c20-setdefault","C20",SF,"                self.minuit_kwargs[name] = param.initial\n                self.minuit_kwargs[\"limit_","                self.minuit_kwargs.setdefault(name, param.initial)\n                self.minuit_kwargs[\"limit_","        self.minuit_kwargs = {}\n        self._lookup","        self.minuit_kwargs = getattr(self, 'minuit_kwargs', {})\n        self._lookup")
BUG("r3-c20-early","C21",SF,"            if d is None:\n                return","            if d is None or 'initial' not in d:\n                return")
OK("r3-ok-c20","",SF,"            getattr(self, param.name).initial = param.initial\n            getattr(self, param.name).limits = param.limits\n            getattr(self, param.name).fixed = param.fixed\n","            own = getattr(self, param.name)\n            own.initial = param.initial\n            own.limits = param.limits\n            own.fixed = param.fixed\n")
# ---- C12
BUG("r3-c12-class","C12",HW,"class HDF5Writer:\n","class HDF5Writer:\n    df_list = defaultdict(list)\n\n","        self.df_list = defaultdict(list)\n","")
BUG("r3-c12-all","C12",HW,"            self.df_list[key] = []\n","            self.df_list = defaultdict(list)\n")
BUG("r3-c12-skipfin","C12",HW,"            self._append_to_store(key)\n            self.add","            if self.n_bytes[key]:\n                self._append_to_store(key)\n            self.add")
BUG("r3-c12-exit","C12",HW,"    def __exit__(self, exc_type, exc_val, exc_tb):\n        self.finish()","    def __exit__(self, exc_type, exc_val, exc_tb):\n        if exc_type is None:\n            self.finish()")
BUG("r3-c12-shared","C12",HW,"        self.metadata = defaultdict(lambda: defaultdict(dict))","        shared = {}\n        self.metadata = defaultdict(lambda: defaultdict(lambda: shared))")
BUG("r3-c12-hasattr","C12",HW,"                setattr(attrs, name, d)","                if not hasattr(attrs, name):\n                    setattr(attrs, name, d)")
BUG("r3-c12-conc","C12",HW,"pd.concat(self.df_list[key], ignore_index=True)","pd.concat(self.df_list[key][::-1], ignore_index=True)")
BUG("r3-c12-exprow","C12",HW,"            self.store.append(key, df, **kwargs)","            self.store.append(key, df[:expectedrows], **kwargs)")
BUG("r3-c12-mapmeta","C12",HW,"        self.store.get_storer('mapping').attrs.metadata = mapping.metadata\n","")
BUG("r3-c12-lasttable","C12",HW,"        self.keys.add(key)\n        self.df_list[key].append(df)","        self.keys = {key}\n        self.df_list[key].append(df)")
BUG("r3-c12-total","C12",HW,"        self.add_metadata(\n            total_bytes=total_bytes,\n            version=__version__,\n        )\n        self._save_metadata()","        self._save_metadata()\n        self.add_metadata(\n            total_bytes=total_bytes,\n            version=__version__,\n        )")
OK("r3-ok-c12","",HW,"        self.df_list[key].append(df)\n        memory_usage","        frames = self.df_list[key]\n        frames.append(df)\n        memory_usage")
OK("r3-ok-c12b","",HW,"            for name, d in submeta.items():\n                setattr(attrs, name, d)","            for name in submeta:\n                setattr(attrs, name, submeta[name])")
OK("r3-ok-c12c","",HW,"        if self.df_list[key]:\n            df = pd","        if len(self.df_list[key]) > 0:\n            df = pd")
OK("r3-ok-c12d","",HW,"            if key not in self.store:\n                self.store[key] = pd.DataFrame()\n","            missing = key not in self.store\n            if missing:\n                self.store.put(key, pd.DataFrame())\n")
