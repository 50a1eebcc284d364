XD="scripts/extract_dl1.py"
BUG("c39-nocal","C39",XD,"            waveforms_tc = self.time_calibrator(waveforms)\n","            waveforms_tc = waveforms\n")
BUG("c39-mccal","C39",XD,"        if not self.reader.is_mc:\n","        if self.reader.is_mc:\n")
BUG("c39-nosub","C39",XD,"**self.chain.process(waveforms_bs)","**self.chain.process(waveforms_tc)")
BUG("c39-subraw","C39",XD,"self.baseline_subtractor.subtract(waveforms_tc)","self.baseline_subtractor.subtract(waveforms)")
BUG("c39-order","C39",XD,"        waveforms_bs = self.baseline_subtractor.subtract(waveforms_tc)\n        bs = self.baseline_subtractor.baseline\n","        bs = self.baseline_subtractor.baseline\n        waveforms_bs = self.baseline_subtractor.subtract(waveforms_tc)\n")
BUG("c39-perevent","C39",XD,"        waveforms_bs = self.baseline_subtractor.subtract(waveforms_tc)\n        bs = self.baseline_subtractor.baseline\n","        subtractor = BaselineSubtractor(self.reader)\n        waveforms_bs = subtractor.subtract(waveforms_tc)\n        bs = subtractor.baseline\n")
BUG("c39-tack","C39",XD,"            t_tack=waveforms.t_tack,","            t_tack=waveforms.t_cpu,")
BUG("c39-cell","C39",XD,"            first_cell_id=waveforms.first_cell_id,\n","")
BUG("c39-pixel","C39",XD,"self.pixel_array = np.arange(self.reader.n_pixels)","self.pixel_array = np.arange(1, self.reader.n_pixels + 1)")
BUG("c39-true","C39",XD,"        if waveforms.mc_true is not None:\n            params['mc_true'] = waveforms.mc_true\n","")
BUG("c39-truth2","C39",XD,"        if waveforms.mc_true is not None:","        if waveforms.mc_true is None:")
BUG("c39-samples","C39",XD,"            n_samples=self.reader.n_samples,\n            mapping","            n_samples=self.reader.n_pixels,\n            mapping")
BUG("c39-config","C39",XD,"            config_path=config_path,\n","            config_path=None,\n")
BUG("c39-pulse","C39",XD,"            reference_pulse_path=self.reader.reference_pulse_path,\n","")
BUG("c39-mc","C39",XD,"                    writer.append(\n                        pd.DataFrame([reader.mc]), key='mc',\n                        expectedrows=reader.n_events\n                    )\n","")
BUG("c39-point","C39",XD,"pd.DataFrame([reader.pointing])","pd.DataFrame([reader.mc])")
BUG("c39-header","C39",XD,"            if reader.is_mc:\n                add_meta(key='mc'","            if not reader.is_mc:\n                add_meta(key='mc'")
BUG("c39-cfgmeta","C39",XD,"add_meta(name='config', **dl1_extractor.config)","add_meta(name='config')")
BUG("c39-hv","C39",XD,"add_meta(name='hvon', **dl1_extractor.hvon)","add_meta(name='hvon', **dl1_extractor.dac)")
BUG("c39-type","C39",XD,"df['iev'].astype(np.uint32)","df['iev'].astype(np.uint16)")
BUG("c39-tacktype","C39",XD,"df['t_tack'].astype(np.uint64)","df['t_tack'].astype(np.uint32)")
BUG("c39-copycol","C39",XD,"df['first_cell_id'] = df['first_cell_id'].astype","df['first_cell_id'] = df['pixel'].astype")
OK("ok-c39-a","",XD,"        waveforms_tc = waveforms\n        if self.time_calibrator is not None:\n            waveforms_tc = self.time_calibrator(waveforms)\n","        if self.time_calibrator is None:\n            waveforms_tc = waveforms\n        else:\n            waveforms_tc = self.time_calibrator(waveforms)\n")
OK("ok-c39-b","",XD,"        params = dict(\n            iev=waveforms.iev,","        reduced = self.chain.process(waveforms_bs)\n        params = dict(\n            iev=waveforms.iev,","            **self.chain.process(waveforms_bs),\n","            **reduced,\n")
OK("ok-c39-c","",XD,"            **self.chain.process(waveforms_bs),\n        )\n","        )\n        params.update(self.chain.process(waveforms_bs))\n")
OK("ok-c39-d","",XD,"        if not self.reader.is_mc:\n            self.time_calibrator = TimeCalibrator()\n","        self.time_calibrator = None if self.reader.is_mc else TimeCalibrator()\n")
OK("ok-c39-e","",XD,"        # Subtract waveform baselines per pixel\n        waveforms_bs = self.baseline_subtractor.subtract(waveforms_tc)\n        bs = self.baseline_subtractor.baseline\n","        waveforms_bs, bs = self._subtract(waveforms_tc)\n","    def __call__(self, waveforms):\n","    def _subtract(self, waveforms):\n        subtracted = self.baseline_subtractor.subtract(waveforms)\n        return subtracted, self.baseline_subtractor.baseline\n\n    def __call__(self, waveforms):\n")
OK("ok-c39-f","",XD,"        if waveforms.mc_true is not None:\n            params['mc_true'] = waveforms.mc_true\n","        mc_true = waveforms.mc_true\n        if mc_true is not None:\n            params.update(mc_true=mc_true)\n")
OK("ok-c39-g","",XD,"        self.chain = WaveformReducerChain(**self.reducer_kwargs)","        self.chain = WaveformReducerChain(\n            self.reader.n_pixels, self.reader.n_samples, config_path,\n            mapping=self.reader.mapping,\n            reference_pulse_path=self.reader.reference_pulse_path)")
OK("ok-c39-h","",XD,"            add_meta(name='config', **dl1_extractor.config)\n            add_meta(name='sn', **dl1_extractor.sn)\n            add_meta(name='sipm_temp', **dl1_extractor.sipm_temp)\n            add_meta(name='primary_temp', **dl1_extractor.primary_temp)\n            add_meta(name='dac', **dl1_extractor.dac)\n            add_meta(name='hvon', **dl1_extractor.hvon)\n","            for name in ('config', 'sn', 'sipm_temp', 'primary_temp',\n                         'dac', 'hvon'):\n                add_meta(name=name, **getattr(dl1_extractor, name))\n")
OK("ok-c39-i","",XD,"        if 't_tack' in df.columns:\n            df['t_tack'] = df['t_tack'].astype(np.uint64)\n        if 'mc_true' in df.columns:\n            df['mc_true'] = df['mc_true'].astype(np.uint32)\n","        for name, dtype in (('t_tack', np.uint64), ('mc_true', np.uint32)):\n            if name in df.columns:\n                df[name] = df[name].astype(dtype)\n")
OK("ok-c39-j","",XD,"        self.pixel_array = np.arange(self.reader.n_pixels)\n","        n_pixels = self.reader.n_pixels\n        self.pixel_array = np.arange(n_pixels)\n")
OK("ok-c39-k","",XD,"                if reader.is_mc:\n                    writer.append(\n                        pd.DataFrame([reader.mc]), key='mc',\n                        expectedrows=reader.n_events\n                    )\n                    writer.append(\n                        pd.DataFrame([reader.pointing]), key='pointing',\n                        expectedrows=reader.n_events\n                    )\n","                if reader.is_mc:\n                    for name, row in (('mc', reader.mc), ('pointing', reader.pointing)):\n                        writer.append(\n                            pd.DataFrame([row]), key=name,\n                            expectedrows=reader.n_events\n                        )\n")
