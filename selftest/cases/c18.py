W="utils/waveform.py"; E="scripts/extract_dl1.py"
U="        entry = self.iev % self.n_base\n        self.baseline_waveforms[entry] = waveforms[:, :self.n_base_samples]\n        self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))\n        self.iev += 1\n"
def V(new): return (W, U, new)
BUG("c18-axis", "C18", W, U, U.replace("axis=(0, 2)", "axis=(0, 1)"))
BUG("c18-order", "C18", W, U, "        entry = self.iev % self.n_base\n        self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))\n        self.baseline_waveforms[entry] = waveforms[:, :self.n_base_samples]\n        self.iev += 1\n")
BUG("c18-nomod", "C18", W, U, U.replace("self.iev % self.n_base", "min(self.iev, self.n_base - 1)"))
BUG("c18-mod1", "C18", W, U, U.replace("self.iev % self.n_base", "self.iev % (self.n_base - 1)"))
BUG("c18-noadv", "C18", W, U, U.replace("        self.iev += 1\n", ""))
BUG("c18-adv2", "C18", W, U, U.replace("self.iev += 1", "self.iev += 2"))
BUG("c18-useiev", "C18", W, U, U.replace("self.iev % self.n_base", "waveforms.iev % self.n_base"))
BUG("c18-samples", "C18", W, U, U.replace("waveforms[:, :self.n_base_samples]", "waveforms[:, -self.n_base_samples:]"))
BUG("c18-samples2", "C18", W, U, U.replace("waveforms[:, :self.n_base_samples]", "waveforms[:, 1:self.n_base_samples + 1]"))
BUG("c18-start", "C18", W, "        self.iev = 0\n", "        self.iev = 1\n")
BUG("c18-pre", "C18", W, "            if iev >= n_base:", "            if iev >= n_base - 1:")
BUG("c18-pre2", "C18", W, "            if iev >= n_base:", "            if iev > n_base:")
BUG("c18-pre3", "C18", W, "self.baseline_waveforms[iev] = waveforms[:, :n_base_samples]", "self.baseline_waveforms[0] = waveforms[:, :n_base_samples]")
BUG("c18-pre4", "C18", W, "            self.baseline_waveforms[iev] = waveforms[:, :n_base_samples]\n", "            if waveforms.stale:\n                continue\n            self.baseline_waveforms[iev] = waveforms[:, :n_base_samples]\n")
BUG("c18-dtype", "C18", W, "np.zeros((n_base, n_pixels, n_base_samples))", "np.zeros((n_base, n_pixels, n_base_samples), dtype=np.int16)")
BUG("c18-bcast", "C18", W, "waveforms - self.baseline[:, None]", "waveforms - self.baseline.mean()")
BUG("c18-old", "C18", W, "        self.update_baseline(waveforms)\n        return waveforms - self.baseline[:, None]", "        result = waveforms - self.baseline[:, None]\n        self.update_baseline(waveforms)\n        return result")
BUG("c18-twice", "C18", E, "        bs = self.baseline_subtractor.baseline\n", "        self.baseline_subtractor.update_baseline(waveforms_tc)\n        bs = self.baseline_subtractor.baseline\n")
BUG("c18-early", "C18", E, "        waveforms_bs = self.baseline_subtractor.subtract(waveforms_tc)\n        bs = self.baseline_subtractor.baseline\n", "        bs = self.baseline_subtractor.baseline\n        waveforms_bs = self.baseline_subtractor.subtract(waveforms_tc)\n")
BUG("c18-stale", "C18", W, "        self.update_baseline(waveforms)\n", "        if not waveforms.stale:\n            self.update_baseline(waveforms)\n")
BUG("c18-loop", "C18", W, "    baseline_subtractor = BaselineSubtractor(source)\n\n    desc = \"Processing events\"\n    average_wf = np.zeros(n_samples)\n    n = 0\n    for waveforms in tqdm(source, total=n_events, desc=desc):\n", "    desc = \"Processing events\"\n    average_wf = np.zeros(n_samples)\n    n = 0\n    for waveforms in tqdm(source, total=n_events, desc=desc):\n        baseline_subtractor = BaselineSubtractor(source)\n")
OK("ok-c18-if", "", W, "            if iev >= n_base:\n                break\n            self.baseline_waveforms[iev] = waveforms[:, :n_base_samples]\n", "            if iev < n_base:\n                self.baseline_waveforms[iev] = waveforms[:, :n_base_samples]\n            else:\n                break\n")
OK("ok-c18-wrap", "", W, U, "        self.baseline_waveforms[self.iev] = waveforms[:, :self.n_base_samples]\n        self.baseline = self.baseline_waveforms.mean(axis=(0, 2))\n        self.iev = (self.iev + 1) % self.n_base\n")
OK("ok-c18-layout", "", W, U, "        entry = self.iev % self.n_base\n        self.baseline_waveforms[:, entry] = waveforms[:, :self.n_base_samples]\n        self.baseline = np.mean(self.baseline_waveforms, axis=(1, 2))\n        self.iev += 1\n", "            self.baseline_waveforms[iev] = waveforms", "            self.baseline_waveforms[:, iev] = waveforms", "np.zeros((n_base, n_pixels, n_base_samples))", "np.zeros((n_pixels, n_base, n_base_samples))", "        self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))\n\n", "        self.baseline = np.mean(self.baseline_waveforms, axis=(1, 2))\n\n")
OK("ok-c18-inline", "", W, "        self.update_baseline(waveforms)\n        return waveforms - self.baseline[:, None]", "        self.update_baseline(waveforms)\n        baseline = self.baseline[:, np.newaxis]\n        return np.subtract(waveforms, baseline)")
OK("ok-c18-slice", "", W, "        for waveforms in source:\n            iev = waveforms.iev\n            if iev >= n_base:\n                break\n            self", "        for iev, waveforms in enumerate(source):\n            if iev >= n_base:\n                break\n            self")
OK("ok-c18-names", "", W, "self.iev += 1", "self._count += 1", "self.iev = 0", "self._count = 0", "entry = self.iev %", "entry = self._count %")
OK("ok-c18-sum", "", W, "axis=(0, 2))\n        self.iev", "axis=2).mean(axis=0)\n        self.iev")
OK("ok-c18-ev", "", E, "        bs = self.baseline_subtractor.baseline\n", "", "baseline_subtracted=bs,", "baseline_subtracted=self.baseline_subtractor.baseline,")
