T="core/io/tio.py"; D="core/io/dl1_reader.py"
G="        if tm >= self.n_modules:\n            raise IndexError(\"Requested TM out of range: {}\".format(tm))\n"
BUG("c11-gt", "C11", T, "if tm >= self.n_modules", "if tm > self.n_modules")
BUG("c11-noguard", "C11", D, G+"        return self.get_metadata('data', 'sipm_temp')", "        return self.get_metadata('data', 'sipm_temp')")
BUG("c11-sp-mod", "C11", D, "        if sp >= self.n_superpixels_per_module:", "        if sp >= self.n_modules:")
BUG("c11-and", "C11", T, G+"        if sp >= self.n_superpixels_per_module:\n", "        if tm >= self.n_modules and sp >= self.n_superpixels_per_module:\n")
BUG("c11-swap", "C11", T, "GetSPDAC(tm, sp)", "GetSPDAC(sp, tm)")
BUG("c11-wrong", "C11", T, "GetSPHVON(tm, sp)", "GetSPDAC(tm, sp)")
BUG("c11-fmt", "C11", D, "[f\"TM{tm:02}_SP{sp:02}\"]", "[f\"TM{tm:02}_SP{sp}\"]")
BUG("c11-name", "C11", D, "'primary_temp')[", "'sipm_temp')[")
BUG("c11-first", "C11", D, G+"        return self.get_metadata('data', 'sn')[f\"TM{tm:02}\"]", "        sn = self.get_metadata('data', 'sn')\n"+G+"        return sn[f\"TM{tm:02}\"]")
BUG("c11-store", "C11", "scripts/extract_dl1.py", "self.primary_temp[tm_str] = self.reader.get_primary_temp(tm)", "self.primary_temp[tm_str] = self.reader.get_primary_temp(0)")
BUG("c11-store-hvon", "C11", "scripts/extract_dl1.py", "range(self.reader.n_superpixels_per_module)", "range(self.reader.n_superpixels_per_module - 1)")
BUG("c11-store-name", "C11", "scripts/extract_dl1.py", "name='dac', **dl1_extractor.dac", "name='hvon_', **dl1_extractor.dac")
BUG("c11-keyerr", "C11", T, "raise IndexError(\"Requested SP", "raise ValueError(\"Requested SP")
BUG("c11-size", "C11", T, "self._reader.fNModules\n", "self._reader.fNPixels\n")
OK("ok-c11-helper", "", D, "    def get_sn(self, tm):\n", "    def _check(self, tm, sp=None):\n        if not tm < self.n_modules:\n            raise IndexError(f'Requested TM out of range: {tm}')\n        if sp is not None and sp >= self.n_superpixels_per_module:\n            raise IndexError('SP')\n\n    def get_sn(self, tm):\n", G+"        return self.get_metadata('data', 'sn')[f\"TM{tm:02}\"]", "        self._check(tm)\n        return self.get_metadata('data', 'sn')['TM%02d' % tm]", G+"        if sp >= self.n_superpixels_per_module:\n            raise IndexError(\"Requested SP out of range: {}\".format(sp))\n        return self.get_metadata('data', 'dac')", "        self._check(tm, sp)\n        return self.get_metadata('data', 'dac')")
OK("ok-c11-neg", "", T, "if tm >= self.n_modules", "if not 0 <= tm < self.n_modules")
OK("ok-c11-store", "", "scripts/extract_dl1.py", "            tm_str = f'TM{tm:02}'\n            self.sn[tm_str] = self.reader.get_sn(tm)\n", "            tm_str = 'TM{:02d}'.format(tm)\n            self.sn[tm_str] = self.reader.get_sn(tm)\n")
