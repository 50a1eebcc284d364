IP="calib/illumination_profile.py"
AC="calib/amplitude_calibrator.py"
DS="calib/sipm_data_sheet.py"
PM="calib/pixel_masks.py"
TC="calib/time_calibrator.py"
FI="utils/files.py"
MA="utils/mapping.py"
BUG("c37-unfold","C37",IP,"return image / self.profile","return image * self.profile")
BUG("c37-fold","C37",IP,"return image * self.profile","return image / self.profile")
BUG("c37-fold-mean","C37",IP,"return image * self.profile","return image * self.profile / self.profile.mean()")
BUG("c37-amp-order","C37",AC,"        return ((values - self.pedestal[pixels]) /\n                self.conversion * self.ff[pixels])","        return (values / self.conversion * self.ff[pixels] -\n                self.pedestal[pixels])")
BUG("c37-amp-ff","C37",AC,"self.conversion * self.ff[pixels])","(self.conversion * self.ff[pixels]))")
BUG("c37-amp-pix","C37",AC,"self.pedestal[pixels]","self.pedestal")
BUG("c37-amp-init","C37",AC,"        self.pedestal = pedestal","        self.pedestal = ff")
BUG("c37-ds-count","C37",DS,"if n_set != 1:","if n_set < 1:")
BUG("c37-ds-zero","C37",DS,"if n_set != 1:","if n_set > 1:")
BUG("c37-ds-truthy","C37",DS,"n_set = sum(x is not None for x in values.values())","n_set = sum(bool(x) for x in values.values())")
BUG("c37-ds-col","C37",DS,"x = self.df[key].values","x = self.df['vover'].values")
BUG("c37-ds-self","C37",DS,"interp1d(x, self.df[column].values)","interp1d(self.df[column].values, x)")
BUG("c37-ds-same","C37",DS,"f = interp1d(x, self.df[column].values)","f = interp1d(x, self.df[key].values)")
BUG("c37-sp-8","C37",PM,"np.repeat(superpixel_list, 4)\n        pixels = superpixels * 4","np.repeat(superpixel_list, 4)\n        pixels = superpixels * 8")
BUG("c37-sp-div","C37",PM,"np.arange(superpixels.size) % 4","np.arange(superpixels.size) // 4")
BUG("c37-sp-mod","C37",PM,"np.arange(modules.size) % 64","np.arange(modules.size) % 32")
BUG("c37-sp-rep","C37",PM,"np.repeat(module_list, 64)","np.repeat(module_list, 32)")
BUG("c37-sp-nomod","C37",PM,"np.arange(superpixels.size) % 4","np.arange(superpixels.size)")
BUG("c37-tc-sign","C37",TC,"x = isample - correction","x = isample + correction")
BUG("c37-tc-pix","C37",TC,"correction = t_cor[ipix]","correction = t_cor[0]")
BUG("c37-tc-weights","C37",TC,"y1 + (y2 - y1) * (x - x1) / (x2 - x1)","y2 + (y1 - y2) * (x - x1) / (x2 - x1)")
BUG("c37-tc-noweight","C37",TC,"y1 + (y2 - y1) * (x - x1) / (x2 - x1)","(y1 + y2) / 2")
BUG("c37-tc-gap","C37",TC,"            x2 = x1 + 1\n            if","            x2 = x1 + 2\n            if")
BUG("c37-tc-clamp","C37",TC,"            if x1 < 0:","            if x1 < 3:")
BUG("c37-tc-clamp2","C37",TC,"elif x2 >= n_samples:","elif x2 >= n_samples - 4:")
BUG("c37-tc-chain","C37",TC,"            y1 = waveforms[ipix, x1]\n            y2 = waveforms[ipix, x2]\n","            y1 = waveforms[ipix, x1]\n            y2 = waveforms[0, x2]\n")
BUG("c37-hv-swap","C37",FI,"            if 'HVOn' in line:\n                pattern = pattern_hvon\n                value_array = hvon\n            else:\n                pattern = pattern_dac\n                value_array = dac","            if 'HVOn' in line:\n                pattern = pattern_hvon\n                value_array = dac\n            else:\n                pattern = pattern_dac\n                value_array = hvon")
BUG("c37-hv-ret","C37",FI,"return dac, hvon","return hvon, dac")
BUG("c37-hv-groups","C37",FI,"            tm = int(reg_exp.group(1))\n                sp = int(reg_exp.group(2))".replace("            tm","tm"),"tm = int(reg_exp.group(2))\n                sp = int(reg_exp.group(1))")
BUG("c37-hv-digits","C37",FI,'re.compile(r"M:(\\d+)/F/S:(\\d+)\\|HV=(\\d+)")','re.compile(r"M:(\\d)/F/S:(\\d+)\\|HV=(\\d+)")')
BUG("c37-nat","C37",FI,"    return [atoi(c) for c in re.split('(\\d+)', text)]","    return [c for c in re.split('(\\d+)', text)]")
BUG("c37-nat2","C37",FI,"re.split('(\\d+)', text)","re.split('(\\d)', text)")
BUG("c37-nat3","C37",FI,"re.split('(\\d+)', text)","re.split('\\d+', text)")
BUG("c37-sort","C37",FI,"file_list.sort(key=natural_keys)","file_list.sort()")
BUG("c37-sort-rev","C37",FI,"file_list.sort(key=natural_keys)","file_list.sort(key=natural_keys, reverse=True)")

OK("c37-ok-fold","",IP,"return image * self.profile","folded = self.profile * image\n        return folded")
OK("c37-ok-amp","",AC,"        return ((values - self.pedestal[pixels]) /\n                self.conversion * self.ff[pixels])","        pedestal = self.pedestal[pixels]\n        scale = self.ff[pixels] / self.conversion\n        return scale * (values - pedestal)")
OK("c37-ok-ds","",DS,"        n_set = sum(x is not None for x in values.values())\n        if n_set != 1:","        n_set = len([x for x in values.values() if x is not None])\n        if not n_set == 1:")
OK("c37-ok-ds2","",DS,"        for key, value in values.items():\n            if value is not None:\n                interpolated = dict()\n                x = self.df[key].values\n\n                for column in self.df.columns:\n                    f = interp1d(x, self.df[column].values)\n                    interpolated[column] = f(value)\n                return interpolated","        for key, value in values.items():\n            if value is None:\n                continue\n            x = self.df[key].values\n            return {\n                column: interp1d(x, self.df[column].values)(value)\n                for column in self.df.columns\n            }")
OK("c37-ok-ds3","",DS,"        for key, value in values.items():\n            if value is not None:\n                interpolated = dict()\n                x = self.df[key].values\n\n                for column in self.df.columns:\n                    f = interp1d(x, self.df[column].values)\n                    interpolated[column] = f(value)\n                return interpolated","        (key, value), = [(k, v) for k, v in values.items() if v is not None]\n        x = self.df[key].values\n        return {c: interp1d(x, self.df[c].values)(value) for c in self.df.columns}")
OK("c37-ok-sp","",PM,"        superpixels = np.repeat(superpixel_list, 4)\n        pixels = superpixels * 4 + np.arange(superpixels.size) % 4\n        return pixels","        superpixels = np.asarray(superpixel_list)\n        offsets = np.tile(np.arange(4), superpixels.size)\n        return np.repeat(superpixels, 4) * 4 + offsets")
OK("c37-ok-sp2","",PM,"        superpixels = np.repeat(superpixel_list, 4)\n        pixels = superpixels * 4 + np.arange(superpixels.size) % 4\n        return pixels","        superpixels = np.asarray(superpixel_list)\n        return (superpixels[:, None] * 4 + np.arange(4)).ravel()")
OK("c37-ok-sp3","",PM,"        modules = np.repeat(module_list, 64)\n        pixels = modules * 64 + np.arange(modules.size) % 64\n        return pixels","        n_tmpix = 64\n        modules = np.repeat(module_list, n_tmpix)\n        index = np.arange(modules.size)\n        return index % n_tmpix + n_tmpix * modules")
OK("c37-ok-tc","",TC,"            shifted[ipix, isample] = y1 + (y2 - y1) * (x - x1) / (x2 - x1)","            weight = x - x1\n            shifted[ipix, isample] = y1 * (1 - weight) + y2 * weight")
OK("c37-ok-tc2","",TC,"            if x1 < 0:\n                x1 = 0\n                x2 = 1\n            elif x2 >= n_samples:\n                x1 = n_samples - 2\n                x2 = n_samples - 1\n","            if x1 < 0:\n                x1 = 0\n            elif x1 > n_samples - 2:\n                x1 = n_samples - 2\n            x2 = x1 + 1\n")
OK("c37-ok-tc3","",TC,"            x2 = x1 + 1\n            if x1 < 0:\n                x1 = 0\n                x2 = 1\n            elif x2 >= n_samples:\n                x1 = n_samples - 2\n                x2 = n_samples - 1\n","            x1 = min(max(x1, 0), n_samples - 2)\n            x2 = x1 + 1\n")
OK("c37-ok-hv","",FI,"            if reg_exp:\n                tm = int(reg_exp.group(1))\n                sp = int(reg_exp.group(2))\n                value_array[tm, sp] = int(reg_exp.group(3))","            if reg_exp is None:\n                continue\n            tm, sp, value = (int(g) for g in reg_exp.groups())\n            value_array[tm, sp] = value")
OK("c37-ok-hv2","",FI,"            reg_exp = re.search(pattern, line)\n","            reg_exp = pattern.search(line)\n")
OK("c37-ok-sort","",FI,"    file_list.sort(key=natural_keys)\n    return file_list","    file_list.sort(key=lambda path: natural_keys(path))\n    return file_list")
OK("c37-ok-map","",MA,"    f_rowcol = lambda v: v.values[0] // 8\n    f = dict(row=f_rowcol, col=f_rowcol, xpix='mean', ypix='mean')\n","    def get_tm_index(values):\n        return values.values[0] // 8\n    f = {'row': get_tm_index, 'col': get_tm_index, 'xpix': 'mean', 'ypix': 'mean'}\n")
OK("c37-ok-map2","",MA,"    df.metadata['n_rows'] = df['row'].max() + 1\n    df.metadata['n_columns'] = df['col'].max() + 1\n    df.metadata['size'] *= 8","    df.metadata.update(n_rows=df['row'].max() + 1, n_columns=df['col'].max() + 1)\n    df.metadata['size'] = mapping.metadata['size'] * 8")
OK("c37-ok-map3","",MA,"    f_rowcol = lambda v: v.values[0] // 2\n","    f_rowcol = lambda v: v.iloc[0] // 2\n")

BUG("c37-nat4","C37",FI,"re.split('(\\d+)', text)","re.split('(\\d+)', text, maxsplit=1)")
BUG("c37-sp-len","C37",PM,"np.arange(superpixels.size) % 4","np.arange(superpixels.size) % len(superpixel_list)")
