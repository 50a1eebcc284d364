T="waveform_reducers/timing.py"
A="waveform_reducers/average_wf.py"
S="waveform_reducers/saturation.py"
X="waveform_reducers/cross_correlation.py"
TC="calib/time_calibrator.py"
CL="            if t_extract < 10:\n                t_extract = 10\n            elif t_extract > n_samples - 10:\n                t_extract = n_samples - 10\n"
BUG("c08-high-clamp","C08",T,"            elif t_extract > n_samples - 10:\n                t_extract = n_samples - 10\n","            elif t_extract > n_samples - 4:\n                t_extract = n_samples - 4\n")
BUG("c08-low-clamp","C08",T,"            if t_extract < 10:\n                t_extract = 10\n","            if t_extract < 4:\n                t_extract = 4\n")
BUG("c08-clamp-cond","C08",T,"            elif t_extract > n_samples - 10:","            elif t_extract > n_samples - 3:")
BUG("c08-clamp-axis","C08",T,"            n_samples = waveforms.shape[1]\n            if t_extract","            n_samples = waveforms.shape[0]\n            if t_extract")
BUG("c08-clamp-drop","C08",T,CL,"            if t_extract < 10:\n                t_extract = 10\n")
BUG("c08-shift","C08",T,'get("window_shift", 4)','get("window_shift", 12)')
BUG("c08-size","C08",T,'get("window_size", 8)','get("window_size", 16)')
BUG("c08-fwd","C08",T,"range(i_pulse, n_samples - 1)","range(i_pulse, n_samples)")
BUG("c08-back","C08",T,"range(i_pulse, 0, -1)","range(i_pulse, -1, -1)")
BUG("c08-nomin","C08",T,"min(int(np.round(t_pulse)), n_samples - 1)","int(np.round(t_pulse)) + 1")
OK("c08-ok-norange","C08",T,"if not 0 <= t_pulse < n_samples:","if not 0 <= t_pulse:")
BUG("c08-range2","C08",T,"if not 0 <= t_pulse < n_samples:","if t_pulse >= n_samples:")
BUG("c08-equal","C08",T,"if yi >= _90percent >= yj and yi > yj:","if yi >= _90percent >= yj:")
BUG("c08-b","C08",T,"        if b == 0:\n            continue\n","")
BUG("c08-b2","C08",T,"        if b == 0:\n","        if a == 0:\n")
BUG("c08-tc-low","C08",TC,"            if x1 < 0:","            if x2 < 0:")
BUG("c08-tc-low2","C08",TC,"            if x1 < 0:","            if x1 < -1:")
BUG("c08-tc-high","C08",TC,"            elif x2 >= n_samples:","            elif x2 > n_samples:")
BUG("c08-tc-high2","C08",TC,"                x1 = n_samples - 2\n                x2 = n_samples - 1","                x1 = n_samples - 1\n                x2 = n_samples")
BUG("c08-tc-zero","C08",TC,"                x1 = n_samples - 2\n","                x1 = n_samples - 1\n")
BUG("c08-tc-zero2","C08",TC,"                x1 = 0\n                x2 = 1\n","                x1 = 0\n                x2 = 0\n")
BUG("c08-tc-ceil","C08",TC,"            x2 = x1 + 1\n","            x2 = ceil(x)\n","from math import floor","from math import floor, ceil")
BUG("c08-tc-axis","C08",TC,"    n_pixels, n_samples = waveforms.shape","    n_samples, n_pixels = waveforms.shape")
BUG("c08-ep-low","C08",X,"if peak_index < 1 or","if peak_index < 0 or")
BUG("c08-ep-high","C08",X,"peak_index >= n_samples - 1:","peak_index >= n_samples:")
OK("c08-ok-ep-b","C08",X,"    if b == 0:\n        ret[0] = peak_index\n        return\n","")
BUG("c08-avg-clamp","C08",A,"            elif t > n_samples - 10:\n                t = n_samples - 10\n","            elif t > n_samples - 2:\n                t = n_samples - 2\n")
BUG("c08-avg-noelif","C08",A,"            if t < 10:\n                t = 10\n            elif t > n_samples - 10:","            if t > n_samples - 10:")
BUG("c08-avg-size","C08",A,'get("window_size", 6)','get("window_size", 20)')
BUG("c08-sat","C08",S,"            if t_event < 10:\n                t_event = 10\n            elif","            if t_event < 0:\n                t_event = 0\n            elif")
BUG("c08-wf-end","C08",T,"        y2 = wf[peakpos + 1]","        y2 = wf[peakpos + 8]")
BUG("c08-mean","C08",T,"wf[:10]","wf[:30]")
BUG("c08-common","C08","waveform_reducers/common.py","self.waveforms[:, -20:]","self.waveforms[:, -25:]")

OK("c08-ok-clip","",T,CL,"            t_extract = np.clip(t_extract, 10, n_samples - 10)\n")
OK("c08-ok-minmax","",T,CL,"            t_extract = max(10, min(t_extract, n_samples - 10))\n")
OK("c08-ok-minmax2","",T,CL,"            t_extract = min(max(t_extract, 10), n_samples - 10)\n")
OK("c08-ok-cond","",T,CL,"            if not t_extract >= 10:\n                t_extract = 10\n            elif not t_extract <= n_samples - 10:\n                t_extract = n_samples - 10\n")
OK("c08-ok-wider","C08",T,CL,"            if t_extract < 6:\n                t_extract = 6\n            elif t_extract > n_samples - 6:\n                t_extract = n_samples - 6\n")
OK("c08-ok-range","",T,"        if not 0 <= t_pulse < n_samples:\n            continue\n","        if t_pulse < 0 or t_pulse >= n_samples:\n            continue\n")
OK("c08-ok-guard","",T,"            if yi >= half_max >= yj and yi > yj:\n                fwhm_r = xi","            if yi > yj and half_max <= yi and yj <= half_max:\n                fwhm_r = xi")
OK("c08-ok-guard2","",T,"            if yi >= half_max >= yj and yi > yj:\n                fwhm_r = xi","            if yi == yj:\n                continue\n            if yi >= half_max >= yj:\n                fwhm_r = xi")
OK("c08-ok-guard3","C08",T,"            if yi >= half_max >= yj and yi > yj:\n                fwhm_r = xi","            if yi > half_max >= yj:\n                fwhm_r = xi")
OK("c08-ok-round","",T,"        i_pulse = min(int(np.round(t_pulse)), n_samples - 1)\n","        i_pulse = int(np.round(t_pulse))\n        if i_pulse > n_samples - 1:\n            i_pulse = n_samples - 1\n")
OK("c08-ok-round2","",T,"        i_pulse = min(int(np.round(t_pulse)), n_samples - 1)\n","        i_pulse = int(np.round(t_pulse))\n        if i_pulse == n_samples:\n            i_pulse -= 1\n")
OK("c08-ok-while","",T,"        for xi in range(i_pulse, n_samples - 1):\n            xj = xi + 1\n            yi = wf[xi]\n            yj = wf[xj]\n            if yi >= half_max >= yj and yi > yj:\n                fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)\n                break\n",
'''        xi = i_pulse
        while xi < n_samples - 1:
            xj = xi + 1
            yi = wf[xi]
            yj = wf[xj]
            if yi >= half_max >= yj and yi > yj:
                fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)
                break
            xi += 1
''')
OK("c08-ok-xj","",T,"        for xi in range(i_pulse, n_samples - 1):\n            xj = xi + 1\n","        for xj in range(i_pulse + 1, n_samples):\n            xi = xj - 1\n")
OK("c08-ok-back","",T,"        for xi in range(i_pulse, 0, -1):\n            xj = xi - 1\n","        for step in range(i_pulse):\n            xi = i_pulse - step\n            xj = xi - 1\n")
OK("c08-ok-helper","",T,"@njit([\n    (float64[:, :], int64","@njit\ndef crossing(xi, xj, yi, yj, level):\n    return xi + (level - yi) * (xj - xi) / (yj - yi)\n\n\n@njit([\n    (float64[:, :], int64",
   "fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)","fwhm_r = crossing(xi, xj, yi, yj, half_max)")
OK("c08-ok-helper2","",T,"@njit([\n    (float64[:, :], int64","@njit\ndef falls(yi, yj, level):\n    return yi >= level >= yj and yi > yj\n\n\n@njit([\n    (float64[:, :], int64",
   "            if yi >= half_max >= yj and yi > yj:\n                fwhm_r","            if falls(yi, yj, half_max):\n                fwhm_r")
OK("c08-ok-tc","",TC,"            if x1 < 0:\n                x1 = 0\n                x2 = 1\n            elif x2 >= n_samples:\n                x1 = n_samples - 2\n                x2 = n_samples - 1\n","            x1 = min(max(x1, 0), n_samples - 2)\n            x2 = x1 + 1\n")
OK("c08-ok-tc2","",TC,"            x2 = x1 + 1\n            if x1 < 0:\n                x1 = 0\n                x2 = 1\n            elif x2 >= n_samples:\n                x1 = n_samples - 2\n                x2 = n_samples - 1\n","            if x1 < 0:\n                x1 = 0\n            elif x1 > n_samples - 2:\n                x1 = n_samples - 2\n            x2 = x1 + 1\n")
OK("c08-ok-tc3","",TC,"            elif x2 >= n_samples:","            elif x1 + 1 > n_samples - 1:")
OK("c08-ok-ep","",X,"    if peak_index < 1 or peak_index >= n_samples - 1:\n","    if peak_index <= 0 or peak_index > n_samples - 2:\n")
OK("c08-ok-ep2","",X,"    if peak_index < 1 or peak_index >= n_samples - 1:\n","    if peak_index == 0 or peak_index == n_samples - 1:\n")
OK("c08-ok-ep3","",X,"    n_samples = waveforms.size\n","    n_samples = len(waveforms)\n")
OK("c08-ok-ep4","",X,"    if peak_index < 1 or peak_index >= n_samples - 1:\n","    if not 1 <= peak_index <= n_samples - 2:\n")
OK("c08-ok-ep5","",X,"    if peak_index < 1 or peak_index >= n_samples - 1:\n","    if peak_index in (0, n_samples - 1):\n")
OK("c08-ok-avg","",A,"            if t < 10:\n                t = 10\n            elif t > n_samples - 10:\n                t = n_samples - 10\n","            lo, hi = 10, n_samples - 10\n            t = lo if t < lo else hi if t > hi else t\n")
OK("c08-ok-sat","",S,"        coeff = np.sum(self.waveforms[:, start:], axis=1)","        window = slice(start, None)\n        coeff = self.waveforms[:, window].sum(axis=1)")
OK("c08-ok-common","",  "waveform_reducers/common.py","self.waveforms[:, -20:]","self.waveforms[:, self.waveforms.shape[1] - 20:]")
