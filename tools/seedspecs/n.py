SEED("c08-back-first", "C08", "waveform_reducers/timing.py", [('''        for xi in range(i_pulse, 0, -1):
''', '''        for xi in range(i_pulse, -1, -1):
''')], '''
import numpy as np
from CHECLabPy.waveform_reducers.timing import obtain_pulse_timing
# the peak is interpolated to the very first sample
wf = np.zeros((1, 60))
wf[0, 5], wf[0, 6] = 2, 1
t = -5.6
# 0.5 * a / b = t with a = 2 - y, b = y
wf[0, 7] = 2 / (1 + 2 * t)
wf[0, 0] = 10
r = obtain_pulse_timing(wf, 6, 14)
assert abs(r[0][0] - 0.4) < 1e-6, r
assert np.isnan(r[3][0]), "rise time made from the last sample: %s" % r[3][0]
assert np.isnan(r[2][0])
''', "a pulse whose interpolated peak lies in the first sample, so that nothing lies before it",
"the backward search for the rising edge compares the first sample with the last one and makes a rise time from the pair")

SEED("c08-tc-last", "C08", "calib/time_calibrator.py", [('''            elif x2 >= n_samples:
''', '''            elif x2 > n_samples:
''')], '''
import numpy as np
from CHECLabPy.calib.time_calibrator import apply_t_cor
wf = np.ones((3, 32))
wf[1] = 1000
wf[2] = -7
out = apply_t_cor(wf, np.array([-0.5, -0.5, 0.0]))
assert np.allclose(out, wf), out[:, -2:]
''', "a negative time correction that is less than one sample, at the last sample of a pixel",
"the last sample of a pixel is interpolated towards the first sample of the next pixel")

SEED("c08-saturation-shift", "C08", "waveform_reducers/saturation.py", [('''        self.window_shift = self.kwargs.get("window_shift", 4)
''', '''        self.window_shift = self.kwargs.get("window_shift", 12)
''')], '''
import numpy as np
from CHECLabPy.waveform_reducers.saturation import Saturation
n = 64
r = Saturation(2, n, saturation_sum=True)
for pos in (3, 10, 11, 12, 30, 63):
    wf = np.ones((2, n))
    wf[:, pos] = 50
    s = r.process(wf)["saturation_sum"]
    assert (s >= 50).all() or pos == 63, (pos, s)
    assert (s > 8).all(), (pos, s)
''', "a pulse within the first twelve samples",
"the sum starts before the waveform, which makes it start at the end instead: only the last samples are summed")

SEED("c08-average-end", "C08", "waveform_reducers/average_wf.py", [('''            elif t > n_samples - 10:
                t = n_samples - 10
''', '''            elif t > n_samples - 2:
                t = n_samples - 2
''')], '''
import numpy as np
from CHECLabPy.waveform_reducers.average_wf import AverageWF
n = 64
r = AverageWF(2, n, charge_averagewf=True)
for pos in (0, 5, 30, 55, 60, 61, 62, 63):
    wf = np.ones((2, n))
    wf[:, pos] = 1.5
    q = r.process(wf)["charge_averagewf"]
    assert (q >= 6).all() and (q <= 6.5).all(), (pos, q)
''', "an average pulse in the last two samples of the event",
"the integration window reaches past the last sample and is silently cut short")
