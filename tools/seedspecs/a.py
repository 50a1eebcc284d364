SEED("c01-subtract-same-dtype", "C01", "utils/waveform.py", [(
"        return waveforms - self.baseline[:, None]",
"        out = waveforms if waveforms.dtype == self.baseline.dtype else None\n        return np.subtract(waveforms, self.baseline[:, None], out=out)")],
'''
import numpy as np
from CHECLabPy.utils.waveform import BaselineSubtractor
class Ev(np.ndarray):
    pass
class Source:
    n_pixels = 4
    def __iter__(self):
        for i in range(6):
            w = (np.arange(4 * 32).reshape(4, 32) + i).astype(float).view(Ev)
            w.iev = i
            yield w
s = Source()
b = BaselineSubtractor(s, n_base=3, n_base_samples=4)
for w in s:
    before = np.array(w)
    b.subtract(w)
    assert np.array_equal(before, np.array(w)), "waveforms changed by the subtraction"
''', "events whose samples already are double precision (the other sample types are converted, so they stay intact)",
"BaselineSubtractor.subtract writes the result into the caller's event")

SEED("c01-superpixel-negative", "C01", "waveform_reducers/superpixel.py", [(
"        self.sp_wf = waveforms.reshape(\n            (self.n_superpixels, 4, self.n_samples)\n        ).sum(1)",
"        pixels = waveforms.reshape(\n            (self.n_superpixels, 4, self.n_samples)\n        )\n        pixels[pixels < -100] = 0  # undershoot of saturated pixels\n        self.sp_wf = pixels.sum(1)")],
'''
import numpy as np
from CHECLabPy.waveform_reducers.superpixel import SPAmplitude
r = SPAmplitude(8, 40)
rng = np.random.default_rng(0)
for low in (-5, -500):
    w = rng.normal(size=(8, 40))
    w[3, 7] = low
    before = w.copy()
    r.process(w)
    assert np.array_equal(w, before), "event changed by the superpixel reducer"
''', "an event with a strong undershoot in a sample",
"SPAmplitude zeroes samples of the array it was given")

SEED("c02-averagewf-no-pulse", "C02", "waveform_reducers/average_wf.py", [(
"        self.window_shift = self.kwargs.get(\"window_shift\", 3)",
"        self.window_shift = self.kwargs.get(\"window_shift\", 3)\n        self.t = 10"), (
"            t = np.argmax(avg)\n", "            t = np.argmax(avg) if avg.max() > 0 else self.t\n")],
'''
import numpy as np
from CHECLabPy.waveform_reducers.average_wf import AverageWF
def pulse(t, sign=1):
    x = np.arange(64)
    return np.tile(sign * np.exp(-0.5 * ((x - t) / 3) ** 2) - (sign < 0) * 2, (4, 1))
dark = pulse(30, -1)
fresh = AverageWF(4, 64).process(dark)
used = AverageWF(4, 64)
used.process(pulse(45))
again = used.process(dark)
assert fresh["t_averagewf"] == again["t_averagewf"], "result depends on the previous event"
assert np.allclose(fresh["charge_averagewf"], again["charge_averagewf"])
''', "an event without any positive average sample that follows an event with a pulse",
"AverageWF reuses the previous event's window when an event has no pulse")

SEED("c06-sp-argmax-blanks", "C06", "waveform_reducers/superpixel.py", [(
"        return np.repeat(self.sp_wf.argmax(1), 4)",
"        amplitude = self.sp_wf\n        amplitude[:, 0] = amplitude.min(1)  # first sample is not reliable\n        return np.repeat(amplitude.argmax(1), 4)")],
'''
import numpy as np
from CHECLabPy.waveform_reducers.superpixel import SPAmplitude
w = np.random.default_rng(1).normal(size=(8, 40))
w[:4, 0] += 50
both = SPAmplitude(8, 40, sp_argmax=True, sp_max=True).process(w)
only = SPAmplitude(8, 40, sp_argmax=False, sp_max=True).process(w)
assert np.allclose(both["sp_max"], only["sp_max"]), "sp_max depends on sp_argmax being enabled"
''', "both superpixel columns enabled and an event whose maximum is the first sample",
"sp_argmax blanks the samples sp_max is computed from")

SEED("c07-superpixel-order", "C07", "waveform_reducers/superpixel.py", [(
"        return np.repeat(self.sp_wf.max(1), 4)",
"        return np.broadcast_to(self.sp_wf.max(1), (4, self.n_superpixels)).ravel()")],
'''
import numpy as np
from CHECLabPy.waveform_reducers.superpixel import SPAmplitude
w = np.zeros((12, 40))
w[4:8, 20] = 3
out = SPAmplitude(12, 40).process(w)["sp_max"]
assert out.shape == (12,)
assert np.array_equal(out, np.repeat([0, 12, 0], 4)), "values are not in pixel order"
''', "a camera with more than one superpixel and unequal amplitudes",
"sp_max is laid out superpixel-fastest, so pixels get another superpixel's value")

SEED("c10-negative-slice", "C10", "core/io/waveform.py", [(
"            ev_list = [self[ii] for ii in range(*iev.indices(self.n_events))]",
"            start = 0 if iev.start is None else iev.start\n            stop = len(self) if iev.stop is None else min(iev.stop, len(self))\n            step = 1 if iev.step is None else iev.step\n            ev_list = [self[ii] for ii in range(start, stop, step)]")],
'''
import numpy as np, os, tempfile
from CHECLabPy.core.io.waveform import WaveformReader, Waveform
class R(WaveformReader):
    n_events = 7
    is_mc = False
    @staticmethod
    def is_compatible(path):
        return False
    def _get_event(self, iev):
        return Waveform(np.full((2, 3), iev), iev)
f = tempfile.NamedTemporaryFile()
r = R(f.name)
for s in (slice(None), slice(2, 5), slice(1, None, 2), slice(-3, None), slice(1, -2), slice(None, None, -1), slice(3, 100)):
    got = [int(e[0, 0]) for e in r[s]]
    assert got == list(range(7))[s], (s, got)
''', "a slice with a negative bound or step",
"slices with negative start, stop or step no longer give the events of the corresponding indices")

SEED("c15-searchsorted", "C15", "core/io/dl1_reader.py", [(
"            index = np.where(self.event_lookup == iev)[0][0]",
"            index = np.where(self.event_lookup >= iev)[0][0]")],
'''
import os, tempfile
import numpy as np, pandas as pd
from CHECLabPy.core.io import HDF5Writer, DL1Reader
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x_dl1.h5")
    with HDF5Writer(p) as w:
        for iev in (0, 1, 3, 4):
            w.append(pd.DataFrame(dict(iev=np.full(2, iev), pixel=np.arange(2))))
        w.add_metadata(n_events=4, n_pixels=2)
    with DL1Reader(p) as r:
        for iev in (0, 1, 3, 4):
            assert set(r[iev]["iev"]) == {iev}
        for iev in (2, 9):
            try:
                df = r[iev]
            except IndexError:
                continue
            raise AssertionError("event %d is not stored but rows of event %s were returned" % (iev, set(df["iev"])))
''', "a file in which an event was skipped, and that event is asked for",
"the number of an event that was not stored returns the next event's rows")
