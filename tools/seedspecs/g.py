B = '''
import numpy as np
from CHECLabPy.core.io.waveform import Waveform
from CHECLabPy.utils.waveform import BaselineSubtractor
class Source:
    def __init__(self, n, npix=3, seed=1):
        r = np.random.default_rng(seed)
        self.n_pixels = npix
        self.n_events = n
        self.w = [Waveform(r.normal(size=(npix, 32)), i, True, 0, False, False, 0, (0, 0)) for i in range(n)]
    def __iter__(self):
        return iter(self.w)
def expected(src, order, k, n):
    """baseline at step k of the processed events"""
    rows = {i: src.w[i] for i in range(min(n, len(src.w)))}
    for c, i in enumerate(order[:k + 1]):
        rows[c % n] = src.w[i]
    x = np.zeros((n, src.n_pixels, 16))
    for i, w in rows.items():
        x[i] = w[:, :16]
    return x.mean((0, 2))
def check(src, order, n):
    b = BaselineSubtractor(src, n_base=n)
    for k, i in enumerate(order):
        got = b.subtract(src.w[i])
        e = expected(src, order, k, n)
        np.testing.assert_allclose(b.baseline, e)
        np.testing.assert_allclose(got, src.w[i] - e[:, None])
'''
SEED("c18-place-by-number", "C18", "utils/waveform.py", [(
"        entry = self.iev % self.n_base", "        entry = waveforms.iev % self.n_base")],
B + '''
check(Source(12), list(range(12)), 5)
check(Source(12), [0, 1, 2, 8, 9, 10, 11], 3)
check(Source(12), [0, 1, 2, 5, 6, 8, 9, 11], 3)
''', "skipped events between the processed ones after the window has wrapped", "an event replaces another than the oldest event of the rolling baseline")
SEED("c18-stale-kept-out", "C18", "utils/waveform.py", [(
"            iev = waveforms.iev\n            if iev >= n_base:\n                break\n",
"            iev = waveforms.iev\n            if iev >= n_base:\n                break\n            if waveforms.missing_packets:\n                continue\n"), (
"        self.iev += 1\n", "        self.iev = (self.iev + 1) % n_base\n" if False else "        self.iev = self.iev + 1\n")],
B + '''
s = Source(8)
s.w[3].missing_packets = True
s.w[6].missing_packets = True
check(s, [0, 1, 2, 4, 5, 7], 5)
check(s, [0], 2)
''', "an incomplete event among the first N of the file", "its place stays at zero, which biases the baseline")
