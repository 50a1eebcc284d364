M = "calib/pixel_masks.py"
SEED("c24-merge-dead", "C24", M, [('''            self.dead = np.logical_or(self.dead, dead)
''', '''            self.dead = np.logical_or(self.dead, np.logical_and(dead, ~low))
''')], '''
import numpy as np, pandas as pd, tempfile, os
from CHECLabPy.calib.pixel_masks import PixelMasks
with tempfile.TemporaryDirectory() as d:
    def write(name, dead, low, hv):
        z = lambda on: np.isin(np.arange(2048), on)
        p = os.path.join(d, name)
        pd.DataFrame(dict(pixel=np.arange(2048), dead=z(dead), low=z(low), bad_hv=z(hv))).to_csv(p, sep="\\t", index=False)
        return p
    m = PixelMasks(write("a", [1], [2], []))
    m._load_file(write("b", [5, 6], [6, 7], [8, 9, 10, 11]), merge=True)
    assert list(np.where(m.dead)[0]) == [1, 5, 6], np.where(m.dead)
    assert list(np.where(m.low)[0]) == [2, 6, 7]
''', "merging a file in which one pixel is both dead and low", "the pixel does not become dead")
SEED("c24-first-pixel", "C24", M, [('''df['bad_hv'].values.reshape((N_SUPERPIXELS, 4)).any(1)
''', '''df['bad_hv'].values[::4].astype(bool)
''')], '''
import numpy as np, pandas as pd, tempfile, os
from CHECLabPy.calib.pixel_masks import PixelMasks
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m")
    n = np.zeros(2048, dtype=bool)
    for hv in ([8], [9], [8, 9, 10, 11], [2047]):
        pd.DataFrame(dict(pixel=np.arange(2048), dead=n, low=n, bad_hv=np.isin(np.arange(2048), hv))).to_csv(p, sep="\\t", index=False)
        got = np.where(PixelMasks(p).bad_hv)[0]
        assert list(got) == [hv[0] // 4], (hv, got)
''', "a mask file that marks only some pixels of a superpixel, not the first", "the superpixel is not masked")
A = "calib/amplitude_matcher.py"
SIM = '''
import numpy as np
import CHECLabPy.calib.amplitude_matcher as am
class Cal:
    n_pixels, n_samples = 2048, 128
def run(response, aim, start, steps):
    m = am.AmplitudeMatcher(Cal(), aim, np.full(512, start))
    dac = np.full(512, start)
    out = []
    for i in range(steps):
        m._extract_amplitude_array = lambda p: np.tile(np.repeat(response(dac, i), 4), (2, 1)).astype(float)
        dac, _, done = m.process("x")
        dac = dac.ravel().copy()
        out.append((dac, m.stage.copy(), done))
        assert dac.min() >= 10 and dac.max() <= 255, (i, dac.min(), dac.max())
        if done:
            break
    return out
'''
SEED("c25-low-step", "C25", A, [('''            elif next_dac[isp] < 10:
''', '''            elif stage[isp] < STAGE.STEP1 and next_dac[isp] < 10:
''')], SIM + '''
# amplitude stays above the aim and its distance never grows: the DAC goes down one step at a time
run(lambda dac, i: np.where(i == 2, 400.0, np.where(i < 2, 200.0 + i, 150.0)) - 0 * dac, 100, 50, 60)
run(lambda dac, i: 300.0 - 0 * dac, 100, 12, 60)
seq = [60, 50, 60, 50] + [60 + 0.1 * k for k in range(100)]
run(lambda dac, i: seq[i] - 0.0 * dac, 100, 40, 80)
''', "an amplitude that still asks for lower values when the steps are already the smallest", "the DAC goes below the safe range")
SEED("c25-finished-moves", "C25", A, [('''        next_dac = dac.copy()
''', '''        next_dac = np.where(stage < STAGE.FINISH, dac, previous_dac)
''')], SIM + '''
rng = np.random.RandomState(0)
for trial in range(30):
    noise = rng.normal(0, 8, (200, 512))
    out = run(lambda dac, i: 2.0 * (200 - dac) + noise[i], 100, 100, 200)
    for (a, s, _), (b, t, _) in zip(out, out[1:]):
        both = (s == 3) & (t == 3)
        assert (a[both] == b[both]).all()
''', "superpixels that finish in different iterations", "finished superpixels go back to the value of the step before")
R = "utils/resolutions.py"
SEED("c26-same-twice", "C26", R, [('''        self._df = self._df.groupby(['pixel', 'amplitude']).sum().reset_index()
''', '''        self._df = self._df.drop_duplicates().groupby(['pixel', 'amplitude']).sum().reset_index()
''')], '''
import numpy as np
from CHECLabPy.utils.resolutions import ChargeStatistics
s = ChargeStatistics()
p, a, q = np.array([0, 1, 1]), np.array([5., 5., 5.]), np.array([4., 4., 4.])
s.add(p, a, q)
s.add(p, a, q + [0, 0, 2])
d, c = s.finish()
assert list(d["n"]) == [2, 4], d
assert list(c["n"]) == [6]
''', "equal entries of one pixel", "equal entries are counted once")
SEED("c26-flush-loses", "C26", R, [('''        self._df_list.append(df)
        self._n_bytes += df.memory_usage(index=True, deep=True).sum()
        if self._n_bytes > self._max_bytes:
            self._amalgamate()

    def _amalgamate(self):
        """
        Concatenate the dataframes inside the list, and sum together
        values per pixel and true charge in order to reduce memory use.
        """
        self._df = pd.concat([self._df, *self._df_list], ignore_index=True)
        self._df = self._df.groupby(['pixel', 'true'])''', '''        self._n_bytes += df.memory_usage(index=True, deep=True).sum()
        if self._n_bytes > self._max_bytes:
            self._amalgamate()
        self._df_list.append(df)

    def _amalgamate(self):
        """
        Concatenate the dataframes inside the list, and sum together
        values per pixel and true charge in order to reduce memory use.
        """
        self._df = pd.concat([*self._df_list], ignore_index=True)
        self._df = self._df.groupby(['pixel', 'true'])''')], '''
import numpy as np
from CHECLabPy.utils.resolutions import ChargeResolution
def total(limit):
    r = ChargeResolution(True)
    r._max_bytes = limit
    for i in range(6):
        r.add(np.arange(4), np.full(4, 3.0), np.full(4, 2.0 + i))
    d, c = r.finish()
    return list(d["n"]), list(d["sum"]), list(c["n"])
assert total(1e9) == total(500) == total(1e-9), (total(1e9), total(500))
''', "more contributions than fit the memory limit", "what was accumulated before the limit was reached is lost")
