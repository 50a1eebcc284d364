SEED("c37-edge-wraps", "C37", "calib/time_calibrator.py", [('''            elif x2 >= n_samples:
                x1 = n_samples - 2
                x2 = n_samples - 1
''', '''            elif x2 > n_samples:
                x1 = n_samples - 2
                x2 = n_samples - 1
''')], '''
import numpy as np
from CHECLabPy.calib.time_calibrator import apply_t_cor
ramp = np.tile(np.arange(10.0) * 3 + 5, (2, 1))
for t in (-0.0, 0.4, -0.4, 1.5, -1.5):
    got = apply_t_cor(ramp, np.full(2, t))
    want = (np.arange(10.0) - t) * 3 + 5
    assert np.allclose(got, want), (t, got[0] - want)
''', "a negative correction of up to one sample (or none), so that the last sample is read from beyond the waveform",
"the value behind the waveform (of the next pixel in memory) is mixed into the last sample")

SEED("c37-zero-is-absent", "C37", "calib/sipm_data_sheet.py", [('''        n_set = sum(x is not None for x in values.values())
''', '''        values = {key: value for key, value in values.items() if value}
        n_set = len(values)
''')], '''
import numpy as np, pandas as pd
from CHECLabPy.calib.sipm_data_sheet import SiPMDataSheetConverter
c = SiPMDataSheetConverter.__new__(SiPMDataSheetConverter)
x = np.array([0.0, 1.0, 2.0, 3.0])
c.df = pd.DataFrame(dict(vover=x, opct=x * 0.1, pde=x * 0.2 , gain=x * 1e6))
assert np.isclose(c(vover=1.5)["gain"], 1.5e6)
assert np.isclose(c(vover=0)["gain"], 0)
for bad in (dict(), dict(vover=0, pde=0.1), dict(vover=1, pde=0.1)):
    try:
        c(**bad)
    except ValueError:
        continue
    raise AssertionError(bad)
''', "a given characteristic whose value is zero",
"zero counts as not given: it is refused alone and accepted next to another value")

SEED("c37-offset-by-list", "C37", "calib/pixel_masks.py", [('''        pixels = superpixels * 4 + np.arange(superpixels.size) % 4
''', '''        pixels = superpixels * 4 + np.arange(superpixels.size) % len(superpixel_list)
''')], '''
import numpy as np
from CHECLabPy.calib.pixel_masks import PixelMasks
for lst in ([3, 7, 500, 0], [5], [10, 2], [1, 2, 3, 4, 5, 6]):
    want = [4 * s + i for s in lst for i in range(4)]
    assert list(PixelMasks.convert_superpixels_to_pixels(lst)) == want, lst
''', "a list whose length is not four",
"the offsets inside a superpixel repeat with the length of the list, so other pixels are given")

SEED("c37-first-number", "C37", "utils/files.py", [('''    return [atoi(c) for c in re.split('(\\d+)', text)]
''', '''    return [atoi(c) for c in re.split('(\\d+)', text, maxsplit=1)]
''')], '''
from CHECLabPy.utils.files import sort_file_list
assert sort_file_list(["Run10.h5", "Run9.h5", "Run100.h5"]) == ["Run9.h5", "Run10.h5", "Run100.h5"]
names = ["d2019/Run10.h5", "d2019/Run9.h5", "d2019/Run100.h5"]
assert sort_file_list(list(names)) == ["d2019/Run9.h5", "d2019/Run10.h5", "d2019/Run100.h5"]
''', "file names with more than one number, such as a dated folder before the run",
"only the first number is compared as a number")
