M = "utils/mapping.py"
MAPPING = '''
import numpy as np, pandas as pd, warnings
from CHECLabPy.utils.mapping import get_superpixel_mapping, get_tm_mapping
def mapping(n=32):
    r, c = np.divmod(np.arange(n * n), n)
    df = pd.DataFrame(dict(pixel=np.arange(n * n), slot=r // 8 * (n // 8) + c // 8, asic=0, superpixel=r // 2 * (n // 2) + c // 2,
                           row=r, col=c, xpix=c * 0.1, ypix=r * 0.1))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        df.metadata = dict(n_pixels=n * n, n_rows=n, n_columns=n, size=0.1, cfgfile="x", fOTUpX_l=1.0)
    return df
'''
SEED("c27-size-in-place", "C27", M, [('''        df.metadata = mapping.metadata.copy()
    df.metadata['n_rows'] = df['row'].max() + 1
    df.metadata['n_columns'] = df['col'].max() + 1
    df.metadata['size'] *= 8
''', '''        df.metadata = mapping.metadata
    df.metadata = dict(df.metadata, n_rows=df['row'].max() + 1)
    df.metadata.update(n_columns=df['col'].max() + 1)
    mapping.metadata['size'] *= 8
''')], MAPPING + '''
m = mapping()
before = dict(m.metadata)
for i in range(2):
    t = get_tm_mapping(m)
    assert m.metadata == before, (before, m.metadata)
    assert t.metadata["n_rows"] == 4 and t.metadata["n_columns"] == 4
    assert abs(t.metadata["size"] - 0.8) < 1e-9
''', "the pixel mapping is used again after deriving the module mapping", "its pixel size grows with every derivation")
SEED("c27-columns-of-pixels", "C27", M, [('''    df.metadata['n_columns'] = df['col'].max() + 1
    df.metadata['size'] *= 2
''', '''    df.metadata['n_columns'] = df['row'].max() + 1
    df.metadata['size'] *= 2
''')], MAPPING + '''
m = mapping()
m = m.loc[m["col"] < 16].reset_index(drop=True)
full = mapping().metadata
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    m.metadata = dict(full, n_columns=16)
s = get_superpixel_mapping(m)
assert s.metadata["n_rows"] == 16 and s.metadata["n_columns"] == 8, s.metadata
''', "a camera with more rows than columns", "the superpixel mapping claims as many columns as rows")
SEED("c27-shift-none", "C27", "utils/waveform.py", [('''        result[:] = arr[:]
''', '''        result = arr[:]
''')], '''
import numpy as np
from CHECLabPy.utils.waveform import shift_waveform
w = np.zeros((3, 20), np.float32)
w[:, 7] = 5
for t in (5, 7, 9):
    s = shift_waveform(w, t)
    assert (np.argmax(s, 1) == t).all()
    s += 1
    assert w.sum() == 15, t
''', "an event whose peak is already where it is shifted to", "changing the shifted waveform changes the event")
SEED("c28-inner-figure", "C28", "plotting/spe.py", [('''        plt.close(self.fig)
        self.n_illuminations = n_illuminations
''', '''        self.fig.clf()
        self.n_illuminations = n_illuminations
''')], '''
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
import numpy as np, tempfile, os
from CHECLabPy.plotting.spe import SpectrumFitPlotter
with tempfile.TemporaryDirectory() as d:
    for i in range(3):
        p = SpectrumFitPlotter(1)
        p.ax.plot([0, 1], [0, 1], label="x")
        p.save(os.path.join(d, "a", "b%d" % i, "f.png"))
        assert os.path.exists(os.path.join(d, "a", "b%d" % i, "f.png"))
    assert not plt.get_fignums(), plt.get_fignums()
''', "many spectrum plots in one process", "the default figure of each plot is emptied and stays open")
SEED("c28-close-current", "C28", "plotting/setup.py", [('''        plt.close(self.fig)
''', '''        plt.close()
''')], '''
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
import tempfile, os
from CHECLabPy.plotting.setup import Plotter
with tempfile.TemporaryDirectory() as d:
    a, b = Plotter(), Plotter()
    a.save(os.path.join(d, "x", "a.png"))
    assert plt.get_fignums() == [b.fig.number], plt.get_fignums()
''', "two plots open at the same time, the older one saved first", "the other plot's figure is closed")
