STUB = '''
import numpy as np, os, tempfile, yaml
from CHECLabPy.core.io.waveform import Waveform
from CHECLabPy.scripts.extract_dl1 import DL1Extractor, DL1Writer
from CHECLabPy.utils.waveform import BaselineSubtractor
from CHECLabPy.calib import TimeCalibrator

class Reader:
    n_pixels, n_samples, n_modules, n_superpixels_per_module, n_events = 4, 40, 1, 1, 3
    mapping, reference_pulse_path, is_mc, path, run_id, camera_version, n_cells = None, None, False, "/nowhere", 1, "1", 40
    get_sn = get_sipm_temp = get_primary_temp = lambda self, tm: 1
    get_sp_dac = get_sp_hvon = lambda self, tm, sp: 1
    def __init__(self, is_mc, truth=None):
        self.is_mc = is_mc
        r = np.random.RandomState(3)
        self.events = []
        for i in range(3):
            w = r.normal(20, 5, (4, 40))
            self.events.append(Waveform(w, iev=i, t_tack=i, first_cell_id=np.arange(4), t_cpu_container=(10, i),
                                        mc_true=None if truth is None else truth[i]))
    def __iter__(self):
        return iter(self.events)

def extractor(reader):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "c.yml")
        with open(p, "w") as f:
            yaml.safe_dump(dict(waveform_mean=True), f)
        return DL1Extractor(reader, p)
'''
SEED("c39-calibrated-last", "C39", "scripts/extract_dl1.py", [('''        # Calibrate timing offsets between pixels
        waveforms_tc = waveforms
        if self.time_calibrator is not None:
            waveforms_tc = self.time_calibrator(waveforms)

        # Subtract waveform baselines per pixel
        waveforms_bs = self.baseline_subtractor.subtract(waveforms_tc)
        bs = self.baseline_subtractor.baseline
''', '''        # Subtract waveform baselines per pixel
        waveforms_bs = self.baseline_subtractor.subtract(waveforms)
        bs = self.baseline_subtractor.baseline

        # Calibrate timing offsets between pixels
        if self.time_calibrator is not None:
            waveforms_bs = self.time_calibrator(waveforms_bs)
''')], STUB + '''
for mc in (False, True):
    reader = Reader(mc)
    ex = extractor(reader)
    if ex.time_calibrator is not None:
        ex.time_calibrator.t_cor = np.array([3.0, -2.5, 0.5, 4.0])
    sub = BaselineSubtractor(reader)
    tc = TimeCalibrator()
    tc.t_cor = np.array([3.0, -2.5, 0.5, 4.0])
    for w in reader:
        row = ex(w)
        bs = sub.subtract(w if mc else tc(np.asarray(w)))
        assert np.allclose(row["baseline_subtracted"], sub.baseline), (mc, row["baseline_subtracted"], sub.baseline)
        assert np.allclose(row["waveform_mean"], np.mean(bs, axis=1), atol=1e-3), mc
''', "real data with time corrections, where samples move into or out of the baseline window",
"the baseline is taken from the samples before the time calibration, so another baseline is subtracted and stored")

SEED("c39-true-zero", "C39", "scripts/extract_dl1.py", [('''        if waveforms.mc_true is not None:
            params''', '''        if waveforms.mc_true is not None and np.any(waveforms.mc_true):
            params''')], STUB + '''
truth = [np.array([1, 0, 2, 3]), np.zeros(4, int), np.array([0, 1, 0, 0])]
reader = Reader(True, truth)
ex = extractor(reader)
for w, t in zip(reader, truth):
    row = ex(w)
    assert "mc_true" in row and (row["mc_true"] == t).all(), w.iev
reader = Reader(False)
ex = extractor(reader)
assert all("mc_true" not in ex(w) for w in reader)
''', "a simulated event in which no pixel has a true photo-electron",
"the true charges of that event are not stored: its rows hold no value where they should hold zero")

SEED("c39-narrow-iev", "C39", "scripts/extract_dl1.py", [('''        df['iev'] = df['iev'].astype(np.uint32)
''', '''        df['iev'] = df['iev'].astype(np.uint16)
''')], '''
import numpy as np, pandas as pd
from CHECLabPy.scripts.extract_dl1 import DL1Writer
iev = np.repeat([3, 65535, 65536, 200000], 2)
df = pd.DataFrame(dict(iev=iev, pixel=[0, 1] * 4, t_tack=np.arange(8) + 2 ** 40, x=np.arange(8.0)))
out = DL1Writer._prepare_before_append(df.copy())
assert (out["iev"].values == iev).all(), out["iev"].values
assert (out["t_tack"].values == np.arange(8) + 2 ** 40).all()
assert (out["pixel"].values == df["pixel"].values).all()
''', "a run of more than 65536 events", "event numbers wrap around, and late events are stored as early ones")

FILE = '''
import os, tempfile, numpy as np, pandas as pd
from CHECLabPy.core.io import HDF5Writer, HDF5Reader
'''
SEED("c38-restriction-lost", "C38", "core/io/hdf5_reader.py", [('''            values.append(self.select_column(key, c, **kwargs))
''', '''            values.append(self.select_column(key, c))
''')], FILE + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.h5")
    with HDF5Writer(p) as w:
        w.append(pd.DataFrame(dict(x=np.arange(20), y=np.arange(20) * 2)))
    with HDF5Reader(p) as r:
        y, x = r.select_columns("data", ["y", "x"])
        assert list(y) == list(range(0, 40, 2)) and list(x) == list(range(20))
        y, x = r.select_columns("data", ["y", "x"], start=5, stop=8)
        assert list(y) == [10, 12, 14] and list(x) == [5, 6, 7], (list(y), list(x))
''', "columns requested for a range of rows", "the range is ignored and every row comes back")

SEED("c38-empty-table-refused", "C38", "core/io/hdf5_reader.py", [('''        if key not in self.metadata_keys:
            raise KeyError(''', '''        if key not in self.dataframe_keys:
            raise KeyError(''')], FILE + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.h5")
    with HDF5Writer(p) as w:
        w.write(values=pd.DataFrame(dict(x=np.arange(20))))
        w.add_metadata(key="fit", name="settings", fitter="abc")
        w.add_metadata(key="values", name="settings", n=3)
    with HDF5Reader(p) as r:
        assert r.get_metadata("values", "settings")["n"] == 3
        assert r.get_metadata("fit", "settings")["fitter"] == "abc"
''', "metadata attached to a name under which no rows are stored", "the metadata is in the file but refused as absent")

SEED("c38-request-order", "C38", "core/io/hdf5_reader.py", [('''        values = []
        for c in columns:
            values.append(self.select_column(key, c, **kwargs))
        return values
''', '''        table = self.select(key, columns=list(columns), **kwargs)
        return [table[c] for c in table.columns]
''')], FILE + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.h5")
    with HDF5Writer(p) as w:
        w.append(pd.DataFrame(dict(x=np.arange(20), y=np.arange(20) * 2)))
    with HDF5Reader(p) as r:
        a, b = r.select_columns("data", ["x", "y"])
        assert list(a) == list(range(20))
        a, b = r.select_columns("data", ["y", "x"])
        assert list(a) == list(range(0, 40, 2))
        a, b = r.select_columns("data", ["y", "y"])
        assert list(b) == list(range(0, 40, 2))
''', "columns requested in another order than they are stored in, or one twice", "the values of one column are taken for those of another")

SEED("c38-swapped-slot", "C38", "core/io/dl1_reader.py", [('''        return self.get_metadata('data', 'dac')[f"TM{tm:02}_SP{sp:02}"]
''', '''        return self.get_metadata('data', 'dac')[f"TM{sp:02}_SP{tm:02}"]
''')], '''
import os, tempfile, numpy as np, pandas as pd
from CHECLabPy.core.io import HDF5Writer
from CHECLabPy.core.io import DL1Reader
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.h5")
    with HDF5Writer(p) as w:
        w.append(pd.DataFrame(dict(iev=np.zeros(8), pixel=np.arange(8))))
        w.add_metadata(n_modules=4, n_superpixels_per_module=4, n_pixels=8, n_events=1, n_samples=4, is_mc=False)
        w.add_metadata(name="dac", **{f"TM{t:02}_SP{s:02}": 10 * t + s for t in range(4) for s in range(4)})
    with DL1Reader(p) as r:
        for t in range(4):
            for s in range(4):
                assert r.get_sp_dac(t, s) == 10 * t + s, (t, s)
''', "a superpixel whose number differs from its module's", "the setting of another superpixel is returned")

SEED("c12-last-table", "C12", "core/io/hdf5_writer.py", [('''        self.keys.add(key)
        self.df_list[key].append(df)
''', '''        self.keys = {key}
        self.df_list[key].append(df)
''')], FILE + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.h5")
    with HDF5Writer(p) as w:
        for i in range(3):
            w.append(pd.DataFrame(dict(x=[i])), key="a")
            w.append(pd.DataFrame(dict(y=[i])), key="b")
    with HDF5Reader(p) as r:
        assert list(r.read("b")["y"]) == [0, 1, 2]
        assert list(r.read("a")["x"]) == [0, 1, 2]
''', "frames appended to more than one table", "only the table appended to last is stored at the end")

SEED("c18-event-number", "C18", "utils/waveform.py", [('''        entry = self.iev % self.n_base
''', '''        entry = waveforms.iev % self.n_base
''')], '''
import numpy as np
from CHECLabPy.core.io.waveform import Waveform
from CHECLabPy.utils.waveform import BaselineSubtractor
class Source(list):
    n_pixels = 2
r = np.random.RandomState(1)
def event(i):
    return Waveform(r.normal(10 * i, 1, (2, 20)), iev=i)
sub = BaselineSubtractor(Source([event(i) for i in range(4)]), n_base=4, n_base_samples=8)
seen = []
for i in (0, 1, 4, 5, 8, 9, 12):      # events in between were skipped
    w = event(i)
    seen.append(np.asarray(w)[:, :8])
    sub.subtract(w)
    if len(seen) >= 4:
        assert np.allclose(sub.baseline, np.mean(seen[-4:], axis=(0, 2))), i
''', "skipped events, so that the event numbers have gaps", "the average holds events from long ago instead of the last N")
