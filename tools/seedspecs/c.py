STUB = '''
import sys, types, numpy as np, os, tempfile
'''
SEED("c11-last-superpixel", "C11", "core/io/dl1_reader.py", [(
"        if sp >= self.n_superpixels_per_module:\n            raise IndexError(\"Requested SP out of range: {}\".format(sp))\n        return self.get_metadata('data', 'hvon')[f\"TM{tm:02}_SP{sp:02}\"]",
"        hvon = self.get_metadata('data', 'hvon')\n        return hvon.get(f\"TM{tm:02}_SP{sp:02}\", np.nan)")],
'''
from CHECLabPy.core.io import DL1Reader
class R(DL1Reader):
    def __init__(self):
        pass
    def get_metadata(self, key='data', name='metadata'):
        if name == 'metadata':
            return dict(n_modules=2, n_superpixels_per_module=3)
        return {f"TM{t:02}_SP{s:02}": 10 * t + s for t in range(2) for s in range(3)}
r = R()
for q in (r.get_sp_dac, r.get_sp_hvon):
    assert q(1, 2) == 12
    for tm, sp in ((0, 3), (2, 0), (1, 99)):
        try:
            q(tm, sp)
        except IndexError:
            continue
        raise AssertionError("%s(%d, %d) answered" % (q.__name__, tm, sp))
''', "a superpixel number at or beyond the superpixels of a module, HV state only", "a superpixel that does not exist is answered with nan")

SEED("c11-hvon-args", "C11", "core/io/tio.py", [(
"        return self._reader.GetSPHVON(tm, sp)", "        index = tm * self.n_modules + sp\n        return self._reader.GetSPHVON(*divmod(index, self.n_modules))")],
'''
from CHECLabPy.core.io import TIOReader
class Lib:
    def GetSPHVON(self, tm, sp):
        return (tm, sp)
    GetSPDAC = GetSPHVON
class R(TIOReader):
    def __init__(self, n):
        self.n_modules, self.n_superpixels_per_module, self._reader = n, 16, Lib()
for n in (32, 16, 1):
    r = R(n)
    for tm in range(n):
        for sp in range(16):
            assert r.get_sp_hvon(tm, sp) == (tm, sp) == r.get_sp_dac(tm, sp), (n, tm, sp, r.get_sp_hvon(tm, sp))
''', "a camera with fewer modules than superpixels per module (a single-module setup)", "the HV state of another module is returned")

RUN = '''
import os, tempfile, shutil, numpy as np, pandas as pd
import CHECLabPy.scripts.extract_dl1 as x
from CHECLabPy.core.io import DL1Reader
from CHECLabPy.core.io.waveform import Waveform
d = tempfile.mkdtemp()
class Map(pd.DataFrame):
    pass
class Source:
    n_pixels, n_samples, n_modules, n_superpixels_per_module = 4, 64, 1, 1
    n_cells, run_id, camera_version, is_mc, reference_pulse_path = 8, 1, "1.1.0", False, ""
    def __init__(self, flags, path):
        self.flags, self.path = flags, path
        self.n_events = len(flags)
        m = pd.DataFrame(dict(pixel=np.arange(4)))
        m.metadata = dict(n_pixels=4)
        self.mapping = m
    def __iter__(self):
        for i, (stale, missing) in enumerate(self.flags):
            w = np.random.default_rng(i).normal(size=(4, 64)).astype(np.float32)
            yield Waveform(w, i, True, 5, stale, missing, 100 + i, (1000 + i, 5))
    def get_sn(self, tm):
        return 7
    get_sipm_temp = get_primary_temp = get_sn
    def get_sp_dac(self, tm, sp):
        return 9
    get_sp_hvon = get_sp_dac
x.TimeCalibrator = lambda: None
cfg = os.path.join(d, "c.yml")
open(cfg, "w").write("waveform_mean: true\\n")
def extract(flags, name="a_r1.tio", out=None):
    p = os.path.join(d, name)
    if not os.path.exists(p):
        open(p, "w").write("input")
    s = Source(flags, p)
    o = out or os.path.join(d, "o.h5")
    x.DL1Writer.write_dl1_file(s, x.DL1Extractor(s, cfg), o)
    with DL1Reader(o) as r:
        return r.load_entire_table(), r.metadata
'''
SEED("c16-incomplete-times", "C16", "scripts/extract_dl1.py", [(
"                end_time = waveforms.t_cpu\n                if start_time is None:\n                    start_time = waveforms.t_cpu\n",
""), (
"            for waveforms in tqdm(reader, total=reader.n_events, desc=desc):\n",
"            for waveforms in tqdm(reader, total=reader.n_events, desc=desc):\n                end_time = waveforms.t_cpu\n                if start_time is None:\n                    start_time = waveforms.t_cpu\n")],
RUN + '''
try:
    df, m = extract([(False, False)] * 3 + [(False, True)])
    assert m["end_time"] == pd.to_datetime(1002 * 10**9 + 5), m["end_time"]
    df, m = extract([(True, False)] + [(False, False)] * 3)
    assert m["start_time"] == pd.to_datetime(1001 * 10**9 + 5), m["start_time"]
    assert m["n_events"] == 3 and m["n_skipped"] == 1 and len(df) == 12
finally:
    shutil.rmtree(d)
''', "a run that starts or ends with a stale or incomplete event", "recorded start and end times are those of skipped events")

SEED("c16-count-late", "C16", "scripts/extract_dl1.py", [(
"                if dl1_extractor.skip_event(waveforms):\n                    n_events_skipped += 1\n                    continue\n",
"                if dl1_extractor.skip_event(waveforms):\n                    n_events_skipped += int(waveforms.stale)\n                    continue\n")],
RUN + '''
try:
    df, m = extract([(False, False), (False, True), (True, False), (True, True), (False, False)])
    assert m["n_events"] == 2 and m["n_skipped"] == 3, (m["n_events"], m["n_skipped"])
finally:
    shutil.rmtree(d)
''', "an event with missing packets that is not stale", "events with missing packets are dropped without being counted")
