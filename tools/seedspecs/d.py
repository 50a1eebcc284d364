SEED("c09-slice-truth", "C09", "core/io/waveform.py", [(
"        self.mc_true = getattr(obj, 'mc_true', None)",
"        self.mc_true = None\n        if self.shape == getattr(obj, 'shape', None):\n            self.mc_true = getattr(obj, 'mc_true', None)")],
'''
import numpy as np
from CHECLabPy.core.io.waveform import Waveform
w = Waveform(np.zeros((4, 8)), iev=3, mc_true=np.arange(4), t_tack=7)
for d in (w.view(), w + 1, w.copy(), w[:, :4], w[1:3], w.T, w.reshape(8, 4), w.astype(int), w.mean(axis=1)):
    assert d.iev == 3 and d.t_tack == 7
    assert d.mc_true is not None
''', "a derived array whose shape differs from the original (slice, transpose, reduction)", "the true charge is lost when the waveforms are sliced")

SEED("c09-tack-width", "C09", "scripts/extract_dl1.py", [(
"            df['t_tack'] = df['t_tack'].astype(np.uint64)", "            df['t_tack'] = df['t_tack'].astype(np.int64) & 0x7fffffff")],
'''
import numpy as np, pandas as pd
from CHECLabPy.scripts.extract_dl1 import DL1Writer
for t in (5, 2**31 - 1, 2**31, 2**40 + 3):
    df = pd.DataFrame(dict(iev=[1, 1], pixel=[0, 1], t_tack=[t, t], first_cell_id=[3, 3]))
    out = DL1Writer._prepare_before_append(df)
    assert list(out['t_tack']) == [t, t], (t, list(out['t_tack']))
''', "a TACK time stamp of 2**31 or more", "the stored TACK time stamp is truncated")

BIG = '''
import os, tempfile, numpy as np, pandas as pd, warnings
warnings.simplefilter('ignore')
from CHECLabPy.core.io import HDF5Writer, HDF5Reader, HDF5Appender
class Big(pd.DataFrame):
    """a frame that reports a large size, so that the buffer is written at once"""
    @property
    def _constructor(self):
        return Big
    def memory_usage(self, *a, **k):
        return pd.Series([6e8])
tmp = tempfile.TemporaryDirectory()
path = os.path.join(tmp.name, 'f.h5')
'''
SEED("c12-flush-drops-others", "C12", "core/io/hdf5_writer.py", [(
"            self.df_list[key] = []\n            self.df_list_n_bytes[key] = 0", "            self.df_list.clear()\n            self.df_list_n_bytes.clear()")],
BIG + '''
with HDF5Writer(path) as w:
    w.append(pd.DataFrame(dict(a=[1, 2])), key='one')
    w.append(Big(dict(b=[5, 6])), key='two')
    w.append(pd.DataFrame(dict(a=[3])), key='one')
with pd.HDFStore(path, 'r') as s:
    assert list(s['two']['b']) == [5, 6]
    assert list(s['one']['a']) == [1, 2, 3], list(s['one']['a'])
''', "two interleaved tables, one of which exceeds the buffer size while the other has buffered rows", "rows buffered for other tables are lost when one table is flushed")

SEED("c12-size-last-flush", "C12", "core/io/hdf5_writer.py", [(
"            self.n_bytes[key] += df.memory_usage(index=True, deep=True).sum()", "            self.n_bytes[key] = df.memory_usage(index=True, deep=True).sum()")],
BIG + '''
with HDF5Writer(path) as w:
    w.append(Big(dict(b=[5.0, 6.0])), key='two')
    w.append(pd.DataFrame(dict(b=[7.0])), key='two')
with pd.HDFStore(path, 'r') as s:
    assert list(s['two']['b']) == [5, 6, 7]
    assert s.get_storer('two').attrs.metadata['n_bytes'] > 6e8, s.get_storer('two').attrs.metadata
''', "a table that is flushed more than once", "the recorded byte count covers only the last flush")

SEED("c13-merge-default-only", "C13", "core/io/hdf5_appender.py", [(
"                if hasattr(attrs, name):", "                if hasattr(attrs, name) and 'version' in getattr(attrs, name):")],
BIG + '''
with HDF5Writer(path) as w:
    w.append(pd.DataFrame(dict(a=[1, 2])), key='data')
    w.add_metadata(name='config', x=1, y=2)
    w.add_metadata(run=3)
with HDF5Appender(path) as w:
    w.append(pd.DataFrame(dict(a=[3])), key='data')
    w.add_metadata(name='config', y=5)
    w.add_metadata(other=4)
with HDF5Reader(path) as r:
    m = r.get_metadata()
    assert m['run'] == 3 and m['other'] == 4
    assert r.get_metadata(name='config') == dict(x=1, y=5), r.get_metadata(name='config')
''', "metadata of another name than the default one, given again while appending", "entries of other metadata tables that are not given again are lost")

SEED("c13-recount", "C13", "core/io/hdf5_appender.py", [(
"            self._append_to_store(key)\n            self.add_metadata",
"            if self.df_list[key]:\n                self.n_bytes[key] = 0\n            self._append_to_store(key, None)\n            self.add_metadata")],
BIG + '''
with HDF5Writer(path) as w:
    w.append(pd.DataFrame(dict(a=np.arange(1000.0))), key='data')
with HDF5Reader(path) as r:
    old = r.get_n_bytes('data')
with HDF5Appender(path) as w:
    w.append(pd.DataFrame(dict(a=np.arange(10.0))), key='data')
with HDF5Reader(path) as r:
    assert r.get_n_rows('data') == 1010
    assert r.get_n_bytes('data') > old, (old, r.get_n_bytes('data'))
''', "appending to a table that already has rows", "the recorded size forgets the rows the file already held")
