H = '''
import os, tempfile, numpy as np, pandas as pd, warnings
warnings.simplefilter('ignore')
from CHECLabPy.core.io import HDF5Writer, HDF5Reader
tmp = tempfile.TemporaryDirectory()
path = os.path.join(tmp.name, 'f.h5')
df = lambda n: pd.DataFrame(dict(a=np.arange(n), b=np.arange(n) * 2.))
def set_size(path, key, n_bytes):
    with pd.HDFStore(path, mode='a') as store:
        attrs = store.get_storer(key).attrs
        m = attrs.metadata
        m['n_bytes'] = n_bytes
        attrs.metadata = m
'''
SEED("c14-size-of-data", "C14", "core/io/hdf5_reader.py", [(
"        n_bytes = self.get_n_bytes(key)\n        if (n_bytes > 8E9) and not force:",
"        n_bytes = max(self.get_n_bytes(k) for k in self.dataframe_keys[:1])\n        if (n_bytes > 8E9) and not force:")],
H + '''
with HDF5Writer(path) as w:
    w.append(df(5), key='a')
    w.append(df(5), key='b')
for big in ('a', 'b'):
    set_size(path, big, 9e9)
    set_size(path, 'b' if big == 'a' else 'a', 100)
    with HDF5Reader(path) as r:
        for k in ('a', 'b'):
            try:
                r.read(k)
                ok = True
            except MemoryError:
                ok = False
            assert ok == (k != big), (big, k, ok)
        assert len(r.read(big, force=True)) == 5
''', "a file with several tables of which a later one is larger than 8 GB", "the size of another table decides whether a table may be loaded")

SEED("c14-info-prefix", "C14", "core/io/hdf5_reader.py", [(
"                if subattr in ['info']:", "                if 'info' in subattr:")],
H + '''
with HDF5Writer(path) as w:
    w.append(df(5), key='data')
    w.add_metadata(key='data', name='run_info', run=3)
    w.add_metadata(key='data', name='config', x=1)
with HDF5Reader(path) as r:
    assert r.get_metadata('data', 'config') == dict(x=1)
    assert r.get_metadata('data', 'run_info') == dict(run=3)
''', "a metadata dictionary whose name contains 'info'", "stored metadata cannot be read back")

