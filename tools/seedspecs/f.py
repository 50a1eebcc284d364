import os
_ns = {"SEED": lambda *a: None}
exec(open("/verif/tools/seedspecs/c.py").read(), _ns)
RUN = _ns["RUN"]
SEED("c17-superpixel-key", "C17", "scripts/extract_dl1.py", [(
"                tm_sp_str = f'TM{tm:02}_SP{sp:02}'", "                tm_sp_str = f'{tm_str}_SP{sp}'")],
RUN + '''
Source.n_superpixels_per_module = 12
try:
    extract([(False, False)] * 2)
    with DL1Reader(os.path.join(d, "o.h5")) as r:
        for sp in range(12):
            assert r.get_sp_dac(0, sp) == 9
            assert r.get_sp_hvon(0, sp) == 9
finally:
    shutil.rmtree(d)
''', "a lookup of a superpixel with a one-digit number; superpixels 10 and above are found", "DAC and HV tables are stored under another key format than the reader uses")

SEED("c17-telescope-up", "C17", "utils/mapping.py", [(
"            fOTUpCol_l=tc_mapping.fOTUpCol_l,\n            fOTUpCol_u=tc_mapping.fOTUpCol_u,\n",
"            **{f'fOTUp{a}_{e}': getattr(tc_mapping, f'fOTUp{a}_{e}') for a in ('Column',) for e in 'lu'},\n")],
'''
import matplotlib
matplotlib.use('Agg')
import pandas as pd
from types import SimpleNamespace
from CHECLabPy.utils.mapping import get_clp_mapping_from_tc_mapping
import CHECLabPy.plotting.camera as c
class Tc:
    def as_dataframe(self):
        return pd.DataFrame(dict(pixel=[0, 1], row=[0, 0], col=[0, 1], xpix=[0., 1.], ypix=[0., 0.]))
    def __getattr__(self, n):
        if n.startswith('Get') or n == 'IsSingleModule':
            return lambda: 2
        if n in ['fOTUp%s_%s' % (a, e) for a in ('Row', 'Col', 'X', 'Y', 'Column') for e in 'lu']:
            return 1.0
        raise AttributeError(n)
m = get_clp_mapping_from_tc_mapping(Tc())
import inspect
for n, k in inspect.getmembers(c, inspect.isclass):
    if k.__module__ == c.__name__ and 'annotate_on_telescope_up' in k.__dict__:
        from matplotlib import pyplot as plt
        f, ax = plt.subplots()
        k.annotate_on_telescope_up(SimpleNamespace(_mapping=m, ax=ax))
        plt.close(f)
''', "annotating the telescope-up direction on a row/column camera plot", "the row/column plots look up a mapping attribute that is not stored")
