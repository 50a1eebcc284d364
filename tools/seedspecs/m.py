SEED("c29-force-unbound", "C29", "core/io/hdf5_reader.py", [('''        n_bytes = self.get_n_bytes(key)
        if (n_bytes > 8E9) and not force:
            raise MemoryError(
                f"DataFrame is larger than 8GB ({n_bytes*1e-9:.2f}GB), "
                "set force=True to proceed with "
                "loading the entire DataFrame into memory"
            )
''', '''        if not force:
            n_bytes = self.get_n_bytes(key)
            if n_bytes > 8E9:
                raise MemoryError(
                    f"DataFrame is larger than 8GB ({n_bytes*1e-9:.2f}GB), "
                    "set force=True to proceed with "
                    "loading the entire DataFrame into memory"
                )
''')], '''
import os, tempfile, pandas as pd
from CHECLabPy.core.io import HDF5Writer, HDF5Reader
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.h5")
    with HDF5Writer(p) as w:
        w.append(pd.DataFrame(dict(a=[1, 2, 3])), key="data")
    with HDF5Reader(p) as r:
        assert list(r.read("data")["a"]) == [1, 2, 3]
        assert list(r.read("data", force=True)["a"]) == [1, 2, 3]
''', "a table read with force=True", "the size of the table is used although it was never obtained")
SEED("c29-error-path-name", "C29", "calib/sipm_data_sheet.py", [('''                "SiPMDataSheetConverter.convert requires a single "
                "named value (e.g. opct=0.25)"
''', '''                "SiPMDataSheetConverter.convert requires a single "
                f"named value out of {keys} (e.g. opct=0.25)"
''')], '''
from CHECLabPy.calib.sipm_data_sheet import SiPMDataSheetConverter
c = SiPMDataSheetConverter()
for kw in [dict(), dict(opct=0.2, gain=3.0)]:
    try:
        c(**kw)
    except ValueError:
        pass
    else:
        raise AssertionError(kw)
assert c(opct=0.2)
''', "a call with no or more than one value", "the error message uses a name that does not exist, so a NameError is raised instead")
SEED("c29-hv-neither", "C29", "utils/files.py", [('''            else:
                pattern = pattern_dac
                value_array = dac
''', '''            elif 'HV' in line:
                pattern = pattern_dac
                value_array = dac
''')], '''
import os, tempfile
from CHECLabPy.utils.files import extract_hv_cfg
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "hv.cfg")
    with open(p, "w") as f:
        f.write("# settings\\nM:1/F/S:2|HV=77\\nM:1/F/S:2|HVOn=1\\n")
    dac, hvon = extract_hv_cfg(p)
    assert dac[1, 2] == 77 and hvon[1, 2] == 1 and dac.sum() == 77
''', "a configuration file that starts with a line about something else", "the pattern is used before it is assigned")
