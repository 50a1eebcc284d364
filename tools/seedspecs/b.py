SEED("c03-none-is-on", "C03", "core/reducer.py", [(
"        return [col for col in cls.columns if kwargs.get(col, default)]",
"        return [\n            col for col in cls.columns\n            if kwargs.get(col, default) is not False\n        ]")],
'''
from CHECLabPy.waveform_reducers.average_wf import AverageWF
import numpy as np
wf = np.random.default_rng(0).normal(size=(4, 64))
for off in (False, 0, None):
    r = AverageWF(4, 64, t_averagewf=off)
    assert set(r.process(wf)) == {"charge_averagewf"}, "column switched off with %r is in the output" % off
''', "a column switched off with 0 or an empty entry instead of false", "columns switched off with 0 or null stay enabled")

SEED("c03-settings-enable", "C03", "waveform_reducers/cross_correlation.py", [(
"        super().__init__(n_pixels, n_samples, **kwargs)\n",
"        columns = {\"charge_cc\": True} if kwargs.get(\"height_cc\") else {}\n        super().__init__(n_pixels, n_samples, **{**columns, **kwargs})\n")],
'''
from CHECLabPy.waveform_reducers.cross_correlation import CrossCorrelation
import numpy as np, tempfile, os
d = tempfile.mkdtemp()
p = os.path.join(d, "ref.txt")
x = np.arange(0, 60E-9, 0.1E-9)
np.savetxt(p, np.column_stack([x, np.exp(-0.5 * ((x - 20E-9) / 3E-9) ** 2)]))
r = CrossCorrelation(4, 64, reference_pulse_path=p, _disable_by_default=True, height_cc=True)
got = set(r.active_columns)
os.remove(p); os.rmdir(d)
assert got == {"height_cc"}, got
''', "a configuration that names height_cc but not charge_cc, with unnamed columns off", "naming one column switches another one on")

SEED("c04-empty-argument", "C04", "core/chain.py", [(
"            config = {**config, **loaded_config, **kwargs}\n",
"            config = {**config, **kwargs}\n            for key, value in loaded_config.items():\n                if not config.get(key):\n                    config[key] = value\n")],
'''
import tempfile, os
from CHECLabPy.core.chain import WaveformReducerChain
d = tempfile.mkdtemp()
p = os.path.join(d, "c.yml")
open(p, "w").write("waveform_mean: true\\nbaseline_start_mean: true\\n")
c = WaveformReducerChain(4, 64, config_path=p, waveform_mean=False)
names = c.config
os.remove(p); os.rmdir(d)
assert names["waveform_mean"] is False, "the file overrides an explicit argument"
assert names["baseline_start_mean"] is True
''', "an explicit argument that switches off a column the file switches on", "an argument with a false value loses against the configuration file")

SEED("c05-bare-template", "C05", "scripts/generate_dl1_config.py", [(
"            for c in r.columns:\n",
"            columns = [c for c in r.columns if not bare or c in default]\n            for c in columns:\n")],
'''
import sys, tempfile, os, yaml
from CHECLabPy.scripts import generate_dl1_config
from CHECLabPy.core.reducer import column, WaveformReducer
from CHECLabPy.core import child_subclasses
d = tempfile.mkdtemp()
p = os.path.join(d, "c.yml")
sys.argv = ["x", "-o", p, "--bare"]
generate_dl1_config.main()
text = open(p).read()
os.remove(p); os.rmdir(d)
want = {c for r in child_subclasses(WaveformReducer) for c in r.columns}
got = set(yaml.safe_load(text))
assert got == want, want ^ got
''', "the --bare option, for columns missing in the default table", "the bare template leaves out columns that have no entry in the default table")

SEED("c05-neighbour-name", "C05", "waveform_reducers/sliding_window.py", [(
"    def t_sliding_nn(self):", "    def t_slidingnn(self):")],
'''
import CHECLabPy.waveform_reducers
from CHECLabPy.core.chain import WaveformReducerChain
from CHECLabPy.core.reducer import WaveformReducer
from CHECLabPy.core import child_subclasses
cols = {c for r in child_subclasses(WaveformReducer) for c in r.columns}
bad = set(WaveformReducerChain.default_columns) - cols
assert not bad, bad
''', "a configuration using the built-in name of the column", "a name in the built-in default table is no longer a column")
