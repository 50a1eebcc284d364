F = "core/spectrum_fitter.py"
SEED("c20-typed-lookup", "C20", F, [('''        self.minuit_kwargs = {}
        self._lookup_typed = None  # Reset
''', '''        self.minuit_kwargs = {}
''')], '''
from CHECLabPy.core.spectrum_fitter import SpectrumParameter as P, SpectrumParameterCollection as C
c = C([P("a", 1, (0, 2)), P("b", 1, (0, 2))], 2)
c.lookup_typed
c.update([P("a", 1, (0, 2), multi=True)])
for i in range(2):
    assert dict(c.lookup_typed[i]) == c.lookup[i], (dict(c.lookup_typed[i]), c.lookup[i])
''', "an update that makes a parameter per-illumination after the parameters were already used in a fit", "the fit evaluates the model with the parameter positions of before the update")
SEED("c21-range-default", "C21", F, [('''            self.range = tuple(d.pop('range', self.range))
''', '''            self.range = tuple(d.pop('range', (-10, 100)))
''')], '''
import tempfile, os
from CHECLabPy.core.factory import SpectrumFitterFactory as S
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "c.yml")
    for name in S.subclass_names:
        f = S.produce(name, n_illuminations=1)
        before = f.range
        open(p, "w").write("n_bins: 50\\n")
        f.load_config(p)
        assert f.n_bins == 50 and tuple(f.range) == tuple(before), (before, f.range)
''', "a configuration file without a range, loaded into a fitter whose range is not the base class default", "the fitter's own range is replaced")
SEED("c21-only-fixed", "C21", F, [('''            fixed[param.name] = param.fixed
        data''', '''            if param.fixed:
                fixed[param.name] = param.fixed
        data''')], '''
import tempfile, os
from CHECLabPy.core.factory import SpectrumFitterFactory as S
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "c.yml")
    for flag in (False, True):
        f = S.produce("SiPMGentileFitter", n_illuminations=1)
        f.parameters.opct.fixed = flag
        f.save_config(p)
        g = S.produce("SiPMGentileFitter", n_illuminations=1)
        g.parameters.opct.fixed = not flag
        g.parameters.update(g.parameters)
        g.load_config(p)
        assert g.parameters.opct.fixed is flag
        assert g.parameters.minuit_kwargs["fix_opct"] is flag
''', "a configuration saved from a fitter with a free parameter and loaded into one where it is fixed", "the parameter stays fixed after loading")
SEED("c22-first-area", "C22", "spectrum_fitters/gentile.py", [('''            spectrum *= np.trapz(data_y[i], data_x) / np.trapz(spectrum, data_x)
            likelihood''', '''            spectrum *= np.trapz(data_y[0], data_x) / np.trapz(spectrum, data_x)
            likelihood''')], '''
import numpy as np
from CHECLabPy.core.factory import SpectrumFitterFactory as S
f = S.produce("SiPMGentileFitter", n_illuminations=2)
x = np.linspace(-30, 200, 100).astype(np.float32)
y = [np.exp(-((x - 20) / 30) ** 2).astype(np.float32) * a for a in (100, 400)]
p = f.parameters
v = [float(p.minuit_kwargs[n]) for n in p.parameter_names]
def like(n, ys, lookup):
    fn = f._get_likelihood
    fn = getattr(fn, "py_func", fn)
    return fn(n, x, ys, lookup, *v)
lk = list(p.lookup_typed)
both = like(2, y, lk)
single = like(1, y[:1], lk[:1]) + like(1, y[1:], lk[1:])
assert abs(both - single) < 1e-3 * abs(single), (both, single)
''', "two illuminations with different numbers of events", "the second histogram is compared with a spectrum of the first one's area")
SEED("c22-sigma-pair", "C22", "spectrum_fitters/mapm.py", [('''        eped_sigma=parameter_values[lookup["eped_sigma"]],
''', '''        eped_sigma=parameter_values[lookup["eped"] + 1],
''')], '''
import numpy as np
from CHECLabPy.core.factory import SpectrumFitterFactory as S
from CHECLabPy.core.spectrum_fitter import SpectrumParameter as P
f = S.produce("MAPMFitter", n_illuminations=3)
ps = {p.name: p for p in f.parameters}
ps["eped"].multi = True
f.parameters.update(f.parameters)
c = f.parameters
value = {n: 1.0 + i for i, n in enumerate(c.parameter_names)}
import CHECLabPy.spectrum_fitters.mapm as m
got = []
real = m.mapm_spe
m.mapm_spe = lambda **kw: got.append(kw)
calc = getattr(m.calculate_spectrum, "py_func", m.calculate_spectrum)
try:
    for i in range(3):
        calc(np.zeros(3, np.float32), c.lookup[i], *[value[n] for n in c.parameter_names])
finally:
    m.mapm_spe = real
for i, kw in enumerate(got):
    for k, v in kw.items():
        if k != "x":
            want = value[k + str(i)] if ps[k].multi else value[k]
            assert v == want, (i, k, v, want)
''', "a pedestal fitted per illumination", "the pedestal width is read from the pedestal of the next illumination")
FIT = '''
class F:
    n_illuminations = 1
    fit_result_values = None
    def apply(self, c):
        import time
        time.sleep(0.02)
        self.fit_result_values = {"m": float(c.sum())}
        self.fit_result_errors = {"m": float(c.min())}
        self.charge_histogram = (c, [c], c)
        self.fit_result_curve = (c, [c])
'''
SEED("c23-imap", "C23", "scripts/extract_spe.py", [('''            pool.map(self._apply_pixel, trange(n_pixels))
''', '''            pool.imap_unordered(self._apply_pixel, trange(n_pixels))
''')], FIT + '''
import numpy as np
from CHECLabPy.scripts.extract_spe import PixelFitApplier
if __name__ == "__main__":
    for run in ("process", "multiprocess"):
        a = PixelFitApplier(F())
        c = np.arange(40).reshape(4, 10)
        a.process(c) if run == "process" else a.multiprocess(2, c)
        assert sorted(a.pixel_values.keys()) == list(range(10)), a.pixel_values.keys()
        for k in range(10):
            assert a.pixel_values[k]["m"] == c[:, k].sum()
''', "more than one process: leaving the pool's context ends the workers", "pixels that were not fitted yet are missing from every table")
SEED("c23-edges-kept", "C23", F, [('''                charges[i], bins=self.n_bins, range=self.range
            )
''', '''                charges[i], range=self.range,
                bins=self.n_bins if self.charge_hist_x is None else self.charge_hist_edges
            )
''')], '''
import numpy as np
from CHECLabPy.core.factory import SpectrumFitterFactory as S
f = S.produce("SiPMGentileFitter", n_illuminations=1)
f._get_likelihood = lambda *a: 1.0
f.apply(np.zeros(10))
f.range, f.n_bins = (0, 50), 25
f.apply(np.zeros(10))
assert len(f.charge_hist_x) == 25 and f.charge_hist_edges[0] == 0, f.charge_hist_edges
''', "two fits with the same fitter and a changed binning in between", "the second histogram is made in the bins of the first")
