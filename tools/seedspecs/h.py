D = '''
from CHECLabPy.core.spectrum_fitter import SpectrumParameter as P, SpectrumParameterCollection as C
for n in (1, 2, 3, 5):
    for multi in ((False, False, True), (True, False, True), (True, True, False)):
        for fixed in (False, True):
            c = C([P(k, i, (0, 9), multi=m, fixed=fixed) for i, (k, m) in enumerate(zip("abc", multi))], n)
            assert len(set(c.parameter_names)) == len(c.parameter_names)
            for i in range(n):
                for k, m in zip("abc", multi):
                    want = k + str(i) if m else k
                    assert c.parameter_names[c.lookup[i][k]] == want, (n, multi, i, k, c.lookup)
                    assert c.minuit_kwargs["fix_" + want] == fixed
                    assert c.minuit_kwargs[want] == "abc".index(k)
                    assert c.minuit_kwargs["limit_" + want] == (0, 9)
'''
SEED("c19-fix-first", "C19", "core/spectrum_fitter.py", [(
'''                    self.minuit_kwargs["fix_" + name] = param.fixed
                    self.lookup[i][param.name] = lookup_i
''', '''                    self.minuit_kwargs["fix_" + name] = param.fixed and i == 0
                    self.lookup[i][param.name] = lookup_i
''')], D, "a fixed per-illumination parameter and at least two illuminations", "only the first illumination's parameter is fixed in the minimiser")
