SEED("c35-width-linear", "C35", "spectrum_fitters/mapm.py", [('''        pe_sigma = sqrt(k * spe_sigma ** 2 + eped_sigma ** 2)
''', '''        pe_sigma = sqrt((k * spe_sigma) ** 2 + eped_sigma ** 2)
''')], '''
import numpy as np
from CHECLabPy.spectrum_fitters.mapm import mapm_spe
x = np.linspace(-200, 1500, 40000).astype("float32")
y = mapm_spe(x, 0.0, 3.0, 25.0, 6.0, 4.0)
y = y / np.trapz(y, x)
m = np.trapz(x * y, x)
v = np.trapz((x - m) ** 2 * y, x)
# variance of a sum of a Poisson number of photo-electrons
want = 4.0 * (25.0 ** 2 + 6.0 ** 2) + 3.0 ** 2
assert abs(v / want - 1) < 0.01, (v, want)
''', "several photo-electrons (with one both widths agree)",
"the spread of the photo-electrons is added linearly, not in quadrature, so the high peaks are too wide")

SEED("c35-skip-on-weight", "C35", "spectrum_fitters/gentile.py", [('''            if pj < 1e-4:
                continue
''', '''            if pj < 1e-4:
                break
''')], '''
import numpy as np
from CHECLabPy.spectrum_fitters.gentile import sipm_gentile_spe
x = np.linspace(-100, 3500, 40000).astype("float32")
for lam in (0.5, 3.0, 6.0, 11.0, 11.9, 14.0):
    a = np.trapz(sipm_gentile_spe(x, 0.0, 9.0, 25.0, 2.0, 0.1, lam), x)
    assert a > 0.97, (lam, a)
''', "an illumination for which a single photo-electron is insignificant (above about 11.7)",
"the sum over initial cells ends at the first insignificant term although the later ones are significant: only the pedestal is left")


SEED("c35-fewer-peaks", "C35", "spectrum_fitters/gentile.py", [('''    for k in range(1, 100):
''', '''    for k in range(1, 40):
''')], '''
import numpy as np
from CHECLabPy.spectrum_fitters.gentile import sipm_gentile_spe
x = np.linspace(-100, 5500, 40000).astype("float32")
for opct, lam in ((0.1, 0.7), (0.2, 6.0), (0.6, 9.0), (0.5, 11.0), (0.75, 6.0)):
    a = np.trapz(sipm_gentile_spe(x, 0.0, 9.0, 25.0, 2.0, opct, lam), x)
    assert a > 0.97, (opct, lam, a)
''', "strong crosstalk with strong illumination, so that more than forty cells fire",
"the spectrum is cut in the middle of its distribution")

SEED("c35-cut-rising", "C35", "spectrum_fitters/mapm.py", [('''        # Skip insignificant probabilities
        if p > pk_max:
            pk_max = p
        elif p < 1e-4:
            break
''', '''        # Skip insignificant probabilities
        if p < 1e-4:
            break
''')], '''
import numpy as np
from CHECLabPy.spectrum_fitters.mapm import mapm_spe
x = np.linspace(-100, 3000, 40000).astype("float32")
for lam in (0.7, 3.0, 6.0, 11.0, 12.0, 20.0):
    y = mapm_spe(x, 0.0, 9.0, 25.0, 2.0, lam)
    a = np.trapz(y, x)
    assert a > 0.97, (lam, a)
''', "an illumination so strong that a single photo-electron is improbable",
"the sum ends at the first peak, before its largest weight")
