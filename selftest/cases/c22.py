G="spectrum_fitters/gentile.py"; M="spectrum_fitters/mapm.py"; F="core/spectrum_fitter.py"
CALC='''    return mapm_spe(
        x=data_x,
        eped=parameter_values[lookup["eped"]],
        eped_sigma=parameter_values[lookup["eped_sigma"]],
        spe=parameter_values[lookup["spe"]],
        spe_sigma=parameter_values[lookup["spe_sigma"]],
        lambda_=parameter_values[lookup["lambda_"]],
    )
'''
LIKE='''        likelihood = 0
        for i in range(n_illuminations):
            spectrum = calculate_spectrum(data_x, lookup[i], *parameter_values)
            spectrum *= np.trapz(data_y[i], data_x) / np.trapz(spectrum, data_x)
            likelihood += np.nansum(-2 * poisson_logpmf(data_y[i], spectrum))
        return likelihood
'''
SPEC='''        spectra = []
        for i in range(n_illuminations):
            spectrum = calculate_spectrum(data_x, lookup[i], *parameter_values)
            spectra.append(spectrum)
        return spectra
'''
BUG("c22-swap","C22",M,CALC,CALC.replace('eped_sigma=parameter_values[lookup["eped_sigma"]]','eped_sigma=parameter_values[lookup["spe_sigma"]]').replace('spe_sigma=parameter_values[lookup["spe_sigma"]]','spe_sigma=parameter_values[lookup["eped_sigma"]]',2))
BUG("c22-dup","C22",M,CALC,CALC.replace('lookup["eped_sigma"]','lookup["spe_sigma"]'))
BUG("c22-const","C22",M,CALC,CALC.replace('eped=parameter_values[lookup["eped"]]','eped=0'))
BUG("c22-pos","C22",M,CALC,CALC.replace('lambda_=parameter_values[lookup["lambda_"]]','lambda_=parameter_values[4]'))
BUG("c22-undeclared","C22",G,'            SpectrumParameter("opct", 0.4, (0, 1)),\n','')
BUG("c22-extra","C22",M,'            SpectrumParameter("spe", 25, (0, 40)),\n','            SpectrumParameter("spe", 25, (0, 40)),\n            SpectrumParameter("opct", 0.4, (0, 1)),\n')
BUG("c22-l0","C22",G,LIKE,LIKE.replace("lookup[i]","lookup[0]"))
BUG("c22-s0","C22",G,SPEC,SPEC.replace("lookup[i]","lookup[0]"))
BUG("c22-y0","C22",G,LIKE,LIKE.replace("np.trapz(data_y[i]","np.trapz(data_y[0]"))
BUG("c22-y-1","C22",M,LIKE,LIKE.replace("poisson_logpmf(data_y[i]","poisson_logpmf(data_y[i-1]"))
BUG("c22-set","C22",M,LIKE,LIKE.replace("likelihood +=","likelihood ="))
BUG("c22-from1","C22",M,LIKE,LIKE.replace("range(n_ill","range(1, n_ill"))
BUG("c22-ret","C22",M,LIKE,LIKE.replace("        return likelihood","            return likelihood"))
BUG("c22-n","C22",G,'multi=True),\n        ], n_illuminations)','multi=True),\n        ], 1)')
BUG("c22-curve-vals","C22",F,"            *self.fit_result_values.values()\n","            *sorted(self.fit_result_values.values())\n")
BUG("c22-curve-keys","C22",F,"            *self.fit_result_values.values()\n","            *self.fit_result_errors.values()\n")
BUG("c22-curve-n","C22",F,"        fit_y = self._get_spectra(\n            self.n_illuminations,","        fit_y = self._get_spectra(\n            1,")
BUG("c22-curve-scale","C22",F,"hist_area = np.trapz(self.charge_hist_y[i], self.charge_hist_x)","hist_area = np.trapz(self.charge_hist_y[0], self.charge_hist_x)")
BUG("c22-fit-grid","C22",F,"                self.n_illuminations,\n                self.charge_hist_x,","                self.n_illuminations,\n                self.charge_hist_edges,")
BUG("c22-unused","C22",M,"pe_sigma = sqrt(k * spe_sigma ** 2 + eped_sigma ** 2)","pe_sigma = sqrt(k * eped_sigma ** 2 + eped_sigma ** 2)")
OK("ok-c22-positional","",M,CALC,'''    eped = parameter_values[lookup["eped"]]
    eped_sigma = parameter_values[lookup["eped_sigma"]]
    spe, spe_sigma = parameter_values[lookup["spe"]], parameter_values[lookup["spe_sigma"]]
    return mapm_spe(data_x, eped, eped_sigma, spe, spe_sigma, parameter_values[lookup["lambda_"]])
''')
OK("ok-c22-inline","",M,SPEC,'''        return [calculate_spectrum(data_x, lookup[i], *parameter_values) for i in range(n_illuminations)]
''')
OK("ok-c22-like","",G,LIKE,'''        total = 0
        for j in range(n_illuminations):
            observed = data_y[j]
            expected = calculate_spectrum(data_x, lookup[j], *parameter_values)
            scale = np.trapz(observed, data_x) / np.trapz(expected, data_x)
            total = total + np.nansum(-2 * poisson_logpmf(observed, expected * scale))
        return total
''')
OK("ok-c22-extract","",G,LIKE,LIKE.replace("            spectrum *= np.trapz(data_y[i], data_x) / np.trapz(spectrum, data_x)\n            likelihood += np.nansum(-2 * poisson_logpmf(data_y[i], spectrum))\n","            likelihood += one_likelihood(data_x, data_y[i], spectrum)\n"),"@njit(fastmath=True)\ndef calculate_spectrum","@njit(fastmath=True)\ndef one_likelihood(x, y, spectrum):\n    spectrum = spectrum * np.trapz(y, x) / np.trapz(spectrum, x)\n    return np.nansum(-2 * poisson_logpmf(y, spectrum))\n\n\n@njit(fastmath=True)\ndef calculate_spectrum")
OK("ok-c22-curve","",F,"            *self.fit_result_values.values()\n","            *[self.fit_result_values[name] for name in self.parameters.parameter_names]\n")
OK("ok-c22-zip","",F,'''        for i in range(self.n_illuminations):
            hist_area = np.trapz(self.charge_hist_y[i], self.charge_hist_x)
            fit_y[i] *= hist_area / np.trapz(fit_y[i], fit_x)
''','''        for curve, hist in zip(fit_y, self.charge_hist_y):
            curve *= np.trapz(hist, self.charge_hist_x) / np.trapz(curve, fit_x)
''')
