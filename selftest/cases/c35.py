D="stats/pdf.py"
G="spectrum_fitters/gentile.py"
M="spectrum_fitters/mapm.py"
BUG("c35-binom","C35",D,"lgamma(n - k + 1)","lgamma(n - k)")
BUG("c35-binom2","C35",D,"exp(lgamma(n + 1) -","exp(lgamma(n) -")
BUG("c35-poisson","C35",D,"exp(k * log(mu) - mu - lgamma(k + 1))","exp(k * log(mu) - mu - lgamma(k))")
BUG("c35-poisson2","C35",D,"exp(k * log(mu) - mu - lgamma(k + 1))","exp(k * log(mu) - k - lgamma(k + 1))")
BUG("c35-normal","C35",D,"(SQRT2PI * std_deviation)","SQRT2PI")
BUG("c35-normal2","C35",D,"(SQRT2PI * std_deviation)","(2 * pi * std_deviation)")
BUG("c35-normal3","C35",D,"-0.5 * u ** 2","-u ** 2")
BUG("c35-sqrt","C35",D,"sqrt(2.0 * pi)","sqrt(pi)")
BUG("c35-xlogy","C35",D,"    if x == 0 and not isnan(y):\n        return 0\n    else:\n        return x * log(y)","    return x * log(y)")
BUG("c35-xlogy2","C35",D,"        return 0\n","        return 1\n")
BUG("c35-xlogy3","C35",D,"        return x * log(y)","        return y * log(x)")
BUG("c35-logpmf","C35",D,"xlogy(k, mu) - lgamma(k + 1) - mu","xlogy(mu, k) - lgamma(k + 1) - mu")
BUG("c35-logpmf2","C35",D,"xlogy(k, mu) - lgamma(k + 1) - mu","xlogy(k, mu) - lgamma(k + 1) + mu")
BUG("c35-logpmf3","C35",D,"return xlogy(k, mu) - lgamma","return k * log(mu) - lgamma")
BUG("c35-ped","C35",G,"p_ped = exp(-lambda_)","p_ped = exp(-lambda_) * (1 - opct)")
BUG("c35-ped2","C35",M,"p_ped * normal_pdf(x, eped, eped_sigma)","p_ped * normal_pdf(x, 0, eped_sigma)")
BUG("c35-ped3","C35",M,"    p_ped = exp(-lambda_)","    p_ped = 1")
BUG("c35-range","C35",M,"range(1, 100)","range(1, 10)")
BUG("c35-range2","C35",G,"    for k in range(1, 100):","    for k in range(2, 100):")
BUG("c35-inner","C35",G,"range(1, k+1)","range(1, k)")
BUG("c35-inner2","C35",G,"range(1, k+1)","range(0, k+1)")
BUG("c35-pow","C35",G,"pow(1-opct, j) * pow(opct, k-j)","pow(1-opct, k-j) * pow(opct, j)")
BUG("c35-binomarg","C35",G,"binom(k-1, j-1)","binom(k, j)")
BUG("c35-binomswap","C35",G,"binom(k-1, j-1)","binom(j-1, k-1)")
BUG("c35-pj","C35",G,"pj = poisson(j, lambda_)","pj = poisson(k, lambda_)")
BUG("c35-pjskip","C35",G,"            if pj < 1e-4:","            if pj < 1e-1:")
BUG("c35-pjskip2","C35",G,"            if pj < 1e-4:","            if pj > 1e-4:")
BUG("c35-width","C35",G,"sqrt(k * spe_sigma ** 2 + eped_sigma ** 2)","sqrt(k ** 2 * spe_sigma ** 2 + eped_sigma ** 2)")
BUG("c35-width2","C35",M,"sqrt(k * spe_sigma ** 2 + eped_sigma ** 2)","sqrt(spe_sigma ** 2 + eped_sigma ** 2)")
BUG("c35-width3","C35",M,"sqrt(k * spe_sigma ** 2 + eped_sigma ** 2)","k * spe_sigma + eped_sigma")
BUG("c35-place","C35",M,"eped + k * spe, pe_sigma","k * spe, pe_sigma")
BUG("c35-place2","C35",G,"eped + k * spe, pe_sigma","eped * k + spe, pe_sigma")
BUG("c35-cut","C35",M,"        if p > pk_max:\n            pk_max = p\n        elif p < 1e-4:\n            break\n","        if p < 1e-4:\n            break\n")
BUG("c35-cut2","C35",M,"        elif p < 1e-4:","        elif p < 1e-1:")
BUG("c35-cut3","C35",M,"        elif p < 1e-4:\n            break\n","        else:\n            break\n")
BUG("c35-cut4","C35",M,"    pk_max = 0\n","    pk_max = 1\n")
BUG("c35-cut5","C35",M,"        if p > pk_max:\n            pk_max = p\n","        if p > pk_max:\n            pass\n","            break\n","            break\n        pk_max = 2 * p\n")
BUG("c35-cut-zero","C35",G,"        elif pk < pk_max and pk < 1e-4:","        elif pk < 1e-4:")
BUG("c35-lik","C35",G,"-2 * poisson_logpmf","-poisson_logpmf")
BUG("c35-lik2","C35",G,"np.trapz(data_y[i], data_x) / np.trapz(spectrum, data_x)","np.trapz(spectrum, data_x) / np.trapz(data_y[i], data_x)")
BUG("c35-lik3","C35",M,"            spectrum *= np.trapz(data_y[i], data_x) / np.trapz(spectrum, data_x)\n","            spectrum *= np.trapz(data_y[i], data_x)\n")
BUG("c35-lik4","C35",M,"            spectrum *= np.trapz(data_y[i], data_x) / np.trapz(spectrum, data_x)\n","")
BUG("c35-lik5","C35",M,"np.trapz(spectrum, data_x)\n","np.sum(spectrum)\n")
BUG("c35-lik6","C35",M,"poisson_logpmf(data_y[i], spectrum)","poisson_logpmf(spectrum, data_y[i])")

OK("c35-ok-u","",D,"    u = (x - mean) / std_deviation\n    return exp(-0.5 * u ** 2) / (SQRT2PI * std_deviation)","    var = std_deviation * std_deviation\n    return exp(-(x - mean) ** 2 / (2 * var)) / sqrt(2 * pi * var)")
OK("c35-ok-poisson","",D,"exp(k * log(mu) - mu - lgamma(k + 1))","mu ** k * exp(-mu) / exp(lgamma(k + 1))")
OK("c35-ok-poisson2","",D,"exp(k * log(mu) - mu - lgamma(k + 1))","exp(k * log(mu) - lgamma(k + 1)) * exp(-mu)")
OK("c35-ok-xlogy","",D,"    if x == 0 and not isnan(y):\n        return 0\n    else:\n        return x * log(y)","    if x != 0 or isnan(y):\n        return x * log(y)\n    return 0.0")
OK("c35-ok-logpmf","",D,"    return xlogy(k, mu) - lgamma(k + 1) - mu","    log_factorial = lgamma(k + 1)\n    return xlogy(k, mu) - (log_factorial + mu)")
OK("c35-ok-ped","",M,"    p_ped = exp(-lambda_)\n","    p_ped = poisson(0, lambda_)\n")
OK("c35-ok-helper","",M,"@njit(fastmath=True, parallel=True)\ndef mapm","@njit(fastmath=True)\ndef peak(x, k, eped, eped_sigma, spe, spe_sigma):\n    return normal_pdf(x, eped + k * spe, sqrt(k * spe_sigma ** 2 + eped_sigma ** 2))\n\n\n@njit(fastmath=True, parallel=True)\ndef mapm",
   "        spectrum += p * normal_pdf(x, eped + k * spe, pe_sigma)","        spectrum += p * peak(x, k, eped, eped_sigma, spe, spe_sigma)")
OK("c35-ok-zero","",M,"    spectrum = p_ped * normal_pdf(x, eped, eped_sigma)\n","    spectrum = np.zeros_like(x)\n","range(1, 100)","range(0, 100)")
OK("c35-ok-invert","",G,"            if pj < 1e-4:\n                continue\n","            if not pj < 1e-4:\n                pk += pj * pow(1-opct, j) * pow(opct, k-j) * binom(k-1, j-1)\n","            pk += pj * pow(1-opct, j) * pow(opct, k-j) * binom(k-1, j-1)\n\n        # Skip","\n        # Skip")
OK("c35-ok-weight","",G,"            pk += pj * pow(1-opct, j) * pow(opct, k-j) * binom(k-1, j-1)","            n_ways = binom(k - 1, j - 1)\n            pk += n_ways * (1 - opct) ** j * opct ** (k - j) * pj")
OK("c35-ok-cut","",M,"        if p > pk_max:\n            pk_max = p\n        elif p < 1e-4:\n            break\n","        if p < 1e-4 and p < pk_max:\n            break\n        pk_max = max(pk_max, p)\n")
OK("c35-ok-cut2","",M,"        if p > pk_max:\n            pk_max = p\n        elif p < 1e-4:\n            break\n","        if p <= pk_max and p < 1e-5:\n            break\n        if p > pk_max:\n            pk_max = p\n")
OK("c35-ok-nocut","",M,"        if p > pk_max:\n            pk_max = p\n        elif p < 1e-4:\n            break\n","")
OK("c35-ok-width","",M,"        pe_sigma = sqrt(k * spe_sigma ** 2 + eped_sigma ** 2)","        variance = eped_sigma * eped_sigma + k * spe_sigma * spe_sigma\n        pe_sigma = variance ** 0.5")
OK("c35-ok-lik","",M,"            likelihood += np.nansum(-2 * poisson_logpmf(data_y[i], spectrum))\n        return likelihood","            likelihood += np.nansum(poisson_logpmf(data_y[i], spectrum))\n        return -2 * likelihood")
OK("c35-ok-lik2","",M,"            spectrum *= np.trapz(data_y[i], data_x) / np.trapz(spectrum, data_x)\n","            data_area = np.trapz(data_y[i], data_x)\n            model_area = np.trapz(spectrum, data_x)\n            spectrum = spectrum * (data_area / model_area)\n")
OK("c35-ok-lik3","",M,"            likelihood += np.nansum(-2 * poisson_logpmf(data_y[i], spectrum))\n","            log_p = poisson_logpmf(data_y[i], spectrum)\n            likelihood -= 2 * np.nansum(log_p)\n")
OK("c35-ok-range","",M,"range(1, 100)","range(1, 150)")
OK("c35-ok-while","",M,"    for k in range(1, 100):\n","    k = 0\n    while k < 99:\n        k += 1\n")
