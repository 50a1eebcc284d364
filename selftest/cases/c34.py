W="stats/welfords.py"
B='''    delta = sample - mean
    count += 1
    mean += delta / count
    delta2 = sample - mean
    m2 += delta * delta2
    return mean, count, m2
'''
BUG("c34-delta","C34",W,"    m2 += delta * delta2","    m2 += delta * delta")
BUG("c34-delta2","C34",W,"    m2 += delta * delta2","    m2 += delta2 * delta2")
BUG("c34-order","C34",W,"    return mean, count, m2","    return mean, m2, count")
BUG("c34-swap","C34",W,"    count += 1\n    mean += delta / count\n    delta2 = sample - mean\n","    mean += delta / (count + 2)\n    count += 1\n    delta2 = sample - mean\n")
BUG("c34-zero","C34",W,"    count += 1\n    mean += delta / count\n","    mean += delta / count\n    count += 1\n")
BUG("c34-m2-lost","C34",W,"    m2 += delta * delta2","    m2 = delta * delta2")
BUG("c34-floor","C34",W,"delta / count","delta // count")
BUG("c34-cond","C34",W,"    m2 += delta * delta2","    if count > 2:\n        m2 += delta * delta2")
BUG("c34-cond2","C34",W,"    m2 += delta * delta2","    if delta > 0:\n        m2 += delta * delta2")
BUG("c34-skip","C34",W,"    delta = sample - mean\n","    if sample == mean:\n        return mean, count, m2\n    delta = sample - mean\n")
OK("c34-ok-skip","",W,"    delta = sample - mean\n","    if sample == mean:\n        return mean, count + 1, m2\n    delta = sample - mean\n")
OK("c34-ok-first","",W,"    delta = sample - mean\n","    if count == 0:\n        return sample, 1, 0.0\n    delta = sample - mean\n")
OK("c34-ok-inline","",W,B,'''    n = count + 1
    delta = sample - mean
    new_mean = mean + delta / n
    return new_mean, n, m2 + delta * (sample - new_mean)
''')
OK("c34-ok-form","",W,B,'''    delta = sample - mean
    m2 = m2 + delta ** 2 * count / (count + 1)
    mean = (mean * count + sample) / (count + 1)
    return mean, count + 1, m2
''')
OK("c34-ok-pos","",W,"    m2 += delta * delta2","    if delta != 0:\n        m2 += delta * delta2")
