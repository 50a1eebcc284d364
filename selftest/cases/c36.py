W="utils/waveform.py"
SH='''    result = np.empty_like(arr)
    if num > 0:
        result[:, :num] = fill_value
        result[:, num:] = arr[:, :-num]
    elif num < 0:
        result[:, num:] = fill_value
        result[:, :num] = arr[:, -num:]
    else:
        result[:] = arr[:]
    return result
'''
BUG("c36-else","C36",W,"    if num > 0:\n","    if num >= 0:\n")
BUG("c36-neg-ge","C36",W,"    elif num < 0:\n        result[:, num:] = fill_value\n        result[:, :num] = arr[:, -num:]\n    else:\n        result[:] = arr[:]\n","    else:\n        result[:, num:] = fill_value\n        result[:, :num] = arr[:, -num:]\n")
BUG("c36-sign","C36",W,"        result[:, num:] = arr[:, :-num]\n","        result[:, :-num] = arr[:, num:]\n")
BUG("c36-off","C36",W,"        result[:, num:] = arr[:, :-num]\n","        result[:, num:] = arr[:, 1:1-num]\n")
BUG("c36-fill","C36",W,"        result[:, :num] = fill_value\n","        result[:, :num] = 0\n")
BUG("c36-nofill","C36",W,"        result[:, num:] = fill_value\n","")
BUG("c36-order","C36",W,"        result[:, num:] = fill_value\n        result[:, :num] = arr[:, -num:]\n","        result[:, :num] = arr[:, -num:]\n        result[:, num-1:] = fill_value\n")
BUG("c36-roll","C36",W,SH,"    result = np.roll(arr, num, axis=1)\n    if num > 0:\n        result[:, :num] = fill_value\n    elif num < 0:\n        result[:, :num] = fill_value\n    return result\n")
BUG("c36-roll-nofill","C36",W,SH,"    return np.roll(arr, num, axis=1)\n")
BUG("c36-size","C36",W,"        result[:, num:] = arr[:, :-num]\n","        result[:, num:] = arr[:, :arr.shape[1] - num]\n")
BUG("c36-inplace-shape","C36",W,"        result[:, num:] = arr[:, :-num]\n","        n_samples = arr.shape[1]\n        result[:, num:] = arr[:, :n_samples - num - 1]\n")
BUG("c36-align","C36",W,"    shift = t_shift - avg_wf_tevent\n","    shift = avg_wf_tevent - t_shift\n")
BUG("c36-align-axis","C36",W,"np.argmax(np.mean(waveforms, 0))","np.argmax(np.mean(waveforms, 1))")
BUG("c36-align-max","C36",W,"np.argmax(np.mean(waveforms, 0))","np.argmax(np.max(waveforms, 0))")
BUG("c36-align-min","C36",W,"np.argmax(np.mean(waveforms, 0))","np.argmin(np.mean(waveforms, 0))")
BUG("c36-align-fill","C36",W,"    return shift_array(waveforms, shift, fill_value)","    return shift_array(waveforms, shift)")
BUG("c36-avg-norm","C36",W,"        average_wf += wf.mean(0)\n        n += 1\n\n    average_wf /= n\n","        average_wf += wf.mean(0)\n        n += 1\n\n    average_wf /= n_samples\n")
BUG("c36-avg-nonorm","C36",W,"        average_wf += wf.mean(0)\n        n += 1\n\n    average_wf /= n\n","        average_wf += wf.mean(0)\n        n += 1\n\n")
BUG("c36-avg-sum","C36",W,"wf.mean(0)","wf.sum(0)")
BUG("c36-avg-off","C36",W,"    n = 0\n    for waveforms in tqdm(source, total=n_events, desc=desc):\n        waveforms_bs = baseline_subtractor.subtract(waveforms)\n\n        wf = shift_waveform(waveforms_bs, t_shift)\n\n        average_wf += wf\n","    n = 1\n    for waveforms in tqdm(source, total=n_events, desc=desc):\n        waveforms_bs = baseline_subtractor.subtract(waveforms)\n\n        wf = shift_waveform(waveforms_bs, t_shift)\n\n        average_wf += wf\n")
BUG("c36-avg-raw","C36",W,"        wf = shift_waveform(waveforms_bs, t_shift)\n\n        average_wf += wf\n","        wf = shift_waveform(waveforms, t_shift)\n\n        average_wf += wf\n")
BUG("c36-avg-noshift","C36",W,"        average_wf += wf\n","        average_wf += waveforms_bs\n")
BUG("c36-avg-last","C36",W,"        average_wf += wf\n","        average_wf = wf\n")
BUG("c36-dead-le","C36",W,"peak_height < peak_height","peak_height <= peak_height")
BUG("c36-dead-max","C36",W,"peak_height.mean() *","peak_height.max() *")
BUG("c36-dead-axis","C36",W,"np.max(avg_wf, axis=1)","np.max(avg_wf, axis=0)")
BUG("c36-dead-maxmean","C36",W,"    avg_wf = np.mean(array, axis=0)\n    peak_height = np.max(avg_wf, axis=1)\n","    avg_wf = np.max(array, axis=0)\n    peak_height = np.mean(avg_wf, axis=1)\n")
BUG("c36-dead-gt","C36",W,"peak_height < peak_height","peak_height > peak_height")
BUG("c36-dead-thr","C36",W,"peak_height.mean() * threshold_percent","threshold_percent")

OK("c36-ok-where","",W,SH,"    result = np.full_like(arr, fill_value)\n    if num > 0:\n        result[:, num:] = arr[:, :-num]\n    elif num < 0:\n        result[:, :num] = arr[:, -num:]\n    else:\n        result[:] = arr\n    return result\n")
OK("c36-ok-zero","",W,SH,"    if num == 0:\n        return arr.copy()\n    result = np.empty_like(arr)\n    if num > 0:\n        result[:, num:] = arr[:, :-num]\n        result[:, :num] = fill_value\n    else:\n        result[:, :num] = arr[:, -num:]\n        result[:, num:] = fill_value\n    return result\n")
OK("c36-ok-ell","",W,SH,"    result = np.empty_like(arr)\n    if num > 0:\n        result[..., :num] = fill_value\n        result[..., num:] = arr[..., :-num]\n    elif num < 0:\n        result[..., num:] = fill_value\n        result[..., :num] = arr[..., -num:]\n    else:\n        result[...] = arr\n    return result\n")
OK("c36-ok-len","",W,SH,"    n_samples = arr.shape[1]\n    result = np.full_like(arr, fill_value)\n    if abs(num) >= n_samples:\n        return result\n    if num >= 0:\n        result[:, num:] = arr[:, :n_samples - num]\n    else:\n        result[:, :n_samples + num] = arr[:, -num:]\n    return result\n")
OK("c36-ok-roll","",W,SH,"    if abs(num) >= arr.shape[1]:\n        return np.full_like(arr, fill_value)\n    result = np.roll(arr, num, axis=1)\n    if num > 0:\n        result[:, :num] = fill_value\n    elif num < 0:\n        result[:, num:] = fill_value\n    return result\n")
OK("c36-ok-max","",W,SH,"    n_samples = arr.shape[1]\n    result = np.full_like(arr, fill_value)\n    start = min(max(num, 0), n_samples)\n    stop = max(min(n_samples + num, n_samples), 0)\n    if start < stop:\n        result[:, start:stop] = arr[:, start - num:stop - num]\n    return result\n")
OK("c36-ok-align","",W,"    avg_wf_tevent = np.argmax(np.mean(waveforms, 0))\n    shift = t_shift - avg_wf_tevent\n    return shift_array(waveforms, shift, fill_value)","    t_max = waveforms.mean(axis=0).argmax()\n    return shift_array(waveforms, num=t_shift - t_max, fill_value=fill_value)")
OK("c36-ok-avg","",W,"        wf = shift_waveform(waveforms_bs, t_shift)\n\n        average_wf += wf.mean(0)\n","        average_wf += np.mean(shift_waveform(waveforms_bs, t_shift), axis=0)\n")
OK("c36-ok-avg2","",W,"        wf = shift_waveform(waveforms_bs, t_shift)\n\n        average_wf += wf\n        n += 1\n\n    average_wf /= n\n    return average_wf","        average_wf = average_wf + shift_waveform(waveforms_bs, t_shift)\n        n += 1\n\n    return average_wf / n")
OK("c36-ok-enum","",W,"    n = 0\n    for waveforms in tqdm(source, total=n_events, desc=desc):\n        waveforms_bs = baseline_subtractor.subtract(waveforms)\n\n        wf = shift_waveform(waveforms_bs, t_shift)\n\n        average_wf += wf\n        n += 1\n\n    average_wf /= n\n","    for waveforms in tqdm(source, total=n_events, desc=desc):\n        waveforms_bs = baseline_subtractor.subtract(waveforms)\n        average_wf += shift_waveform(waveforms_bs, t_shift)\n\n    average_wf /= n_events\n")
OK("c36-ok-dead","",W,"    dead = np.where(peak_height < peak_height.mean() * threshold_percent)[0]","    threshold = threshold_percent * np.mean(peak_height)\n    dead, = np.where(threshold > peak_height)")
OK("c36-ok-dead2","",W,"    avg_wf = np.mean(array, axis=0)\n    peak_height = np.max(avg_wf, axis=1)\n","    peak_height = array.mean(axis=0).max(axis=1)\n")
