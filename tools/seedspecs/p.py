SEED("c36-zero-shift", "C36", "utils/waveform.py", [('''    elif num < 0:
        result[:, num:] = fill_value
        result[:, :num] = arr[:, -num:]
    else:
        result[:] = arr[:]
''', '''    else:
        result[:, num:] = fill_value
        result[:, :num] = arr[:, -num:]
''')], '''
import numpy as np
from CHECLabPy.utils.waveform import shift_array, shift_waveform
arr = np.arange(12.0).reshape(2, 6) + 1
for n in range(-8, 9):
    want = np.full_like(arr, -1)
    for i in range(6):
        if 0 <= i - n < 6:
            want[:, i] = arr[:, i - n]
    assert (shift_array(arr, n, -1) == want).all(), (n, shift_array(arr, n, -1))
wf = np.zeros((3, 10))
wf[:, 4] = 5
assert shift_waveform(wf, 4)[0, 4] == 5
''', "a pulse that is already where it has to go, so that the shift is zero",
"the whole waveform is replaced by the fill value")

SEED("c36-long-shift", "C36", "utils/waveform.py", [('''        result[:, num:] = arr[:, :-num]
''', '''        result[:, num:] = arr[:, :arr.shape[1] - num]
''')], '''
import numpy as np
from CHECLabPy.utils.waveform import shift_array
arr = np.arange(12.0).reshape(2, 6) + 1
for n in range(-12, 13):
    want = np.full_like(arr, -1)
    for i in range(6):
        if 0 <= i - n < 6:
            want[:, i] = arr[:, i - n]
    assert (shift_array(arr, n, -1) == want).all(), n
''', "a shift by more than the number of samples",
"the end of the part that is read becomes negative and counts from the end, so the assignment fails")

SEED("c36-dead-at-threshold", "C36", "utils/waveform.py", [('''    dead = np.where(peak_height < peak_height.mean() * threshold_percent)[0]
''', '''    dead = np.where(peak_height <= peak_height.mean() * threshold_percent)[0]
''')], '''
import numpy as np
from CHECLabPy.utils.waveform import obtain_dead_pixel_list_r1
class Event(np.ndarray):
    iev = 0
class Source(list):
    n_events, n_pixels, n_samples = 3, 4, 8
src = Source()
for i in range(3):
    w = np.ones((4, 8)).view(Event)
    w.iev = i
    src.append(w)
assert len(obtain_dead_pixel_list_r1(src, threshold_percent=0.5)) == 0
assert len(obtain_dead_pixel_list_r1(src, threshold_percent=1)) == 0
for w in src:
    w[:] = 0
assert len(obtain_dead_pixel_list_r1(src)) == 0
''', "a pixel exactly at the threshold (for example a file without signal)",
"pixels at the threshold are called dead")

SEED("c36-align-peak-pixel", "C36", "utils/waveform.py", [('''    avg_wf_tevent = np.argmax(np.mean(waveforms, 0))
''', '''    avg_wf_tevent = np.argmax(np.max(waveforms, 0))
''')], '''
import numpy as np
from CHECLabPy.utils.waveform import shift_waveform
wf = np.zeros((10, 20))
wf[:, 8] = 3
wf[4, 15] = 9
out = shift_waveform(wf, 5)
assert out.mean(0).argmax() == 5, out.mean(0)
''', "one pixel with a large pulse away from the common one",
"the event is aligned to the brightest pixel and not to the average waveform")
