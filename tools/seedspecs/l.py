SEED("c30-below-concrete", "C30", "core/__init__.py", [("        g for s in base.__subclasses__()\n        for g in child_subclasses(s)\n", "        g for s in base.__subclasses__() if isabstract(s)\n        for g in child_subclasses(s)\n")], '''
from abc import ABC, abstractmethod
from CHECLabPy.core import child_subclasses
class Base(ABC):
    @abstractmethod
    def f(self): pass
class Mid(Base):
    def f(self): pass
class Leaf(Mid):
    pass
names = sorted(c.__name__ for c in child_subclasses(Base))
assert names == ["Leaf", "Mid"], names
''', "a plug-in that extends another concrete plug-in", "it is not discovered")
SEED("c30-names-sorted", "C30", "core/factory.py", [("    subclass_names = [c.__name__ for c in subclasses]\n", "    subclass_names = sorted(c.__name__ for c in subclasses)\n")], '''
import inspect
from CHECLabPy.core.factory import SpectrumFitterFactory as F
for c in F.subclasses:
    got = dict(zip(F.subclass_names, F.subclasses))[c.__name__]
    assert got is c, (c, got)
    assert type(F.produce(c.__name__, 2)) is c
''', "an alphabetical order that differs from the order of definition", "the factory builds a different fitter from the one asked for")
SEED("c30-first-reader", "C30", "core/io/waveform.py", [("            if subclass.is_compatible(path):\n                return subclass(path, max_events)\n", "            if subclass.is_compatible:\n                return subclass(path, max_events)\n")], '''
import CHECLabPy.core.io.waveform as w
from abc import ABC
log = []
class R:
    def __init__(self, path, max_events=None): log.append((type(self).__name__, path, max_events))
    @staticmethod
    def is_compatible(path): return False
class A(R): pass
class B(R):
    @staticmethod
    def is_compatible(path): return path.endswith(".b")
w.child_subclasses = lambda c: [A, B]
w.WaveformReader.from_path("x.b", 3)
assert log == [("B", "x.b", 3)], log
''', "a file the first reader cannot read", "it is opened with the first reader found")
W = "stats/welfords.py"
WD = '''
from CHECLabPy.stats import welfords_online_algorithm as w
import numpy as np
def run(xs):
    mean, n, m2 = 0.0, 0, 0.0
    for x in xs:
        mean, n, m2 = w(x, mean, n, m2)
    return mean, n, m2
for xs in ([5.0, 5.0, 5.0], [1.0, 2.0], [1.0, 4.0, -3.0, 8.5], list(np.arange(50) * 0.37 % 1.0 + 100.0)):
    mean, n, m2 = run(xs)
    assert n == len(xs)
    assert abs(mean - np.mean(xs)) < 1e-9, (mean, np.mean(xs))
    assert abs(m2 / n - np.var(xs)) < 1e-9, (m2 / n, np.var(xs))
'''
SEED("c34-old-delta", "C34", W, [("    delta2 = sample - mean\n    m2 += delta * delta2\n", "    m2 += delta * delta\n")], WD, "samples that vary", "the variance comes out too large")
SEED("c34-count-after", "C34", W, [("    count += 1\n    mean += delta / count\n    delta2 = sample - mean\n", "    mean += delta / (count + 1)\n    delta2 = sample - mean\n    count += 1 if delta2 else 0\n")], WD, "a sample equal to the running mean", "it is not counted, so later samples weigh too much")
