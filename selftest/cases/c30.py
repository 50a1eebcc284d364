def FL(name,props,f,olds,news):
    return (name,props,f)+tuple(x for p in zip(olds,news) for x in p)
C="core/__init__.py"
F="core/factory.py"
W="core/io/waveform.py"
I="core/io/__init__.py"
R="waveform_reducers/__init__.py"
S="spectrum_fitters/__init__.py"
FAM='''    family = base.__subclasses__() + [
        g for s in base.__subclasses__()
        for g in child_subclasses(s)
    ]
'''
CH="    children = [g for g in family if not isabstract(g)]\n"
UN='''    unique = []
    unique_names = []
    for c in children:
        if c.__name__ not in unique_names:
            unique.append(c)
            unique_names.append(c.__name__)

    return unique
'''
BUG("c30-shallow","C30",C,FAM,"    family = base.__subclasses__()\n")
BUG("c30-two-levels","C30",C,FAM,'''    family = base.__subclasses__() + [
        g for s in base.__subclasses__()
        for g in s.__subclasses__()
    ]
''')
BUG("c30-only-deep","C30",C,FAM,'''    family = [
        g for s in base.__subclasses__()
        for g in child_subclasses(s)
    ]
''')
BUG("c30-deep-abstract","C30",C,"        g for s in base.__subclasses__()\n","        g for s in base.__subclasses__() if isabstract(s)\n")
BUG("c30-leaves-only","C30",C,CH,"    children = [g for g in family if not g.__subclasses__()]\n")
BUG("c30-abstract-kept","C30",C,CH,"    children = list(family)\n")
BUG("c30-abstract-only","C30",C,CH,"    children = [g for g in family if isabstract(g)]\n")
BUG("c30-private-left-out","C30",C,CH,"    children = [g for g in family if not isabstract(g) and not g.__name__.startswith('S')]\n")
BUG("c30-dup","C30",C,UN,"    return children\n")
BUG("c30-dup-names","C30",C,"            unique_names.append(c.__name__)\n","")
BUG("c30-dup-identity","C30",C,UN,'''    unique = []
    for c in children:
        if c not in unique:
            unique.append(c)
    return unique
''')
OK("c30-ok-dict","",C,UN,'''    unique = {}
    for c in children:
        if c.__name__ not in unique:
            unique[c.__name__] = c
    return list(unique.values())
''')
OK("c30-ok-dictcomp","",C,UN,"    return list({c.__name__: c for c in children}.values())\n")
OK("c30-ok-loop","",C,FAM,'''    family = list(base.__subclasses__())
    for s in base.__subclasses__():
        family.extend(child_subclasses(s))
''')
OK("c30-ok-loop2","",C,FAM,'''    direct = base.__subclasses__()
    family = list(direct)
    for s in direct:
        for g in child_subclasses(s):
            family.append(g)
''')
OK("c30-ok-set","",C,UN,'''    seen = set()
    unique = []
    for c in children:
        name = c.__name__
        if name in seen:
            continue
        seen.add(name)
        unique.append(c)
    return unique
''')
OK("c30-ok-any","",C,UN,'''    unique = []
    for c in children:
        if c.__name__ in [u.__name__ for u in unique]:
            continue
        unique.append(c)
    return unique
''')
OK("c30-ok-work","",C,FAM,'''    family = list(base.__subclasses__())
    todo = list(family)
    while todo:
        s = todo.pop(0)
        for g in s.__subclasses__():
            family.append(g)
            todo.append(g)
''')
OK("c30-ok-inline","",C,CH+"\n"+UN,'''    unique = []
    unique_names = []
    for c in family:
        if isabstract(c):
            continue
        if c.__name__ not in unique_names:
            unique.append(c)
            unique_names.append(c.__name__)

    return unique
''')
# factory
BUG("c30-sorted","C30",F,"zip(factory.subclass_names, factory.subclasses)","zip(sorted(factory.subclass_names), factory.subclasses)")
BUG("c30-default","C30",F,'''        except KeyError:
            msg = ('No product found with name "{}" '
                   'for factory.'.format(product_name))
            raise KeyError(msg)
''','''        except KeyError:
            product = factory.subclasses[0]
''')
BUG("c30-none","C30",F,'''            raise KeyError(msg)
''','''            print(msg)
            return None
''')
BUG("c30-valueerror","C30",F,"raise KeyError(msg)","raise ValueError(msg)")
BUG("c30-class","C30",F,"        return product(*args, **kwargs)","        return product")
BUG("c30-names-filtered","C30",F,"[c.__name__ for c in subclasses]","[c.__name__ for c in subclasses if c.__doc__]",)if False else None

BUG("c30-names-mod","C30",F,"    subclasses = child_subclasses(SpectrumFitter)\n    subclass_names = [c.__name__ for c in subclasses]","    subclasses = child_subclasses(SpectrumFitter)\n    subclass_names = [c.__module__ for c in subclasses]")
BUG("c30-names-part","C30",F,"    subclasses = child_subclasses(SpectrumFitter)\n    subclass_names = [c.__name__ for c in subclasses]","    subclasses = child_subclasses(SpectrumFitter)\n    subclass_names = [c.__name__ for c in subclasses if c.__doc__]")
BUG("c30-late","C30",F,"    import CHECLabPy.spectrum_fitters\n    subclasses = child_subclasses(SpectrumFitter)\n    subclass_names = [c.__name__ for c in subclasses]","    subclasses = child_subclasses(SpectrumFitter)\n    subclass_names = [c.__name__ for c in subclasses]\n    import CHECLabPy.spectrum_fitters")
BUG("c30-noimport","C30",F,"    import CHECLabPy.spectrum_fitters\n","")

OK("c30-ok-from","",F,"    import CHECLabPy.spectrum_fitters\n","    from CHECLabPy import spectrum_fitters\n")
OK("c30-ok-comp","",F,"dict(zip(factory.subclass_names, factory.subclasses))","{c.__name__: c for c in factory.subclasses}")
OK("c30-ok-comp2","",F,"dict(zip(factory.subclass_names, factory.subclasses))","{n: c for n, c in zip(factory.subclass_names, factory.subclasses)}")
OK("c30-ok-notin","",F,'''        try:
            product = subclass_dict[product_name]
        except KeyError:
            msg = ('No product found with name "{}" '
                   'for factory.'.format(product_name))
            raise KeyError(msg)
''','''        if product_name not in subclass_dict:
            msg = ('No product found with name "{}" '
                   'for factory.'.format(product_name))
            raise KeyError(msg)
        product = subclass_dict[product_name]
''')
OK("c30-ok-loopf","",F,'''        subclass_dict = dict(zip(factory.subclass_names, factory.subclasses))

        try:
            product = subclass_dict[product_name]
        except KeyError:
            msg = ('No product found with name "{}" '
                   'for factory.'.format(product_name))
            raise KeyError(msg)

        return product(*args, **kwargs)
''','''        for product in factory.subclasses:
            if product.__name__ == product_name:
                return product(*args, **kwargs)
        msg = ('No product found with name "{}" '
               'for factory.'.format(product_name))
        raise KeyError(msg)
''')
# opening
BUG("c30-first","C30",W,'''            if subclass.is_compatible(path):
                return subclass(path, max_events)
''','''            return subclass(path, max_events)
''')
BUG("c30-noraise","C30",W,'''        raise IOError(f"No reader is compatible with the file: {path}")
''','''        print(f"No reader is compatible with the file: {path}")
''')
BUG("c30-fallback","C30",W,'''        raise IOError(f"No reader is compatible with the file: {path}")
''','''        return child_subclasses(cls)[0](path, max_events)
''')
BUG("c30-negated","C30",W,"            if subclass.is_compatible(path):","            if not subclass.is_compatible(path):")
BUG("c30-callable","C30",W,"            if subclass.is_compatible(path):","            if subclass.is_compatible:")
BUG("c30-cls","C30",W,"                return subclass(path, max_events)","                return subclass(path)")
BUG("c30-simtel-gone","C30",I,"from .simtel import SimtelReader\n","")
BUG("c30-tio-gone","C30",I,"from .tio import TIOReader, ReaderR0, ReaderR1\n","")
BUG("c30-rename","C30","core/io/simtel.py","    def n_events(self):","    def n_events_(self):")
OK("c30-ok-filter","",W,'''        for subclass in child_subclasses(cls):
            if subclass.is_compatible(path):
                return subclass(path, max_events)
        raise''','''        readers = [r for r in child_subclasses(cls) if r.is_compatible(path)]
        if readers:
            return readers[0](path, max_events)
        raise''')
OK("c30-ok-continue","",W,'''            if subclass.is_compatible(path):
                return subclass(path, max_events)
''','''            if not subclass.is_compatible(path):
                continue
            return subclass(path, max_events=max_events)
''')
OK("c30-ok-break","",W,'''        for subclass in child_subclasses(cls):
            if subclass.is_compatible(path):
                return subclass(path, max_events)
        raise IOError(f"No reader is compatible with the file: {path}")
''','''        for subclass in child_subclasses(cls):
            if subclass.is_compatible(path):
                break
        else:
            raise IOError(f"No reader is compatible with the file: {path}")
        return subclass(path, max_events)
''')
OK("c30-ok-next","",W,'''        for subclass in child_subclasses(cls):
            if subclass.is_compatible(path):
                return subclass(path, max_events)
        raise''','''        subclass = next((r for r in child_subclasses(cls) if r.is_compatible(path)), None)
        if subclass is not None:
            return subclass(path, max_events)
        raise''')
# walk
BUG("c30-skip-sliding","C30",R,"    module = import_module(name)\n","    if name.split('.')[-1].startswith('s'):\n        continue\n    module = import_module(name)\n")
BUG("c30-skip-under","C30",R,"    module = import_module(name)\n","    if '_' in name.split('.')[-1]:\n        continue\n    module = import_module(name)\n")
BUG("c30-first-only","C30",R,"        __all__.append(key)\n","        __all__.append(key)\n    break\n")
BUG("c30-swallow","C30",S,"    module = import_module(name)\n","    try:\n        module = import_module(name)\n    except ImportError:\n        continue\n")
BUG("c30-nowalk","C30",S,'''for _, name, _ in pkgutil.iter_modules(__path__, __name__ + '.'):
    module = import_module(name)
''','''for _, name, _ in pkgutil.iter_modules(__path__, __name__ + '.'):
    module = pkgutil
''')
OK(*FL("c30-ok-pkg","",R,["for _, name, _ in pkgutil","    module = import_module(name)\n"],["for _, name, ispkg in pkgutil","    if ispkg:\n        continue\n    module = import_module(name)\n"]))
OK(*FL("c30-ok-rel","",S,["pkgutil.iter_modules(__path__, __name__ + '.')","import_module(name)"],["pkgutil.iter_modules(__path__)","import_module('.' + name, __name__)"]))
OK(*FL("c30-ok-info","",R,["for _, name, _ in pkgutil","    module = import_module(name)\n"],["for info in pkgutil","    module = import_module(info[1])\n"]))
OK("c30-ok-explicit","",S,'''for _, name, _ in pkgutil.iter_modules(__path__, __name__ + '.'):
    module = import_module(name)
''','''from . import gentile, mapm
for module in (gentile, mapm):
''')
