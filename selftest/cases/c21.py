F="core/spectrum_fitter.py"
LD='''            self.n_bins = d.pop('n_bins', self.n_bins)
            self.range = tuple(d.pop('range', self.range))
            for param in self.parameters:
                if 'initial' in d:
                    param.initial = d['initial'].pop(param.name, param.initial)
                if 'limits' in d:
                    param.limits = tuple(d['limits'].pop(param.name, param.limits))
                if 'fixed' in d:
                    param.fixed = d['fixed'].pop(param.name, param.fixed)
            self.parameters.update(self.parameters)
'''
SV='''        initial = dict()
        limits = dict()
        fixed = dict()
        for param in self.parameters:
            initial[param.name] = param.initial
            limits[param.name] = list(param.limits)
            fixed[param.name] = param.fixed
        data = dict(
            n_bins=self.n_bins,
            range=self.range,
            initial=initial,
            limits=limits,
            fixed=fixed
        )
'''
def b(name, old, new, *m):
    BUG(name, "C21", F, old, new)
b("c21-save-limit", SV, SV.replace("limits=limits","limit=limits"))
b("c21-save-swap", SV, SV.replace("initial=initial","initial=fixed").replace("fixed=fixed","fixed=initial"))
b("c21-save-nofixed", SV, SV.replace("            limits=limits,\n            fixed=fixed\n","            limits=limits\n"))
b("c21-save-some", SV, SV.replace("            fixed[param.name] =","            if param.fixed:\n                fixed[param.name] ="))
b("c21-save-bins", SV, SV.replace("n_bins=self.n_bins","bins=self.n_bins"))
b("c21-save-change", SV, SV.replace("limits[param.name] = list(param.limits)","param.limits = list(param.limits)\n            limits[param.name] = param.limits"))
b("c21-save-change2", SV, SV.replace("        data =","        self.range = list(self.range)\n        self.n_bins = len(self.range)\n        data ="))
b("c21-save-append", "with open(path, 'w') as outfile", "with open(path, 'a') as outfile")
b("c21-load-key", LD, LD.replace("d.pop('n_bins', self","d.pop('bins', self"))
b("c21-load-default", LD, LD.replace("d.pop('n_bins', self.n_bins)","d.pop('n_bins', 100)"))
b("c21-load-default2", LD, LD.replace("pop(param.name, param.fixed)","pop(param.name, False)"))
b("c21-load-nodefault", LD, LD.replace("d['limits'].pop(param.name, param.limits)","d['limits'].pop(param.name)"))
b("c21-load-cross", LD, LD.replace("d['fixed'].pop(param.name, param.fixed)","d['initial'].pop(param.name, param.fixed)"))
b("c21-load-cond", LD, LD.replace("                if 'fixed' in d:","                if 'fixed' in d and not param.fixed:"))
b("c21-load-elif", LD, LD.replace("                if 'fixed' in d:","                elif 'fixed' in d:"))
b("c21-load-norange", LD, LD.replace("            self.range = tuple(d.pop('range', self.range))\n",""))
b("c21-load-range-bins", LD, LD.replace("            self.range","            if 'n_bins' in d:\n                self.range"))
b("c21-load-discard", LD, "            d.pop('range', None)\n"+LD)
b("c21-load-none", "            if d is None:\n                return\n", "")
b("c21-load-first", LD, LD.replace("            self.parameters.update","                break\n            self.parameters.update"))
OK("ok-c21-get", "", F, LD, LD.replace("d.pop('n_bins', self.n_bins)","d.get('n_bins', self.n_bins)"))
OK("ok-c21-in", "", F, LD, LD.replace("            self.n_bins = d.pop('n_bins', self.n_bins)\n","            if 'n_bins' in d:\n                self.n_bins = d['n_bins']\n                del d['n_bins']\n"))
OK("ok-c21-or", "", F, "            d = yaml.safe_load(file)\n            if d is None:\n                return\n","            d = yaml.safe_load(file) or {}\n")
OK("ok-c21-comp", "", F, SV, '''        data = {
            "n_bins": self.n_bins, "range": list(self.range),
            "initial": {p.name: p.initial for p in self.parameters},
            "limits": {p.name: list(p.limits) for p in self.parameters},
            "fixed": {p.name: p.fixed for p in self.parameters},
        }
''')
OK("ok-c21-loop", "", F, LD, LD.replace('''            for param in self.parameters:
                if 'initial' in d:
                    param.initial = d['initial'].pop(param.name, param.initial)
                if 'limits' in d:
                    param.limits = tuple(d['limits'].pop(param.name, param.limits))
                if 'fixed' in d:
                    param.fixed = d['fixed'].pop(param.name, param.fixed)
''','''            if 'limits' in d:
                for param in self.parameters:
                    param.limits = tuple(d['limits'].pop(param.name, param.limits))
            for param in self.parameters:
                for key in ('initial', 'fixed'):
                    if key in d:
                        setattr(param, key, d[key].pop(param.name, getattr(param, key)))
'''))
OK("ok-c21-local", "", F, LD, LD.replace("if 'initial' in d:\n                    param.initial = d['initial'].pop(param.name, param.initial)","name = param.name\n                if 'initial' in d:\n                    section = d['initial']\n                    if name in section:\n                        param.initial = section.pop(name)"))
