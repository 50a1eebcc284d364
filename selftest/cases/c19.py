F="core/spectrum_fitter.py"
BODY='''        lookup_i = 0
        for param in self.spectrum_parameter_list:
            if not param.multi:
                name = param.name
                self.parameter_names.append(name)
                self.minuit_kwargs[name] = param.initial
                self.minuit_kwargs["limit_" + name] = param.limits
                self.minuit_kwargs["fix_" + name] = param.fixed
                for i in range(self.n_illuminations):
                    self.lookup[i][param.name] = lookup_i
                lookup_i += 1
            else:
                for i in range(self.n_illuminations):
                    name = param.name + str(i)
                    self.parameter_names.append(name)
                    self.minuit_kwargs[name] = param.initial
                    self.minuit_kwargs["limit_" + name] = param.limits
                    self.minuit_kwargs["fix_" + name] = param.fixed
                    self.lookup[i][param.name] = lookup_i
                    lookup_i += 1
'''
BUG("c19-inc-in", "C19", F, BODY, BODY.replace("                    self.lookup[i][param.name] = lookup_i\n                lookup_i += 1\n", "                    self.lookup[i][param.name] = lookup_i\n                    lookup_i += 1\n",1))
BUG("c19-inc-out", "C19", F, BODY, BODY.replace("                    lookup_i += 1\n", "                lookup_i += 1\n",1))
BUG("c19-inc-first", "C19", F, BODY, BODY.replace("                    self.lookup[i][param.name] = lookup_i\n                    lookup_i += 1\n", "                    lookup_i += 1\n                    self.lookup[i][param.name] = lookup_i\n"))
BUG("c19-start", "C19", F, BODY, BODY.replace("lookup_i = 0", "lookup_i = 1"))
BUG("c19-shared0", "C19", F, BODY, BODY.replace("                for i in range(self.n_illuminations):\n                    self.lookup[i][param.name] = lookup_i\n                lookup_i", "                self.lookup[0][param.name] = lookup_i\n                lookup_i"))
BUG("c19-sharedlast", "C19", F, BODY, BODY.replace("                for i in range(self.n_illuminations):\n                    self.lookup[i][param.name] = lookup_i\n                lookup_i", "                for i in range(self.n_illuminations - 1):\n                    self.lookup[i][param.name] = lookup_i\n                lookup_i"))
BUG("c19-limit", "C19", F, BODY, BODY.replace('self.minuit_kwargs["limit_" + name] = param.limits\n                    s', 'self.minuit_kwargs["limit_" + param.name] = param.limits\n                    s'))
BUG("c19-fix", "C19", F, BODY, BODY.replace('self.minuit_kwargs["fix_" + name] = param.fixed\n                    self.l', 'self.minuit_kwargs["fix_" + name] = param.multi\n                    self.l'))
BUG("c19-sorted", "C19", F, BODY, BODY + "        self.parameter_names.sort()\n")
BUG("c19-name1", "C19", F, BODY, BODY.replace("param.name + str(i)", "param.name + str(i + 1)"))
BUG("c19-share", "C19", F, "self.lookup = [dict() for _ in range(self.n_illuminations)]", "self.lookup = [dict()] * self.n_illuminations")
BUG("c19-key", "C19", F, BODY, BODY.replace("                    self.lookup[i][param.name] = lookup_i\n                    lookup", "                    self.lookup[i][name] = lookup_i\n                    lookup"))
BUG("c19-typed", "C19", F, "for key, value in self.lookup[i].items():", "for key, value in self.lookup[0].items():")
BUG("c19-typed2", "C19", F, "for i in range(self.n_illuminations):\n                self._lookup_typed.append", "for i in range(self.n_illuminations - 1):\n                self._lookup_typed.append")
BUG("c19-enum", "C19", F, BODY, BODY.replace("lookup_i = 0\n        for param in", "for lookup_i, param in enumerate(").replace("enumerate( self.spectrum_parameter_list:", "enumerate(self.spectrum_parameter_list):").replace("                lookup_i += 1\n            else", "            else").replace("                    lookup_i += 1\n", ""))
OK("ok-c19-len", "", F, BODY, BODY.replace("        lookup_i = 0\n","").replace("                name = param.name\n", "                name = param.name\n                lookup_i = len(self.parameter_names)\n").replace("                    name = param.name + str(i)\n", "                    name = f'{param.name}{i}'\n                    lookup_i = len(self.parameter_names)\n").replace("                lookup_i += 1\n","").replace("                    lookup_i += 1\n","").replace("    lookup_i += 1\n",""))
OK("ok-c19-len1", "", F, BODY, BODY.replace("        lookup_i = 0\n","").replace("] = lookup_i", "] = len(self.parameter_names) - 1").replace("                    lookup_i += 1\n","").replace("                lookup_i += 1\n",""))
OK("ok-c19-helper", "", F, BODY, '''        position = 0
        for param in self.spectrum_parameter_list:
            if param.multi:
                for i in range(self.n_illuminations):
                    self._add(f"{param.name}{i}", param)
                    self.lookup[i][param.name] = position
                    position = position + 1
                continue
            self._add(param.name, param)
            for lookup in self.lookup:
                lookup[param.name] = position
            position += 1

    def _add(self, name, param):
        self.parameter_names.append(name)
        self.minuit_kwargs["fix_" + name] = param.fixed
        self.minuit_kwargs["limit_" + name] = param.limits
        self.minuit_kwargs[name] = param.initial
''')
OK("ok-c19-typed", "", F, "                for key, value in self.lookup[i].items():\n                    self._lookup_typed[i][key] = value\n", "                for key in self.lookup[i]:\n                    self._lookup_typed[i][key] = self.lookup[i][key]\n")
BUG("c19-plus-i", "C19", F, BODY, BODY.replace("                    self.lookup[i][param.name] = lookup_i\n                    lookup_i += 1\n", "                    self.lookup[i][param.name] = lookup_i + i\n                lookup_i += 1\n"))
OK("ok-c19-plus-i", "", F, BODY, BODY.replace("                    self.lookup[i][param.name] = lookup_i\n                    lookup_i += 1\n", "                    self.lookup[i][param.name] = lookup_i + i\n                lookup_i += self.n_illuminations\n"))
