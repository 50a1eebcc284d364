F="core/spectrum_fitter.py"
UPD='''            getattr(self, param.name).initial = param.initial
            getattr(self, param.name).limits = param.limits
            getattr(self, param.name).fixed = param.fixed
            getattr(self, param.name).multi = param.multi

        self._prepare_parameters()
'''
ADO='''            if param.multi:
                param.initial = self.fit_result_values[f"{param.name}{illumination}"]
            else:
                param.initial = self.fit_result_values[param.name]
        self.parameters.update(self.parameters)
'''
LOAD='''            self.parameters.update(self.parameters)
            if 'initial' in d and not d['initial']:
'''
MIN='''        m0 = iminuit.Minuit(
            self._minimize_function, **self.parameters.minuit_kwargs,
            print_level=0, pedantic=False, throw_nan=True, errordef=1,
            forced_parameters=self.parameters.parameter_names
        )
        m0.migrad()
'''
BUG("c20-upd-noprep","C20",F,UPD,UPD.replace("\n        self._prepare_parameters()\n",""))
BUG("c20-upd-prepfirst","C20",F,"        for param in spectrum_parameter_list:\n"+UPD,"        self._prepare_parameters()\n        for param in spectrum_parameter_list:\n"+UPD.replace("\n        self._prepare_parameters()\n",""))
BUG("c20-upd-nofixed","C20",F,UPD,UPD.replace("            getattr(self, param.name).fixed = param.fixed\n",""))
BUG("c20-upd-swap","C20",F,UPD,UPD.replace("limits = param.limits","limits = param.initial"))
BUG("c20-upd-cond","C20",F,UPD,UPD.replace("            getattr(self, param.name).limits","            if not param.fixed:\n                getattr(self, param.name).limits"))
BUG("c20-load-noupd","C20",F,LOAD,LOAD.split("\n",1)[1])
BUG("c20-load-condupd","C20",F,LOAD,LOAD.replace("            self.parameters.update(self.parameters)","            if 'initial' in d:\n                self.parameters.update(self.parameters)"))
BUG("c20-ado-noupd","C20",F,ADO,ADO.replace("        self.parameters.update(self.parameters)\n",""))
BUG("c20-ado-first","C20",F,"        for param in self.parameters:\n"+ADO,"        self.parameters.update(self.parameters)\n        for param in self.parameters:\n"+ADO.replace("        self.parameters.update(self.parameters)\n",""))
BUG("c20-ado-zero","C20",F,ADO,ADO.replace("{illumination}","{0}"))
BUG("c20-ado-err","C20",F,ADO,ADO.replace("self.fit_result_values[param.name]","self.fit_result_errors[param.name]"))
BUG("c20-reset","C20",F,"        self._lookup_typed = None  # Reset\n","")
BUG("c20-kept-m","C20",F,MIN,MIN.replace("        m0 = iminuit","        if self._m is None:\n            self._m = iminuit").replace("m0.mig","m0 = self._m\n        m0.mig"),"        self.n_bins = 100\n        self.range = (-10, 100)\n","        self.n_bins = 100\n        self._m = None\n        self.range = (-10, 100)\n")
BUG("c20-kept-kw","C20",F,MIN,"        if self._kw is None:\n            self._kw = self.parameters.minuit_kwargs\n"+MIN.replace("self.parameters.minuit_kwargs","self._kw"),"        self.n_bins = 100\n        self.range = (-10, 100)\n","        self.n_bins = 100\n        self._kw = None\n        self.range = (-10, 100)\n")
BUG("c20-warm","C20",F,MIN,"        kw = dict(self.parameters.minuit_kwargs)\n        if self.fit_result_values is not None:\n            kw.update(self.fit_result_values)\n"+MIN.replace("self.parameters.minuit_kwargs","kw"))
OK("ok-c20-copy","",F,MIN,"        kw = dict(self.parameters.minuit_kwargs)\n"+MIN.replace("self.parameters.minuit_kwargs","kw"))
OK("ok-c20-own","",F,UPD,'''            own = getattr(self, param.name)
            own.multi = param.multi
            own.initial, own.limits = param.initial, param.limits
            own.fixed = param.fixed
        self._prepare_parameters()
''')
OK("ok-c20-setattr","",F,UPD,'''            for key in ("initial", "limits", "fixed", "multi"):
                setattr(getattr(self, param.name), key, getattr(param, key))
        self._prepare_parameters()
''')
OK("ok-c20-prep","",F,ADO,ADO.replace("self.parameters.update(self.parameters)","self.parameters._prepare_parameters()"))
OK("ok-c20-name","",F,ADO,'''            name = param.name
            if param.multi:
                name += str(illumination)
            param.initial = self.fit_result_values[name]
        self.parameters.update(self.parameters)
''')
OK("ok-c20-helper","",F,MIN,'''        m0 = self._build_minimiser()
        m0.migrad()
''',"    def _minimize_function(self","    def _build_minimiser(self):\n        kwargs = dict(print_level=0, pedantic=False, throw_nan=True, errordef=1)\n        return iminuit.Minuit(self._minimize_function, forced_parameters=self.parameters.parameter_names, **kwargs, **self.parameters.minuit_kwargs)\n\n    def _minimize_function(self")
