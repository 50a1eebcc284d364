W="waveform_reducers/"
BUG("c03-or-default", "C03", "core/reducer.py", "if kwargs.get(col, default)]", "if kwargs.get(col, default) or default]")
BUG("c03-key-swap", "C03", "core/reducer.py", "{c: getattr(self, c) for c in self.active_columns}", "{c: getattr(self, c) for c in self.columns}")
BUG("c03-not-none", "C03", "core/reducer.py", "return {c: getattr(self, c) for c in self.active_columns}", "d = {c: getattr(self, c) for c in self.active_columns}\n        return {k: v for k, v in d.items() if np.any(v)}")
BUG("c03-order", "C03", "core/reducer.py", "self._prepare(waveforms)\n        d = self._get_dict()", "d = self._get_dict()\n        self._prepare(waveforms)")
BUG("c03-default-true", "C03", "core/chain.py", "{**config, '_disable_by_default': True}", "{**config, '_disable_by_default': False}")
BUG("c03-gt1", "C03", "core/chain.py", "**reducer_config)) > 0", "**reducer_config)) > 1")
BUG("c03-kwsel", "C03", "core/chain.py", "r.get_active_columns(**reducer_config)", "r.get_active_columns(**config)")
BUG("c03-all", "C03", "core/chain.py", "            if len(r.get_active_columns(**reducer_config)) > 0:\n", "            if True:\n")
BUG("c03-cc-active", "C03", W+"cross_correlation.py", "        super().__init__(n_pixels, n_samples, **kwargs)\n", "        kwargs.setdefault('t_cc', True)\n        super().__init__(n_pixels, n_samples, **kwargs)\n")
BUG("c03-merge", "C03", "core/chain.py", "{k: v for f in self.chain for k, v in f(waveforms).items()}", "{k: v for f in self.chain[1:] for k, v in f(waveforms).items()}")
BUG("c03-meta-break", "C03", "core/reducer.py", "            except ValueError:\n                continue\n", "            except ValueError:\n                break\n")
BUG("c03-meta-prefix", "C03", "core/reducer.py", "            if not isinstance(v, column):\n", "            if not isinstance(v, column) or p.startswith('_') or p in columns[:1] or len(columns) > 6:\n")
OK("ok-getactive-loop", "", "core/reducer.py", "        return [col for col in cls.columns if kwargs.get(col, default)]", "        active = []\n        for col in cls.columns:\n            if kwargs.get(col, default):\n                active.append(col)\n        return active")
OK("ok-getdict-loop", "", "core/reducer.py", "return {c: getattr(self, c) for c in self.active_columns}", "d = {}\n        for name in self.active_columns:\n            d[name] = getattr(self, name)\n        return d")
OK("ok-getactive-in", "C03 C04", "core/reducer.py", "        return [col for col in cls.columns if kwargs.get(col, default)]", "        return [c for c in cls.columns\n                if (kwargs[c] if c in kwargs else default)]")
OK("ok-chain-any", "", "core/chain.py", "            if len(r.get_active_columns(**reducer_config)) > 0:\n", "            if not r.get_active_columns(**reducer_config):\n                continue\n            if True:\n")
OK("ok-chain-update", "", "core/chain.py", "return {k: v for f in self.chain for k, v in f(waveforms).items()}", "out = {}\n        for process in self.chain:\n            out.update(process(waveforms))\n        return out")
OK("ok-meta", "C03 C05 C06 C07", "core/reducer.py", """            try:
                for parent in bases:
                    parent_mem = dict(getmembers(parent))
                    if p in parent_mem and isinstance(parent_mem[p], column):
                        raise ValueError("Inherited")
            except ValueError:
                continue

            columns.append(p)
""", """            inherited = any(
                isinstance(dict(getmembers(parent)).get(p), column)
                for parent in bases
            )
            if not inherited:
                columns.append(p)
""")
