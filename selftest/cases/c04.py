BUG("c04-file-wins", "C04", "core/chain.py", "{**config, **loaded_config, **kwargs}", "{**config, **kwargs, **loaded_config}")
BUG("c04-file-defaults", "C04", "core/chain.py", "{**config, **loaded_config, **kwargs}", "{**config, **self.default_columns, **loaded_config, **kwargs}")
BUG("c04-noargs", "C04", "core/chain.py", "{**config, **self.default_columns, **kwargs}", "{**config, **self.default_columns}")
BUG("c04-mutate", "C04", "core/chain.py", "            config = {**config, **self.default_columns, **kwargs}\n", "            config = self.default_columns\n            config.update(kwargs)\n")
BUG("c04-mutate2", "C04", "core/chain.py", "        config = {**self.default_config}\n", "        config = self.default_config\n        config.setdefault('verbose', False)\n")
BUG("c04-recorded", "C04", "core/chain.py", "        self.config = config\n", "        self.config = {**self.default_columns, **config}\n")
BUG("c04-late", "C04", "core/chain.py", "        self.chain = self._build_chain(n_pixels, n_samples, **config)\n\n        self.config = config\n", "        self.chain = self._build_chain(n_pixels, n_samples, **config)\n        config = {**config, 'pixels': n_pixels}\n        self.config = config\n")
BUG("c04-dl1", "C04", "scripts/extract_dl1.py", "config_path=config_path,\n        )", "config_path=None,\n        )")
BUG("c04-dl1-defaults", "C04", "scripts/extract_dl1.py", "self.chain.config.copy()", "dict(self.chain.default_columns)")
OK("ok-c04-update", "", "core/chain.py", """        config = {**self.default_config}
        if config_path:
            loaded_config = self._load_config(config_path)
            config = {**config, **loaded_config, **kwargs}
        else:
            config = {**config, **self.default_columns, **kwargs}
""", """        config = dict(self.default_config)
        if not config_path:
            config.update(self.default_columns)
        else:
            config.update(self._load_config(config_path))
        config.update(kwargs)
""")
OK("ok-c04-chain", "", "core/chain.py", "            if config is None:\n                return {}\n            return config", "        return config if config is not None else {}")
