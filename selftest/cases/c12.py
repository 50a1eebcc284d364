H="core/io/hdf5_writer.py"; A="core/io/hdf5_appender.py"; X="scripts/extract_dl1.py"
BUG("c12-clear-first", "C12", H, "            df = pd.concat(self.df_list[key], ignore_index=True)\n", "            df_list = self.df_list[key]\n            self.df_list[key] = []\n            df = pd.concat(self.df_list[key], ignore_index=True)\n")
BUG("c12-noclear", "C12 C13", H, "            self.df_list[key] = []\n", "")
BUG("c12-put", "C12 C13", H, "self.store.append(key, df, **kwargs)", "self.store.put(key, df, format='table')")
BUG("c12-wrongkey", "C12", H, "self.store.append(key, df, **kwargs)", "self.store.append('data', df, **kwargs)")
BUG("c12-bytes", "C12 C13", H, "self.n_bytes[key] += df.memory", "self.n_bytes[key] = df.memory")
BUG("c12-tail", "C12", H, "df = pd.concat(self.df_list[key], ignore_index=True)", "df = pd.concat(self.df_list[key][:-1], ignore_index=True)")
BUG("c12-dup", "C12", H, "            df = self._prepare_before_append(df)\n", "            df = self._prepare_before_append(df.drop_duplicates())\n")
BUG("c12-sort", "C12", H, "        return df\n", "        return df.sort_values(list(df.columns))\n")
BUG("c12-exit", "C12", H, "        self.finish()\n", "        if exc_type is None:\n            self.finish()\n")
BUG("c12-exit2", "C12", H, "        self.finish()\n", "        self.store.close()\n")
BUG("c12-keys", "C12", H, "        for key in self.keys:\n            self._append_to_store(key)\n", "        for key in list(self.keys)[1:]:\n            self._append_to_store(key)\n")
BUG("c12-keyadd", "C12", H, "        self.keys.add(key)\n        self.df_list", "        if expectedrows is None:\n            self.keys.add(key)\n        self.df_list")
BUG("c12-after", "C12", H, "        self.df_list[key].append(df)\n        memory", "        memory", "            self._append_to_store(key, expectedrows)\n\n    def write", "            self._append_to_store(key, expectedrows)\n        else:\n            self.df_list[key].append(df)\n\n    def write")
BUG("c12-meta", "C12", H, "self.metadata[key][name].update(kwargs)", "self.metadata[key][name] = kwargs")
BUG("c12-meta2", "C12", H, "            if key not in self.store:\n                self.store[key] = pd.DataFrame()\n", "            if key not in self.store:\n                continue\n")
BUG("c12-meta3", "C12", H, "                setattr(attrs, name, d)", "                setattr(attrs, 'metadata', d)")
BUG("c12-nosave", "C12", H, "        self._save_metadata()\n        self.store.close()", "        self.store.close()")
BUG("c12-order", "C12", H, "        self._save_metadata()\n        self.store.close()", "        self.store.close()\n        self._save_metadata()")
BUG("c12-nb", "C12", H, "            self._append_to_store(key)\n            self.add_metadata(key=key, n_bytes=self.n_bytes[key])", "            self.add_metadata(key=key, n_bytes=self.n_bytes[key])\n            self._append_to_store(key)")
BUG("c12-total", "C12", H, "total_bytes += self.n_bytes[key]", "total_bytes = self.n_bytes[key]")
BUG("c12-map", "C12", H, "        self.store.get_storer('mapping').attrs.metadata = mapping.metadata\n", "")
BUG("c12-write", "C12", H, "            self.keys.add(key)\n            self.store[key] = value", "            self.store[key] = value")
BUG("c12-write2", "C12", H, "            self.store[key] = value\n", "            if key not in self.store:\n                self.store[key] = value\n")
BUG("c12-mode", "C12", H, "mode='w'", "mode='a'")
BUG("c12-dropna", "C12", H, "dict(index=False, data_columns=True)", "dict(index=False, data_columns=True, dropna=True)")
BUG("c12-dl1", "C12", X, '            df = df.sort_values(["iev", "pixel"])', '            df = df.sort_values(["pixel", "iev"])')
BUG("c12-dl1b", "C12", X, '            df = df.sort_values(["iev", "pixel"])', '            df = df.drop_duplicates(["iev", "pixel"])')
BUG("c13-mode", "C13", A, "mode='r+'", "mode='w'")
BUG("c13-merge", "C13", A, "d = {**getattr(attrs, name), **d}", "d = {**d, **getattr(attrs, name)}")
BUG("c13-merge2", "C13", A, "                        d = {**getattr(attrs, name), **d}\n", "                        old_d.update(d)\n                        d = dict(d)\n")
BUG("c13-merge3", "C13", A, "                if hasattr(attrs, name):\n                    old_d = getattr(attrs, name)\n                    if isinstance(old_d, dict):\n                        d = {**getattr(attrs, name), **d}\n", "")
BUG("c13-merge4", "C13", A, "if hasattr(attrs, name):", "if name == 'metadata' and hasattr(attrs, name):")
BUG("c13-sizes", "C13", A, "        for key in self.dataframe_keys:\n            self.n_bytes[key] = self.get_n_bytes(key)\n", "")
BUG("c13-total", "C13", A, "sum(self.n_bytes.values())", "sum(self.n_bytes[key] for key in self.keys)")
BUG("c13-exit", "C13", A, "        self.finish()\n", "        self.store.close()\n")
BUG("c13-empty", "C13", A, "            if key not in self.store:\n                self.store[key]", "            if key not in self.keys:\n                self.store[key]")
OK("ok-c12-inline", "", H, "            self.df_list[key] = []\n", "            self.df_list[key].clear()\n", "        if self.df_list[key]:\n            df = pd.concat(self.df_list[key], ignore_index=True)\n", "        frames = self.df_list[key]\n        if len(frames) > 0:\n            df = pd.concat(frames, ignore_index=True)\n")
OK("ok-c12-early", "", H, """        if self.df_list[key]:
            df = pd.concat(self.df_list[key], ignore_index=True)
            df = self._prepare_before_append(df)

            kwargs = dict(index=False, data_columns=True)
            if expectedrows is not None:
                kwargs['expectedrows'] = expectedrows
            self.store.append(key, df, **kwargs)
            self.n_bytes[key] += df.memory_usage(index=True, deep=True).sum()
            self.df_list[key] = []
            self.df_list_n_bytes[key] = 0
""", """        if not self.df_list[key]:
            return
        df = self._prepare_before_append(pd.concat(self.df_list[key], ignore_index=True))
        self.store.append(key, df, index=False, data_columns=True, expectedrows=expectedrows)
        size = df.memory_usage(index=True, deep=True).sum()
        self.n_bytes[key] = self.n_bytes[key] + size
        self.df_list[key], self.df_list_n_bytes[key] = [], 0
""")
OK("ok-c12-finish", "", H, """        total_bytes = 0
        for key in self.keys:
            self._append_to_store(key)
            self.add_metadata(key=key, n_bytes=self.n_bytes[key])
            total_bytes += self.n_bytes[key]
        self.add_metadata(
            total_bytes=total_bytes,
            version=__version__,
        )
""", """        for key in sorted(self.keys):
            self._append_to_store(key)
            n_bytes = self.n_bytes[key]
            self.add_metadata(key=key, name='metadata', n_bytes=n_bytes)
        self.add_metadata(version=__version__, total_bytes=sum(self.n_bytes.values()))
""")
OK("ok-c12-meta", "", H, """        for key, submeta in self.metadata.items():
            if key not in self.store:
                self.store[key] = pd.DataFrame()
            attrs = self.store.get_storer(key).attrs
            for name, d in submeta.items():
                setattr(attrs, name, d)
""", """        for key in self.metadata:
            self._save_table(key, self.metadata[key])

    def _save_table(self, key, tables):
        if key not in self.store:
            self.store[key] = pd.DataFrame()
        attrs = self.store.get_storer(key).attrs
        for name in tables:
            setattr(attrs, name, tables[name])
""")
OK("ok-c12-append", "", H, "        memory_usage = df.memory_usage(index=True, deep=True).sum()\n        self.df_list_n_bytes[key] += memory_usage\n        if self.df_list_n_bytes[key] >= 0.5E9:\n", "        self.df_list_n_bytes[key] += df.memory_usage(index=True, deep=True).sum()\n        full = self.df_list_n_bytes[key] >= 0.5E9\n        if full:\n")
OK("ok-c13-merge", "", A, "                if hasattr(attrs, name):\n                    old_d = getattr(attrs, name)\n                    if isinstance(old_d, dict):\n                        d = {**getattr(attrs, name), **d}\n                setattr(attrs, name, d)\n", "                old = getattr(attrs, name, None)\n                merged = {**old, **d} if isinstance(old, dict) else d\n                setattr(attrs, name, merged)\n")
OK("ok-c13-sizes", "", A, "        for key in self.dataframe_keys:\n            self.n_bytes[key] = self.get_n_bytes(key)\n", "        self.n_bytes.update({k: self.get_n_bytes(k) for k in self.dataframe_keys})\n")
OK("ok-c13-finish", "", A, "        for key in self.keys:\n            self._append_to_store(key)\n            self.add_metadata(key=key, n_bytes=self.n_bytes[key])\n", "        for key in self.keys:\n            self._append_to_store(key)\n        for key in self.keys:\n            self.add_metadata(key=key, n_bytes=self.n_bytes[key])\n")
