R="core/io/hdf5_reader.py"; D="core/io/dl1_reader.py"
BUG("c14-mode", "C14", R, "path, mode='r', complevel", "path, mode='a', complevel")
BUG("c14-mode-default", "C14", R, "path, mode='r', complevel", "path, complevel")
BUG("c14-exit", "C14", R, "        self.store.close()", "        if exc_type is None:\n            self.store.close()")
BUG("c14-limit", "C14", R, "if (n_bytes > 8E9) and not force", "if (n_bytes > 80E9) and not force")
BUG("c14-and-or", "C14", R, "if (n_bytes > 8E9) and not force", "if (n_bytes > 8E9 and len(self.dataframe_keys) > 1) and not force")
BUG("c14-force", "C14", R, "def read(self, key, force=False)", "def read(self, key, force=True)")
BUG("c14-early", "C14", R, "        n_bytes = self.get_n_bytes(key)\n        if", "        df = self.store[key]\n        n_bytes = self.get_n_bytes(key)\n        if", "return self.store[key]", "return df")
BUG("c14-data-size", "C14", R, "        n_bytes = self.get_n_bytes(key)\n        if", "        n_bytes = self.get_n_bytes('data')\n        if")
BUG("c14-force-lost", "C14", D, "        return self.read('data', force=force)", "        return self.read('data', force=True)")
BUG("c14-bypass", "C14", D, "        return self.read('data', force=force)", "        return self.store['data']")
BUG("c14-select-all", "C14", D, "        return self.read('data', force=force)", "        return self.store.select('data')")
BUG("c14-mon-force", "C14", D, "return self._load_entire_table(\"monitor_tm\", force)", "return self._load_entire_table(\"monitor_tm\", True)")
BUG("c14-handler", "C14", R, "except (AttributeError, KeyError)", "except AttributeError")
BUG("c14-handler2", "C14", R, "except (AttributeError, KeyError)", "except KeyError")
BUG("c14-names-one", "C14", R, "self.metadata_keys[key].append(subattr)", "self.metadata_keys[key] = [subattr]")
BUG("c14-names-config", "C14", R, "if subattr in ['info']", "if subattr in ['info', 'config']")
BUG("c14-list-first", "C14", R, "if not n_bytes == 0:", "if not n_bytes == 0 and 'data' not in key:")
BUG("c14-name-missing", "C14", R, "        elif name not in self.metadata_keys[key]:", "        elif not self.metadata_keys[key]:")
BUG("c14-typo-error", "C14", R, "            raise KeyError(msg)", "            raise AttributeError(msg)")
BUG("c14-chunk-inverted", "C14", R, "self.get_n_rows(key) / self.get_n_bytes(key) * 2E9", "self.get_n_bytes(key) / self.get_n_rows(key) / 2E9")
BUG("c14-chunk-floor", "C14", R, "self.get_n_rows(key) / self.get_n_bytes(key) * 2E9", "self.get_n_rows(key) // self.get_n_bytes(key) * 2E9")
BUG("c14-chunk-zero", "C14", R, "if not chunksize:", "if chunksize is None:")
BUG("c14-chunk-skip", "C14", R, "            yield df\n", "            if df.shape[0] == chunksize:\n                yield df\n")
BUG("c14-kwargs", "C14", R, "chunksize=chunksize, **kwargs)", "chunksize=chunksize)")
BUG("c14-dl1-chunk", "C14", D, "super().iterate_over_chunks('data', chunksize, **kwargs)", "super().iterate_over_chunks('data', chunksize)")
BUG("c14-effects", "C14", R, "        return self.store.get_storer(key).nrows", "        storer = self.store.get_storer(key)\n        storer.attrs.n_read = 1\n        return storer.nrows")
BUG("c14-mapmeta", "C14", R, "mapping.metadata = self.store.get_storer('mapping').attrs.metadata", "mapping.metadata = self.store.get_storer('data').attrs.metadata")
OK("ok-c14-helper", "", R, "        n_bytes = self.get_n_bytes(key)\n        if (n_bytes > 8E9) and not force:\n            raise MemoryError(\n                f\"DataFrame is larger than 8GB ({n_bytes*1e-9:.2f}GB), \"\n                \"set force=True to proceed with \"\n                \"loading the entire DataFrame into memory\"\n            )\n        if n_bytes > 8E9:\n            warnings.warn(\"WARNING: DataFrame is larger than 8GB\", UserWarning)\n        return self.store[key]\n", "        self._check_size(self.get_n_bytes(key), force)\n        return self._load(key)\n\n    def _load(self, key):\n        return self.store.get(key)\n\n    @staticmethod\n    def _check_size(n_bytes, force):\n        limit = 8 * 1000**3\n        if n_bytes <= limit:\n            return\n        if force:\n            warnings.warn('big')\n        else:\n            raise MemoryError(f'{n_bytes}')\n")
OK("ok-c14-chunk", "", R, "            chunksize = self.get_n_rows(key) / self.get_n_bytes(key) * 2E9\n        for df in self.store.select(key, chunksize=chunksize, **kwargs):\n            yield df", "            bytes_per_row = self.get_n_bytes(key) / self.get_n_rows(key)\n            chunksize = max(1, int(2E9 / bytes_per_row))\n        yield from self.store.select(key, chunksize=chunksize, **kwargs)")
OK("ok-c14-listing", "", R, "            try:\n                n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']\n            except (AttributeError, KeyError):\n                n_bytes = 0\n            if key in ['mapping']:\n                continue\n", "            if key == 'mapping':\n                continue\n            try:\n                n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']\n            except Exception:\n                n_bytes = 0\n", "if subattr.startswith(\"_\"):\n                    continue\n                if subattr in ['info']:\n                    continue\n                if isinstance(getattr(attrs, subattr), dict):\n", "if subattr.startswith(\"_\") or subattr == 'info':\n                    continue\n                value = getattr(attrs, subattr)\n                if isinstance(value, dict):\n")
OK("ok-c14-listing2", "", R, "            try:\n                n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']\n            except (AttributeError, KeyError):\n                n_bytes = 0\n", "            metadata = getattr(self.store.get_storer(key).attrs, 'metadata', {})\n            n_bytes = metadata.get('n_bytes', 0)\n")
OK("ok-c14-exit", "", R, "        self.store.close()", "        store = self.store\n        store.close()\n        return False")
OK("ok-c14-meta", "", R, "        if key not in self.metadata_keys:\n            raise KeyError(", "        names = self.metadata_keys.get(key)\n        if names is None:\n            raise KeyError(", "        elif name not in self.metadata_keys[key]:", "        if name not in names:")
