HR="core/io/hdf5_reader.py"; DR="core/io/dl1_reader.py"
BUG("c38-kwargs","C38",HR,"        return self.store.select_column(key, column, **kwargs)","        return self.store.select_column(key, column)")
BUG("c38-absent","C38",HR,"        if key not in self.metadata_keys:\n","        if key not in self.dataframe_keys:\n            key = 'data'\n        if key in self.metadata_keys and name == 'x':\n")
BUG("c38-refused","C38",HR,"        if 'mapping' not in self.store:","        if 'mapping' in self.store:")
BUG("c38-sorted","C38",HR,"        for c in columns:\n","        for c in sorted(columns):\n")
BUG("c38-unique","C38",HR,"        for c in columns:\n","        for c in set(columns):\n")
BUG("c38-rowlimit","C38",HR,"        return self.store.select(key, **kwargs)","        return self.store.select(key, stop=1000000, **kwargs)")
BUG("c38-force","C38",HR,"        if (n_bytes > 8E9) and not force:","        if (n_bytes > 8E9) or not force:")
BUG("c38-temp","C38",DR,"        return self.get_metadata('data', 'primary_temp')[","        return self.get_metadata('data', 'sipm_temp')[")
BUG("c38-sp","C38",DR,"        return self.get_metadata('data', 'dac')[f\"TM{tm:02}_SP{sp:02}\"]","        return self.get_metadata('data', 'dac')[f\"TM{sp:02}_SP{tm:02}\"]")
BUG("c38-npix","C38",DR,"        return self.metadata['n_pixels']","        return self.metadata['n_samples']")
BUG("c38-dl1force","C38",DR,"        return self.read('data', force=force)","        return self.read('data', force=True)")
BUG("c38-default","C38",HR,"    def get_metadata(self, key='data', name='metadata'):","    def get_metadata(self, key='data', name='config'):")
OK("ok-c38-a","",HR,"        values = []\n        for c in columns:\n            values.append(self.select_column(key, c, **kwargs))\n        return values","        return [self.select_column(key, c, **kwargs) for c in columns]")
OK("ok-c38-b","",HR,"        return self.store.select(key, **kwargs)","        table = self.store.select(key, **kwargs)\n        return table")
OK("ok-c38-c","",HR,"        if 'mapping' not in self.store:\n            raise KeyError(\"No Mapping stored in HDF5 file\")\n        mapping = self.store['mapping']","        try:\n            mapping = self.store['mapping']\n        except KeyError:\n            raise KeyError(\"No Mapping stored in HDF5 file\")")
OK("ok-c38-d","",DR,"        return self.get_metadata('data', 'sn')[f\"TM{tm:02}\"]","        table = self.get_metadata('data', 'sn')\n        key = \"TM{:02}\".format(tm)\n        return table[key]")
OK("ok-c38-e","",HR,"        elif name not in self.metadata_keys[key]:","        names = self.metadata_keys[key]\n        if not name in names:")
OK("ok-c38-f","",DR,"        return self.read('data', force=force)","        return self.read('data', force)")
OK("ok-c38-g","",DR,"        return super().select('data', **kwargs)","        key = 'data'\n        return super().select(key, **kwargs)")
OK("ok-c38-h","",HR,"        values = []\n        for c in columns:\n            values.append(self.select_column(key, c, **kwargs))\n        return values","        table = self.store.select(key, columns=list(columns), **kwargs)\n        return [table[c] for c in columns]")
