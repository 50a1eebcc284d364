E="scripts/extract_dl1.py"; R="core/io/dl1_reader.py"; S="scripts/extract_spe.py"; PS="scripts/plot_spe.py"; M="utils/mapping.py"; C="plotting/camera.py"
BUG("c17-nev", "C17", E, "meta['n_events'] = n", "meta['n_event'] = n")
BUG("c17-late", "C17", E, "            meta['n_events'] = n_events_processed\n", "", "            add_meta(name='metadata', **meta)\n", "            add_meta(name='metadata', **meta)\n            meta['n_events'] = n_events_processed\n")
BUG("c17-cells", "C17", E, "            camera_version=self.reader.camera_version,\n", "            cam_version=self.reader.camera_version,\n")
BUG("c17-sp", "C17", E, "            n_superpixels_per_module=self.reader", "            n_superpixels=self.reader")
BUG("c17-fmt", "C17", E, "tm_str = f'TM{tm:02}'", "tm_str = f'TM{tm:02d}_'")
BUG("c17-fmt2", "C17", E, "tm_sp_str = f'TM{tm:02}_SP{sp:02}'", "tm_sp_str = f'TM{tm:02}_SP{sp:03}'")
BUG("c17-fmt4", "C17", R, "return self.get_metadata('data', 'hvon')[f\"TM{tm:02}_SP{sp:02}\"]", "return self.get_metadata('data', 'hvon')[f\"TM{sp:02}_SP{sp:02}\"]")
BUG("c17-name", "C17", R, "self.get_metadata('data', 'primary_temp')", "self.get_metadata('data', 'temp_primary')")
BUG("c17-swapfmt", "C17", E, "tm_sp_str = f'TM{tm:02}_SP{sp:02}'", "tm_sp_str = f'TM{sp:02}_SP{tm:02}'")
BUG("c17-spe", "C17", S, "            n_illuminations=n_illuminations,\n            n_pixels", "            n_ill=n_illuminations,\n            n_pixels")
BUG("c17-spe-table", "C17", S, "                errors=df_errors,\n", "                error=df_errors,\n")
BUG("c17-spe-col", "C17", S, "            charge_hist_edges=charge_hist_edges,\n", "            charge_hist_edge=charge_hist_edges,\n")
BUG("c17-spe-col2", "C17", PS, "pixel_arrays['fit_x']", "pixel_arrays['fit_curve_x']")
BUG("c17-spe-nomap", "C17", S, "        writer.add_mapping(mapping)\n", "")
BUG("c17-map", "C17", M, "            fOTUpRow_l=tc", "            fOTUpRow_L=tc")
BUG("c17-map2", "C17", M, "            n_columns=tc_mapping", "            n_cols=tc_mapping")
BUG("c17-map3", "C17", C, "self._mapping.metadata['fOTUpX_u']", "self._mapping.metadata['fOTUpX_r']")
BUG("c17-map4", "C17", M, "size=tc_mapping.GetSize()", "size=tc_mapping.GetNRows()")
BUG("c17-mapcol", "C17", M, "f = dict(row=f_rowcol, col=f_rowcol, xpix='mean', ypix='mean')", "f = dict(row=f_rowcol, col=f_rowcol, xpix='mean')")
BUG("c17-version", "C17", "core/io/hdf5_writer.py", "            version=__version__,\n", "            clp_version=__version__,\n")
OK("ok-c17-var", "", E, "            meta = dl1_extractor.metadata\n            meta['n_events'] = n_events_processed\n            meta['n_skipped'] = n_events_skipped\n", "            meta = dict(dl1_extractor.metadata, n_events=n_events_processed)\n            meta.update(n_skipped=n_events_skipped)\n")
OK("ok-c17-fmt", "", E, "tm_str = f'TM{tm:02}'", "tm_str = 'TM{:02}'.format(tm)")
OK("ok-c17-helper", "", R, "        return self.get_metadata('data', 'sn')[f\"TM{tm:02}\"]", "        return self._module_entry('sn', tm)", "    def get_sipm_temp(", "    def _module_entry(self, name, tm):\n        return self.get_metadata('data', name)[f\"TM{tm:02}\"]\n\n    def get_sipm_temp(")
OK("ok-c17-spe", "", S, "            charge_hist_edges=charge_hist_edges,\n            fit_x=fit_x,\n            fit_y=fit_y,\n        )\n", "            charge_hist_edges=charge_hist_edges,\n            fit_y=fit_y,\n            fit_x=fit_x,\n        )\n")
OK("ok-c17-meta", "", M, "    from target_calib import Mapping\n    cfgfile = mapping.metadata['cfgfile']\n    is_single_module = mapping.metadata['is_single_module']\n", "    from target_calib import Mapping\n    meta = mapping.metadata\n    cfgfile = meta['cfgfile']\n    is_single_module = meta['is_single_module']\n")
OK("ok-c17-dict", "", M, "            size=tc_mapping.GetSize(),\n", "", "    return df\n\n\ndef get_clp_mapping_from_version", "    df.metadata['size'] = tc_mapping.GetSize()\n    return df\n\n\ndef get_clp_mapping_from_version")
