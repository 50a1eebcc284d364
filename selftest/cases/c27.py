M="utils/mapping.py"
SP='''    df = df.groupby('superpixel').agg(f).reset_index()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', UserWarning)
        df.metadata = mapping.metadata.copy()
    df.metadata['n_rows'] = df['row'].max() + 1
    df.metadata['n_columns'] = df['col'].max() + 1
    df.metadata['size'] *= 2
'''
TM=SP.replace("'superpixel'","'slot'").replace("*= 2","*= 8")
I="calib/illumination_profile.py"
W="calib/waveform.py"
U="utils/waveform.py"
A="calib/amplitude_calibrator.py"
BUG("c27-shared","C27",M,SP,SP.replace(".copy()",""))
BUG("c27-shared-tm","C27",M,TM,TM.replace(".copy()",""))
BUG("c27-shared-later","C27",M,TM,TM.replace("mapping.metadata.copy()","mapping.metadata").replace("    df.metadata['size'] *= 8\n","    df.metadata = dict(df.metadata, size=df.metadata['size'] * 8)\n"))
BUG("c27-source-first","C27",M,SP,SP.replace("    with warn","    mapping.metadata['size'] *= 2\n    with warn").replace("    df.metadata['size'] *= 2\n",""))
BUG("c27-rows-index","C27",M,SP,SP.replace("df['row'].max() + 1","df['row'].max()"))
BUG("c27-rows-source","C27",M,TM,TM.replace("df['row'].max() + 1","mapping['row'].max() + 1"))
BUG("c27-cols-row","C27",M,TM,TM.replace("df['col'].max() + 1","df['row'].max() + 1"))
BUG("c27-no-cols","C27",M,SP,SP.replace("    df.metadata['n_columns'] = df['col'].max() + 1\n",""))
BUG("c27-size4","C27",M,SP,SP.replace("*= 2","*= 4"))
BUG("c27-size-none","C27",M,TM,TM.replace("    df.metadata['size'] *= 8\n",""))
BUG("c27-size-set","C27",M,TM,TM.replace("*= 8","= 8"))
BUG("c27-only","C27",M,TM,TM.replace("mapping.metadata.copy()","dict(n_rows=0, n_columns=0, size=mapping.metadata['size'])"))
BUG("c27-pop","C27",M,SP,SP+"    df.metadata.pop('cfgfile')\n")
BUG("c27-rowcol4","C27",M,"v.values[0] // 8","v.values[0] // 4")
BUG("c27-rowcol-all","C27",M,"v.values[0] // 2","v.values[0]")
BUG("c27-group","C27",M,TM,TM.replace("groupby('slot')","groupby('row')"))
BUG("c27-inplace-df","C27",M,"    df = mapping[['slot', 'row', 'col', 'xpix', 'ypix']]\n","    mapping['row'] //= 8\n    df = mapping[['slot', 'row', 'col', 'xpix', 'ypix']]\n")
BUG("c27-sort","C27",M,"    df = mapping[['slot', 'row', 'col', 'xpix', 'ypix']]\n","    mapping.sort_values('slot', inplace=True)\n    df = mapping[['slot', 'row', 'col', 'xpix', 'ypix']]\n")
BUG("c27-geom","C27",M,"        pix_id=np.arange(mapping.metadata['n_pixels']),","        pix_id=np.arange(mapping.metadata.pop('n_pixels')),")
BUG("c27-geom2","C27",M,"    pix_x = mapping['xpix'].values\n","    pix_x = mapping['xpix'].values\n    pix_x *= 1000\n")
BUG("c27-unfold","C27",I,"        return image / self.profile\n","        image /= self.profile\n        return image\n")
BUG("c27-unfold-out","C27",I,"        return image / self.profile\n","        import numpy as np\n        return np.divide(image, self.profile, out=image)\n")
BUG("c27-fold-profile","C27",I,"        return image * self.profile\n","        self.profile *= image\n        return self.profile\n")
BUG("c27-fold-same","C27",I,"        return image * self.profile\n","        return image if (self.profile == 1).all() else image * self.profile\n")
BUG("c27-amp","C27",A,"        return ((values - self.pedestal[pixels]) /\n                self.conversion * self.ff[pixels])","        values -= self.pedestal[pixels]\n        return values / self.conversion * self.ff[pixels]")
BUG("c27-amp-ped","C27",A,"        return ((values","        self.pedestal *= self.conversion\n        return ((values")
BUG("c27-wf-nocopy","C27",W,"copy=True","copy=False")
BUG("c27-wf-order","C27",W,"self.calibrator.ApplyEvent(waveforms, fci, calibrated_wfs)","self.calibrator.ApplyEvent(calibrated_wfs, fci, waveforms)")
BUG("c27-wf-flag","C27",W,"        calibrated_wfs.is_r1 = True\n","        waveforms.is_r1 = True\n        calibrated_wfs.is_r1 = True\n")
BUG("c27-shift-zero","C27",U,"        result[:] = arr[:]\n","        return arr\n")
BUG("c27-shift-view","C27",U,"        result[:] = arr[:]\n","        result = arr[:]\n")
BUG("c27-shift-in","C27",U,"    result = np.empty_like(arr)\n","    result = arr\n")
BUG("c27-shift-early","C27",U,"    shift = t_shift - avg_wf_tevent\n","    shift = t_shift - avg_wf_tevent\n    if shift == 0:\n        return waveforms\n")
BUG("c27-writer","C27","core/io/hdf5_writer.py","        self.store.get_storer('mapping').attrs.metadata = mapping.metadata\n","        mapping.metadata.pop('cfgfile', None)\n        self.store.get_storer('mapping').attrs.metadata = mapping.metadata\n")
OK("c27-dict","C27",M,SP,SP.replace("mapping.metadata.copy()","dict(mapping.metadata)"))
OK("c27-deepcopy","C27",M,TM,TM.replace("mapping.metadata.copy()","copy.deepcopy(mapping.metadata)"),"import warnings\n","import copy\nimport warnings\n")
OK("c27-build","C27",M,SP,'''    df = df.groupby('superpixel').agg(f).reset_index()
    metadata = mapping.metadata.copy()
    metadata.update(
        n_rows=df['row'].max() + 1,
        n_columns=df['col'].max() + 1,
        size=metadata['size'] * 2,
    )
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', UserWarning)
        df.metadata = metadata
''')
OK("c27-literal","C27",M,TM,'''    df = df.groupby('slot').agg(f).reset_index()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', UserWarning)
        df.metadata = {
            **mapping.metadata,
            'n_rows': df['row'].values.max() + 1,
            'n_columns': 1 + np.max(df['col']),
            'size': 8 * mapping.metadata['size'],
        }
''')
OK("c27-helper","C27",M,SP,'''    df = df.groupby('superpixel').agg(f).reset_index()
    _derive(df, mapping, 2)
''',TM,'''    df = df.groupby('slot').agg(f).reset_index()
    _derive(df, mapping, 8)
''',"def get_superpixel_mapping(mapping):\n",'''def _derive(df, mapping, factor):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', UserWarning)
        df.metadata = mapping.metadata.copy()
    df.metadata['n_rows'] = df['row'].max() + 1
    df.metadata['n_columns'] = df['col'].max() + 1
    df.metadata['size'] *= factor


def get_superpixel_mapping(mapping):
''')
OK("c27-first","C27",M,"    f_rowcol = lambda v: v.values[0] // 2\n    f = dict(slot='first', asic='first', row=f_rowcol, col=f_rowcol,\n             xpix='mean', ypix='mean')\n    df = df.groupby('superpixel').agg(f).reset_index()\n","    f = dict(slot='first', asic='first', row='first', col='first',\n             xpix='mean', ypix='mean')\n    df = df.groupby('superpixel').agg(f).reset_index()\n    df['row'] //= 2\n    df['col'] //= 2\n")
OK("c27-iloc","C27",M,"v.values[0] // 8","v.iloc[0] // 8")
OK("c27-out","C27",I,"        return image * self.profile\n","        import numpy as np\n        return np.multiply(image, self.profile)\n")
OK("c27-imgcopy","C27",I,"        return image * self.profile\n","        folded = image.copy()\n        folded *= self.profile\n        return folded\n")
OK("c27-astype","C27",W,"astype(np.float32, copy=True)","astype(np.float32)")
OK("c27-roll","C27",U,"        result[:] = arr[:]\n","        result = arr.copy()\n")
OK("c27-mapcopy","C27",M,"    df = mapping[['slot', 'row', 'col', 'xpix', 'ypix']]\n","    df = mapping[['slot', 'row', 'col', 'xpix', 'ypix']].copy()\n    df['slot'] = df['slot'].astype(int)\n")
MA="utils/mapping.py"
BUG("c27-x-sp-size","C27",MA,"df.metadata['size'] *= 2","df.metadata['size'] *= 4")
BUG("c27-x-tm-size","C27",MA,"    df.metadata['size'] *= 8\n","")
BUG("c27-x-tm-row","C27",MA,"v.values[0] // 8","v.values[0] // 4")
BUG("c27-x-nrows","C27",MA,"    df.metadata['n_rows'] = df['row'].max() + 1\n    df.metadata['n_columns'] = df['col'].max() + 1\n    df.metadata['size'] *= 8","    df.metadata['n_rows'] = df['row'].max()\n    df.metadata['n_columns'] = df['col'].max() + 1\n    df.metadata['size'] *= 8")
BUG("c27-x-ncols","C27",MA,"    df.metadata['n_columns'] = df['col'].max() + 1\n    df.metadata['size'] *= 2","    df.metadata['n_columns'] = df['row'].max() + 1\n    df.metadata['size'] *= 2")
BUG("c27-x-first","C27",MA,"             xpix='mean', ypix='mean')\n    df = df.groupby('superpixel')","             xpix='first', ypix='mean')\n    df = df.groupby('superpixel')")
BUG("c27-x-group","C27",MA,"df.groupby('superpixel')","df.groupby('slot')")
