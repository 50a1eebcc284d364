S="scripts/extract_spe.py"; F="core/spectrum_fitter.py"
RESET='''        self.charge_hist_y = []
        self.charge_hist_y_typed = typed.List()
        for i in range(self.n_illuminations):
'''
LOOP=RESET+'''            hist, edges = np.histogram(
                charges[i], bins=self.n_bins, range=self.range
            )
            between = (edges[1:] + edges[:-1]) / 2

            self.charge_hist_x = between.astype(np.float32)
            self.charge_hist_y.append(hist.astype(np.float32))
            self.charge_hist_y_typed.append(hist.astype(np.float32))
            self.charge_hist_edges = edges.astype(np.float32)
'''
MIN='''        m0.migrad()
        self.fit_result_values = m0.values
'''
V='''        pixel_values = dict(self.fitter.fit_result_values)
        pixel_values["pixel"] = pixel
        self.pixel_values[pixel] = pixel_values
'''
READ='''        self.fitter.apply(*pixel_charges)

        charge_hist_x, charge_hist_y, charge_hist_edges = self.fitter.charge_histogram
'''
PC='        pixel_charges = [self.charges[i][:, pixel] for i in range(n_illuminations)]\n'
DF='''    df_values = df_values.set_index('pixel').sort_index()
    df_errors = df_errors.set_index('pixel').sort_index()
'''
MAP='            pool.map(self._apply_pixel, trange(n_pixels))\n'
SEQ='''        for pixel in trange(n_pixels):
            self._apply_pixel(pixel)
'''
BUG("c23-noreset","C23",F,"        self.charge_hist_y = []\n        self.charge_hist_y_typed = typed.List()\n","        self.charge_hist_y = []\n        if self.charge_hist_y_typed is None:\n            self.charge_hist_y_typed = typed.List()\n")
BUG("c23-warm","C23",F,MIN,MIN+"        self.update_initial(0)\n")
BUG("c23-once","C23",F,MIN,"        m0.migrad()\n        if self.fit_result_values is None:\n            self.fit_result_values = m0.values\n")
BUG("c23-edges-kept","C23",F,"bins=self.n_bins, range=self.range","bins=self.n_bins if self.charge_hist_edges is None else self.charge_hist_edges, range=self.range")
BUG("c23-hist0","C23",F,LOOP,LOOP.replace("charges[i]","charges[0]"))
BUG("c23-bins","C23",F,"bins=self.n_bins, range=self.range","bins=100, range=self.range")
BUG("c23-norange","C23",F,"bins=self.n_bins, range=self.range","bins=self.n_bins")
BUG("c23-early","C23",S,V,'''        pixel_values = dict(self.fitter.fit_result_values)
        self.pixel_values[pixel] = pixel_values
        pixel_values["pixel"] = pixel
''')
BUG("c23-early2","C23",S,V,'''        self.pixel_values[pixel] = dict(self.fitter.fit_result_values)
        self.pixel_values[pixel]["pixel"] = pixel
''')
BUG("c23-key","C23",S,"self.pixel_errors[pixel] = pixel_errors","self.pixel_errors[len(self.pixel_errors)] = pixel_errors")
BUG("c23-wrongsrc","C23",S,"pixel_errors = dict(self.fitter.fit_result_errors)","pixel_errors = dict(self.fitter.fit_result_values)")
BUG("c23-before","C23",S,READ,'''        charge_hist_x, charge_hist_y, charge_hist_edges = self.fitter.charge_histogram
        self.fitter.apply(*pixel_charges)

''')
BUG("c23-col","C23",S,PC,PC.replace("[:, pixel]","[pixel]"))
BUG("c23-ill0","C23",S,PC,PC.replace("charges[i]","charges[0]"))
BUG("c23-short","C23",S,"        for pixel in trange(n_pixels):","        for pixel in trange(n_pixels - 1):")
BUG("c23-events","C23",S,"        _, n_pixels = charges[0].shape\n        for","        n_pixels, _ = charges[0].shape\n        for")
BUG("c23-imap","C23",S,MAP,MAP.replace("pool.map","pool.imap_unordered"))
BUG("c23-async","C23",S,MAP,MAP.replace("pool.map","pool.map_async"))
BUG("c23-private","C23",S,"        self.pixel_errors = manager.dict()","        self.pixel_errors = {}")
BUG("c23-shared","C23",S,"        self.pixel_errors = manager.dict()","        self.pixel_errors = self.pixel_values")
BUG("c23-nosort","C23",S,DF,DF.replace("df_values.set_index('pixel').sort_index()","df_values.set_index('pixel')"))
BUG("c23-noindex","C23",S,DF,DF.replace("df_errors.set_index('pixel').sort_index()","df_errors.sort_index()"))
BUG("c23-desc","C23",S,DF,DF.replace("df_errors.set_index('pixel').sort_index()","df_errors.set_index('pixel').sort_index(ascending=False)"))
BUG("c23-swaptab","C23",S,"                values=df_values,\n                errors=df_errors,","                values=df_errors,\n                errors=df_values,")
BUG("c23-reshape","C23",S,"(reader.n_events, reader.n_pixels)","(reader.n_pixels, reader.n_events)")
BUG("c23-late","C23",S,"        self.charges = charges\n        _, n_pixels = charges[0].shape\n        print","        _, n_pixels = charges[0].shape\n        print",MAP,MAP+"        self.charges = charges\n")
BUG("c23-curve","C23",S,"            fit_x=fit_x,\n            fit_y=fit_y,","            fit_x=fit_y,\n            fit_y=fit_x,")
BUG("c23-order","C23",F,"return self.charge_hist_x, self.charge_hist_y, self.charge_hist_edges","return self.charge_hist_edges, self.charge_hist_y, self.charge_hist_x")
BUG("c23-skipbad","C23",S,SEQ,'''        for pixel in trange(n_pixels):
            if pixel in self.pixel_values:
                break
            self._apply_pixel(pixel)
''')
OK("c23-zip","",F,LOOP,LOOP.replace("for i in range(self.n_illuminations):","for charge in charges:").replace("charges[i]","charge"))
OK("c23-enumerate","",F,LOOP,LOOP.replace("for i in range(self.n_illuminations):","for i, charge in enumerate(charges):").replace("charges[i]","charge"))
OK("c23-local","",F,LOOP,LOOP.replace("self.charge_hist_y = []","hists = []").replace("self.charge_hist_y.append","hists.append")+"        self.charge_hist_y = hists\n")
OK("c23-helper","",S,V,'''        self.pixel_values[pixel] = self._row(pixel, self.fitter.fit_result_values)
''',"    def multiprocess(","    @staticmethod\n    def _row(pixel, values):\n        row = dict(values)\n        row['pixel'] = pixel\n        return row\n\n    def multiprocess(")
OK("c23-literal","",S,V,'''        self.pixel_values[pixel] = dict(self.fitter.fit_result_values, pixel=pixel)
''')
OK("c23-literal2","",S,V,'''        self.pixel_values[pixel] = {**self.fitter.fit_result_values, "pixel": pixel}
''')
OK("c23-charges","",S,PC,"        pixel_charges = [charge[:, pixel] for charge in self.charges]\n","        n_illuminations = self.fitter.n_illuminations\n","")
OK("c23-forloop","",S,PC,'''        pixel_charges = []
        for i in range(n_illuminations):
            pixel_charges.append(self.charges[i][:, pixel])
''')
OK("c23-imap-list","",S,MAP,"            list(pool.imap_unordered(self._apply_pixel, trange(n_pixels)))\n")
OK("c23-imap-loop","",S,MAP,"            for _ in pool.imap_unordered(self._apply_pixel, trange(n_pixels)):\n                pass\n")
OK("c23-async-get","",S,MAP,"            pool.map_async(self._apply_pixel, trange(n_pixels)).get()\n")
OK("c23-npix","",S,"        _, n_pixels = charges[0].shape\n        for","        n_pixels = charges[0].shape[1]\n        for")
OK("c23-tables","",S,"""    df_values = pd.DataFrame(list(pixel_fitter.pixel_values.values()))
    df_errors = pd.DataFrame(list(pixel_fitter.pixel_errors.values()))
    df_arrays = pd.DataFrame(list(pixel_fitter.pixel_arrays.values()))
    df_values = df_values.set_index('pixel').sort_index()
    df_errors = df_errors.set_index('pixel').sort_index()
    df_arrays = df_arrays.set_index('pixel').sort_index()
""","""    df_values = to_table(pixel_fitter.pixel_values)
    df_errors = to_table(pixel_fitter.pixel_errors)
    df_arrays = to_table(pixel_fitter.pixel_arrays)
""","def main():\n","def to_table(results):\n    df = pd.DataFrame(list(results.values()))\n    return df.set_index('pixel').sort_index()\n\n\ndef main():\n")
OK("c23-sortvalues","",S,DF,DF.replace("df_values.set_index('pixel').sort_index()","df_values.sort_values('pixel').set_index('pixel')"))
OK("c23-sortedkeys","",S,"    df_values = pd.DataFrame(list(pixel_fitter.pixel_values.values()))\n","    df_values = pd.DataFrame([pixel_fitter.pixel_values[p] for p in sorted(pixel_fitter.pixel_values.keys())])\n","df_values.set_index('pixel').sort_index()","df_values.set_index('pixel')")
OK("c23-reshape1","",S,"(reader.n_events, reader.n_pixels)","(-1, reader.n_pixels)")
