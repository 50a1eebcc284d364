R="utils/resolutions.py"
AM='''        self._df = pd.concat([self._df, *self._df_list], ignore_index=True)
        self._df = self._df.groupby(['pixel', 'true']).sum().reset_index()
        self._n_bytes = 0
        self._df_list = []
'''
AM2=AM.replace("true","amplitude")
ADD='''        self._df_list.append(df)
        self._n_bytes += df.memory_usage(index=True, deep=True).sum()
        if self._n_bytes > self._max_bytes:
            self._amalgamate()
'''
FILT="        self._df = self._df.loc[self._df['true'] != 0]\n"
BUG("c26-list-kept","C26",R,AM,AM.replace("        self._df_list = []\n",""))
BUG("c26-acc-lost","C26",R,AM,AM.replace("[self._df, *self._df_list]","self._df_list"))
BUG("c26-acc-twice","C26",R,AM2,AM2.replace("[self._df, *","[self._df, self._df, *"))
BUG("c26-flush-first","C26",R,ADD,'''        self._n_bytes += df.memory_usage(index=True, deep=True).sum()
        if self._n_bytes > self._max_bytes:
            self._amalgamate()
        else:
            self._df_list.append(df)
''')
BUG("c26-flush-reset","C26",R,ADD,ADD.replace("            self._amalgamate()\n","            self._amalgamate()\n            self._df_list = [df]\n"))
BUG("c26-by-pixel","C26",R,AM,AM.replace("['pixel', 'true']","['pixel']"))
BUG("c26-by-true","C26",R,AM2,AM2.replace("['pixel', 'amplitude']","'amplitude'"))
BUG("c26-mean","C26",R,AM,AM.replace(".sum()",".mean()"))
BUG("c26-dedup","C26",R,AM,AM.replace("self._df.groupby","self._df.drop_duplicates().groupby"))
BUG("c26-dropna","C26",R,AM2,AM2.replace("self._df.groupby","self._df.dropna().groupby"))
BUG("c26-abs-diff","C26",R,"np.power(measured - true, 2)","np.abs(measured - true)")
BUG("c26-sum-diff","C26",R,"np.power(measured - true, 2)","np.power(measured + true, 2)")
BUG("c26-n-len","C26",R,"n=np.uint32(1)","n=np.uint32(2)")
BUG("c26-sum2","C26",R,"sum2=charge**2","sum2=charge**3")
BUG("c26-swap","C26",R,"            df_p['charge_resolution'] = self.charge_res(true, sum_, n)\n","            df_p['charge_resolution'] = self.rmse(true, sum_, n)\n")
BUG("c26-swap-abs","C26",R,"            df_c['charge_resolution_abs'] = self.rmse_abs(sum_, n)\n","            df_c['charge_resolution_abs'] = self.rmse(true, sum_, n)\n")
BUG("c26-polarity","C26",R,"        df_c = df_c.drop(columns='pixel')\n        true = df_c['true'].values\n        sum_ = df_c['sum'].values\n        n = df_c['n'].values\n        if self._mc_true:","        df_c = df_c.drop(columns='pixel')\n        true = df_c['true'].values\n        sum_ = df_c['sum'].values\n        n = df_c['n'].values\n        if not self._mc_true:")
BUG("c26-noabs","C26",R,"ChargeResolution.rmse_abs(sum_, n) / np.abs(true)","ChargeResolution.rmse_abs(sum_, n) / true")
BUG("c26-nosqrt","C26",R,"np.sqrt((sum_ / n) + true)","(sum_ / n) + true")
BUG("c26-true-outside","C26",R,"np.sqrt((sum_ / n) + true)","np.sqrt(sum_ / n) + true")
BUG("c26-n-stale","C26",R,"        sum_ = df_c['sum'].values\n        n = df_c['n'].values\n        if","        sum_ = df_c['sum'].values\n        if")
BUG("c26-n-stale2","C26",R,"        sum2 = df_c['sum2'].values\n        n = df_c['n'].values\n","        sum2 = df_c['sum2'].values\n")
BUG("c26-sum2-stale","C26",R,"        sum2 = df_c['sum2'].values\n","")
BUG("c26-std","C26",R,"        std = np.sqrt((sum2 / n) - (mean**2))\n        df_p","        std = np.sqrt((sum2 / n) - mean)\n        df_p")
BUG("c26-std-var","C26",R,"        std = np.sqrt((sum2 / n) - (mean**2))\n        df_c","        std = (sum2 / n) - (mean**2)\n        df_c")
BUG("c26-std-n1","C26",R,"        std = np.sqrt((sum2 / n) - (mean**2))\n        df_p","        std = np.sqrt((sum2 / (n - 1)) - (mean**2))\n        df_p")
BUG("c26-filter-missing","C26",R,FILT,"")
BUG("c26-filter-pos","C26",R,FILT,FILT.replace("!= 0","> 0"))
BUG("c26-filter-col","C26",R,FILT,FILT.replace("['true'] !=","['sum'] !="))
BUG("c26-inplace","C26",R,"        diff2 = np.power(measured - true, 2)\n","        measured -= true\n        diff2 = np.power(measured, 2)\n")
BUG("c26-camera-pixel","C26",R,"df_c = self._df.copy().groupby('true')","df_c = self._df.copy().groupby('pixel')")
BUG("c26-camera-mean","C26",R,"groupby('amplitude').sum()","groupby('amplitude').mean()")
BUG("c26-no-amalg","C26",R,"        self._amalgamate()\n        df_p = self._df.copy()\n","        df_p = self._df.copy()\n")
BUG("c26-x-swap","C26",R,"            pixel=pixel,\n            true=true,","            pixel=pixel,\n            true=measured,")
BUG("c26-filter-stats","C26",R,"        df_p = self._df.copy()\n        sum_","        df_p = self._df.loc[self._df['amplitude'] != 0].copy()\n        sum_")
OK("c26-as-index","C26",R,AM,AM.replace("['pixel', 'true']).sum().reset_index()","['pixel', 'true'], as_index=False).sum()"))
OK("c26-agg","C26",R,AM,AM.replace(".sum().reset_index()",".agg('sum').reset_index()"))
OK("c26-key-order","C26",R,AM2,AM2.replace("['pixel', 'amplitude']","['amplitude', 'pixel']"))
OK("c26-square","C26",R,"np.power(measured - true, 2)","(measured - true) ** 2")
OK("c26-square2","C26",R,"np.power(measured - true, 2)","(true - measured) ** 2")
OK("c26-square3","C26",R,"np.power(measured - true, 2)","np.square(measured - true)")
OK("c26-dict","C26",R,AM,'''        frames = [self._df]
        frames.extend(self._df_list)
        total = pd.concat(frames, ignore_index=True)
        self._df = total.groupby(['pixel', 'true']).sum().reset_index()
        self._df_list = []
        self._n_bytes = 0
''')
OK("c26-plus","C26",R,AM2,AM2.replace("[self._df, *self._df_list]","[self._df] + self._df_list"))
OK("c26-clear","C26",R,AM,AM.replace("self._df_list = []","self._df_list.clear()"))
OK("c26-filter-idx","C26",R,FILT,FILT.replace(".loc[","["))
OK("c26-filter-local","C26",R,FILT,"        undefined = self._df['true'] == 0\n        self._df = self._df[~undefined]\n")
OK("c26-n-ones","C26",R,"n=np.uint32(1)","n=1")
OK("c26-n-array","C26",R,"n=np.uint32(1)","n=np.ones(len(pixel), dtype=np.uint32)")
OK("c26-attr","C26",R,"        sum_ = df_c['sum'].values\n        n = df_c['n'].values\n        if","        sum_ = df_c['sum']\n        n = df_c['n']\n        if")
OK("c26-to-numpy","C26",R,"        sum2 = df_c['sum2'].values\n","        sum2 = df_c['sum2'].to_numpy()\n")
OK("c26-std-square","C26",R,"        std = np.sqrt((sum2 / n) - (mean**2))\n        df_p","        std = np.sqrt(sum2 / n - mean * mean)\n        df_p")
OK("c26-assign","C26",R,"        df_p['mean'] = mean\n        df_p['std'] = std\n","        df_p = df_p.assign(mean=mean, std=std)\n")
OK("c26-drop-list","C26",R,"        df_c = df_c.drop(columns='pixel')\n        true","        df_c = df_c.drop(['pixel'], axis=1)\n        true")
OK("c26-select","C26",R,"df_c = self._df.copy().groupby('true').sum().reset_index()\n        df_c = df_c.drop(columns='pixel')","df_c = self._df.groupby('true')[['sum', 'n']].sum().reset_index()")
OK("c26-noloc","C26",R,"        self._df = self._df.loc[self._df['true'] != 0]\n\n        df_p = self._df.copy()\n","        df = self._df.loc[self._df['true'] != 0]\n\n        df_p = df.copy()\n","        df_c = self._df.copy().groupby('true')","        df_c = df.copy().groupby('true')")
OK("c26-helper","C26",R,'''        df_p = self._df.copy()
        true = df_p['true'].values
        sum_ = df_p['sum'].values
        n = df_p['n'].values
        if self._mc_true:
            df_p['charge_resolution'] = self.charge_res(true, sum_, n)
            df_p['charge_resolution_abs'] = self.charge_res_abs(true, sum_, n)
        else:
            df_p['charge_resolution'] = self.rmse(true, sum_, n)
            df_p['charge_resolution_abs'] = self.rmse_abs(sum_, n)
''','''        df_p = self._resolution(self._df.copy())
''','''        df_c = df_c.drop(columns='pixel')
        true = df_c['true'].values
        sum_ = df_c['sum'].values
        n = df_c['n'].values
        if self._mc_true:
            df_c['charge_resolution'] = self.charge_res(true, sum_, n)
            df_c['charge_resolution_abs'] = self.charge_res_abs(true, sum_, n)
        else:
            df_c['charge_resolution'] = self.rmse(true, sum_, n)
            df_c['charge_resolution_abs'] = self.rmse_abs(sum_, n)

        return df_p, df_c
''','''        df_c = self._resolution(df_c.drop(columns='pixel'))

        return df_p, df_c

    def _resolution(self, df):
        true = df['true'].values
        sum_ = df['sum'].values
        n = df['n'].values
        if self._mc_true:
            df['charge_resolution'] = self.charge_res(true, sum_, n)
            df['charge_resolution_abs'] = self.charge_res_abs(true, sum_, n)
        else:
            df['charge_resolution'] = self.rmse(true, sum_, n)
            df['charge_resolution_abs'] = self.rmse_abs(sum_, n)
        return df
''')
