M="calib/pixel_masks.py"
MERGE='''            self.dead = np.logical_or(self.dead, dead)
            self.low = np.logical_or(self.low, low)
            self.bad_hv = np.logical_or(self.bad_hv, bad_hv)
'''
ELSE='''            self.dead = dead
            self.low = low
            self.bad_hv = bad_hv

'''
RED="        bad_hv = df['bad_hv'].values.reshape((N_SUPERPIXELS, 4)).any(1)\n"
LATEST='''            paths = sort_file_list(glob(get_calib_data("pixel_masks/*")))
            path = paths[-1]  # Get latest file
'''
SAVE='''        bad_hv = np.repeat(self.bad_hv, 4)
        df = pd.DataFrame(dict(
            pixel=np.arange(self.dead.size),
            dead=self.dead,
            low=self.low,
            bad_hv=bad_hv,
        ))
        df.to_csv(path, sep='\\t', index=False)
'''
ALL='''        return np.logical_or.reduce([
            self.dead, self.low, np.repeat(self.bad_hv, 4)
        ])
'''
BUG("c24-and","C24",M,MERGE,MERGE.replace("self.low = np.logical_or","self.low = np.logical_and"))
BUG("c24-xor","C24",M,MERGE,MERGE.replace("self.dead = np.logical_or","self.dead = np.logical_xor"))
BUG("c24-replace","C24",M,MERGE,MERGE.replace("self.bad_hv = np.logical_or(self.bad_hv, bad_hv)","self.bad_hv = bad_hv"))
BUG("c24-cross","C24",M,MERGE,MERGE.replace("self.low = np.logical_or(self.low, low)","self.low = np.logical_or(self.dead, low)"))
BUG("c24-keep","C24",M,MERGE,MERGE.replace("self.low = np.logical_or(self.low, low)","self.low = np.logical_or(self.low, self.low)"))
BUG("c24-always","C24",M,ELSE,ELSE.replace("self.low = low","self.low = self.low | low"))
BUG("c24-all","C24",M,RED,RED.replace("any(1)","all(1)"))
BUG("c24-shape","C24",M,RED,RED.replace("(N_SUPERPIXELS, 4)","(4, N_SUPERPIXELS)").replace("any(1)","any(0)"))
BUG("c24-first","C24",M,RED,"        bad_hv = df['bad_hv'].values[::4]\n")
BUG("c24-column","C24",M,"low = df['low'].values","low = df['dead'].values")
BUG("c24-tile","C24",M,SAVE,SAVE.replace("np.repeat(self.bad_hv, 4)","np.tile(self.bad_hv, 4)"))
BUG("c24-swapped","C24",M,SAVE,SAVE.replace("dead=self.dead","dead=self.low").replace("low=self.low,","low=self.dead,"))
BUG("c24-missing","C24",M,SAVE,SAVE.replace("            low=self.low,\n",""))
BUG("c24-sep","C24",M,SAVE,SAVE.replace("'\\t'","','"))
BUG("c24-append","C24",M,SAVE,SAVE.replace("index=False","index=False, mode='a'"))
BUG("c24-lex","C24",M,LATEST,LATEST.replace("sort_file_list(","sorted("))
BUG("c24-unsorted","C24",M,LATEST,LATEST.replace("sort_file_list(","list("))
BUG("c24-oldest","C24",M,LATEST,LATEST.replace("[-1]","[0]"))
BUG("c24-natkey","C24","utils/files.py","return int(text) if text.isdigit() else text","return text")
BUG("c24-name","C24",M,'"d%y%m%dT%H%M"','"d%d%m%yT%H%M"')
BUG("c24-folder","C24",M,'get_calib_data(f"pixel_masks/{now}.dat")','get_calib_data(f"masks/{now}.dat")')
BUG("c24-nolow","C24",M,ALL,"        return np.logical_or(self.dead, np.repeat(self.bad_hv, 4))\n")
BUG("c24-alltile","C24",M,ALL,ALL.replace("np.repeat","np.tile"))
BUG("c24-alland","C24",M,ALL,"        return self.dead | self.low & np.repeat(self.bad_hv, 4)\n")
BUG("c24-init","C24",M,"self._load_file(path=path, merge=False)","self._load_file(merge=False)")
OK("c24-bitor","",M,MERGE,MERGE.replace("np.logical_or(self.dead, dead)","self.dead | dead"))
OK("c24-inplace","",M,MERGE,"            self.dead |= dead\n            self.low |= low\n            self.bad_hv |= bad_hv\n")
OK("c24-setattr","",M,MERGE,"            for name, new in dict(dead=dead, low=low, bad_hv=bad_hv).items():\n                setattr(self, name, np.logical_or(getattr(self, name), new))\n")
OK("c24-swaporder","",M,MERGE,MERGE.replace("(self.low, low)","(low, self.low)"))
OK("c24-guard","",M,"        if merge:\n"+MERGE+"        else:\n"+ELSE,"        if merge:\n            dead = dead | self.dead\n            low = low | self.low\n            bad_hv = bad_hv | self.bad_hv\n        self.dead, self.low, self.bad_hv = dead, low, bad_hv\n\n")
OK("c24-minus1","",M,RED,RED.replace("(N_SUPERPIXELS, 4)","-1, 4").replace("any(1)","any(axis=1)"))
OK("c24-npany","",M,RED,"        bad_hv = np.any(df['bad_hv'].to_numpy().reshape((-1, 4)), axis=-1)\n")
OK("c24-dict","",M,SAVE,SAVE.replace("dict(\n            pixel=np.arange(self.dead.size),\n            dead=self.dead,\n            low=self.low,\n            bad_hv=bad_hv,\n        )","{'pixel': np.arange(self.dead.size), 'dead': self.dead, 'low': self.low, 'bad_hv': self.bad_hv.repeat(4)}"))
OK("c24-assign","",M,SAVE,SAVE.replace("            bad_hv=bad_hv,\n        ))\n","        ))\n        df['bad_hv'] = bad_hv\n"))
OK("c24-sorted","",M,LATEST,'            path = sorted(glob(get_calib_data("pixel_masks/*")), key=natural_keys)[-1]\n',"import sort_file_list, create","import natural_keys, create")
OK("c24-max","",M,LATEST,'            path = max(glob(get_calib_data("pixel_masks/*")), key=natural_keys)\n',"import sort_file_list, create","import natural_keys, create")
OK("c24-allor","",M,ALL,"        return self.dead | self.low | np.repeat(self.bad_hv, 4)\n")
OK("c24-allor2","",M,ALL,"        mask = np.logical_or(self.dead, self.low)\n        return np.logical_or(mask, np.repeat(self.bad_hv, 4))\n")
OK("c24-seconds","",M,'"d%y%m%dT%H%M"','"d%y%m%dT%H%M%S"')
BUG("c24-first-bool","C24",M,RED,"        bad_hv = df['bad_hv'].values[::4].astype(bool)\n")
BUG("c24-three","C24",M,RED,"        hv = df['bad_hv'].values\n        bad_hv = hv[::4] | hv[1::4] | hv[2::4]\n")
OK("c24-strides","C24",M,RED,"        hv = df['bad_hv'].values\n        bad_hv = hv[::4] | hv[1::4] | hv[2::4] | hv[3::4]\n")
