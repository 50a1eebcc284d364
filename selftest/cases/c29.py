W="utils/waveform.py"
M="calib/amplitude_matcher.py"
PM="calib/pixel_masks.py"
MP="utils/mapping.py"
FI="utils/files.py"
SP="plotting/spe.py"
SE="plotting/setup.py"
X="scripts/extract_dl1.py"
XS="scripts/extract_spe.py"
PS="scripts/plot_spe.py"
SF="core/spectrum_fitter.py"
HW="core/io/hdf5_writer.py"
T="core/io/tio.py"
ST="core/io/simtel.py"
CA="plotting/camera.py"
RS="utils/resolutions.py"
# removed or mistyped library names
BUG("c29-np-bool","C29",M,"np.zeros(n_superpixels, dtype=bool)","np.zeros(n_superpixels, dtype=np.bool)")
BUG("c29-np-int","C29",ST,"np.zeros((n_rows, n_columns), dtype=int)","np.zeros((n_rows, n_columns), dtype=np.int)")
BUG("c29-pd-datetime","C29",X,"pd.Timestamp.now()","pd.datetime.now()")
BUG("c29-pd-ts-attr","C29",X,"pd.Timestamp.now()","pd.Timestamp.nowutc()")
BUG("c29-ix","C29",CA,"f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']","f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']")
BUG("c29-source-index","C29",W,"        iev = source.index\n" if 0 else "            iev = waveforms.iev\n","            iev = event.iev\n")
BUG("c29-import-missing","C29",W,"from tqdm import tqdm\n","from tqdm import tqdm_bar as tqdm\n")
BUG("c29-import-module","C29",SF,"from iminuit.iminuit_warnings import HesseFailedWarning","from iminuit.warning_types import HesseFailedWarning")
BUG("c29-import-own","C29",X,"from CHECLabPy.core.chain import WaveformReducerChain","from CHECLabPy.core.chain import ReducerChain as WaveformReducerChain")
BUG("c29-lazy-import","C29",M,"        from CHECLabPy.waveform_reducers.average_wf import AverageWF\n","        from CHECLabPy.waveform_reducers.average import AverageWF\n")
BUG("c29-lazy-import2","C29",FI,"    from CHECLabPy.core.io import DL1Reader\n    df","    from CHECLabPy.core.file_handling import DL1Reader\n    df")
BUG("c29-import-gone","C29",XS,"from multiprocessing import Pool, Manager\n","from multiprocessing import Pool\n")
BUG("c29-np-typo","C29",W,"np.empty_like(arr)","np.emtpy_like(arr)")
BUG("c29-plt","C29",SE,"        plt.close(self.fig)\n","        plt.close_figure(self.fig)\n")
BUG("c29-kw-func","C29",W,"        wf = shift_waveform(waveforms_bs, t_shift)\n","        wf = shift_waveform(waveforms_bs, shift=t_shift)\n")
BUG("c29-too-many","C29",W,"        wf = shift_waveform(waveforms_bs, t_shift)\n","        wf = shift_waveform(waveforms_bs, t_shift, 0, n_samples)\n")
BUG("c29-too-few","C29",W,"        wf = shift_waveform(waveforms_bs, t_shift)\n","        wf = shift_waveform(waveforms_bs)\n")
BUG("c29-kw-class2","C29",M,"ReaderR0(r0_path, max_events=100)","ReaderR0(r0_path, n_max_events=100)")
BUG("c29-kw-pandas","C29",FI,"        path, delimiter=' ', index_col=0, comment='#'\n","        path, delim=' ', index_col=0, comment='#'\n")
BUG("c29-kw-super","C29",PS,"        super().__init__()\n\n        plt.close","        super().__init__(side_by_side=True)\n\n        plt.close")
BUG("c29-self-attr","C29",W,"        entry = self.iev % self.n_base\n","        entry = self.iev % self.n_baseline\n")
BUG("c29-self-method","C29",W,"        self.update_baseline(waveforms)\n","        self._update_baseline(waveforms)\n")
BUG("c29-self-attr-renamed","C29",RS,"        self._max_bytes = 1E9\n","        self._max_nbytes = 1E9\n")
BUG("c29-property-renamed","C29",SF,"    def lookup_typed(self):","    def typed_lookup(self):")
BUG("c29-inherited","C29",PS,"        self.add_legend()\n","        self.make_legend()\n")
BUG("c29-obj-method","C29",X,"self.baseline_subtractor.subtract(waveforms_tc)","self.baseline_subtractor.subtract_baseline(waveforms_tc)")
BUG("c29-obj-attr","C29",X,"        bs = self.baseline_subtractor.baseline\n","        bs = self.baseline_subtractor.baselines\n")
BUG("c29-obj-local","C29",XS,"        pixel_fitter.process(*charges)\n","        pixel_fitter.apply(*charges)\n")
BUG("c29-obj-local-attr","C29",XS,"list(pixel_fitter.pixel_errors.values())","list(pixel_fitter.pixel_error.values())")
BUG("c29-ctx-method","C29",XS,"            writer.write(\n","            writer.write_tables(\n")
BUG("c29-mpl-method","C29",SE,"        self.fig.savefig(output_path","        self.fig.save_fig(output_path")
BUG("c29-mpl-axes","C29",SP,'        self.ax.set_xlabel("Charge (mV ns)")','        self.ax.xlabel_set("Charge (mV ns)")')
BUG("c29-branch-local","C29",FI,'''            if 'HVOn' in line:
                pattern = pattern_hvon
                value_array = hvon
            else:
                pattern = pattern_dac
                value_array = dac
''','''            if 'HVOn' in line:
                pattern = pattern_hvon
                value_array = hvon
            elif 'HV' in line:
                pattern = pattern_dac
                value_array = dac
''')
BUG("c29-branch-local2","C29",W,'''    if num > 0:
        result[:, :num] = fill_value
''','''    if num > 0:
        result = np.empty_like(arr)
        result[:, :num] = fill_value
''',"    result = np.empty_like(arr)\n    if num","    if num")
BUG("c29-branch-local3","C29",ST,"        camera_2d = np.zeros((n_rows, n_columns), dtype=int)\n","        if n_rows > 1:\n            camera_2d = np.zeros((n_rows, n_columns), dtype=int)\n")
BUG("c29-del","C29",W,"    average_wf /= n\n","    average_wf /= n\n    del n, average_wf\n")
BUG("c29-global","C29",M,"                next_dac[isp] = 255\n","                next_dac[isp] = MAX_DAC\n")
BUG("c29-enum","C29",M,"            if stage[isp] == STAGE.FINISH:\n","            if stage[isp] == STAGE.FINISHED:\n")
BUG("c29-except-name","C29",T,"        except ModuleNotFoundError:\n            msg","        except ModuleMissingError:\n            msg")
BUG("c29-re","C29",FI,"            reg_exp = re.search(pattern, line)\n","            reg_exp = re.find(pattern, line)\n")
BUG("c29-os","C29",SE,"os.path.dirname(output_path)","os.path.dir_name(output_path)")
BUG("c29-str","C29",FI,"input_run_path = os.path.join(input_dir, \"Run{:05d}_dl1.h5\")\n    df['path'] = [input_run_path.format(i)","input_run_path = os.path.join(input_dir, \"Run{:05d}_dl1.h5\")\n    df['path'] = [input_run_path.formatted(i)")
BUG("c29-factory","C29",XS,"SpectrumFitterFactory.produce(","SpectrumFitterFactory.build(")
BUG("c29-static-self","C29",SE,"            return self.golden_figsize(0.6)\n","            return self.golden_figsize(0.6, self.talk)\n")
BUG("c29-import-shadow","C29",SF,"import warnings\n","from warnings import warn\n")
BUG("c29-df-method","C29",XS,"df_errors = df_errors.set_index('pixel').sort_index()","df_errors = df_errors.set_index('pixel').sort_values_index()")
# behaviour-preserving
OK("c29-ok-alias","",W,"import numpy as np\n","import numpy\n","np.zeros((n_base, n_pixels, n_base_samples))","numpy.zeros((n_base, n_pixels, n_base_samples))","    def update_baseline","    update = None\n\n    def update_baseline","\n\nclass BaselineSubtractor","\nnp = numpy\n\n\nclass BaselineSubtractor")
OK("c29-ok-helper","",W,"        entry = self.iev % self.n_base\n","        entry = self._entry()\n","    def subtract(","    def _entry(self):\n        return self.iev % self.n_base\n\n    def subtract(")
OK("c29-ok-property","",W,"        entry = self.iev % self.n_base\n","        entry = self._entry\n","    def subtract(","    @property\n    def _entry(self):\n        return self.iev % self.n_base\n\n    def subtract(")
OK("c29-ok-try","C29",W,"from tqdm import tqdm\n","try:\n    from tqdm.auto_ import tqdm\nexcept ImportError:\n    from tqdm import tqdm\n")
OK("c29-ok-hasattr","C29",X,"            date_generated=pd.Timestamp.now(),\n","            date_generated=pd.datetime.now() if hasattr(pd, 'datetime') else pd.Timestamp.now(),\n")
OK("c29-ok-getattr","C29",M,"np.zeros(n_superpixels, dtype=bool)","np.zeros(n_superpixels, dtype=getattr(np, 'bool_', bool))")
OK("c29-ok-correlated","C29",M,'''        if bad_hv is None:
            self.sp_mask''','''        have = bad_hv is not None
        if have:
            bad_size = bad_hv.size
        if not have:
            self.sp_mask''','            if bad_hv.size == n_pixels:','            if bad_size == n_pixels:')
OK("c29-ok-dict-format","C29",W,"    avg_wf_tevent = np.argmax(np.mean(waveforms, 0))\n    shift = t_shift - avg_wf_tevent\n","    def shift_of(wf):\n        avg = np.argmax(np.mean(wf, 0))\n        return t_shift - avg\n    shift = shift_of(waveforms)\n")
OK("c29-ok-late-global","C29",M,"                next_dac[isp] = 255\n","                next_dac[isp] = MAX_DAC\n","class AmplitudeMatcher:","MAX_DAC = 255\n\n\nclass AmplitudeMatcher:")
OK("c29-ok-while","C29",FI,"    with open(path) as file:\n        for line in file:\n","    with open(path) as file:\n        lines = file.readlines()\n        for _, line in enumerate(lines):\n")
OK("c29-ok-kwargs","C29",XS,"        pixel_fitter.multiprocess(n_processes, *charges)\n","        pixel_fitter.multiprocess(n_processes, *tuple(charges))\n")
OK("c29-ok-partial","C29",W,"        wf = shift_waveform(waveforms_bs, t_shift)\n","        wf = shift(waveforms_bs)\n","    average_wf = np.zeros(n_samples)\n","    average_wf = np.zeros(n_samples)\n    shift = partial(shift_waveform, t_shift=t_shift)\n","from tqdm import tqdm\n","from functools import partial\nfrom tqdm import tqdm\n")
OK("c29-ok-unpack","C29",RS,"        self._df_list = []\n        self._df = pd.DataFrame()\n","        self._df_list, self._df = [], pd.DataFrame()\n")
OK("c29-ok-setter-method","C29",RS,"        self._n_bytes = 0\n        self._max_bytes = 1E9\n","        self._reset()\n","    @staticmethod\n    def rmse_abs","    def _reset(self):\n        self._n_bytes = 0\n        self._max_bytes = 1E9\n\n    @staticmethod\n    def rmse_abs")
OK("c29-ok-setattr","C29",RS,"        self._max_bytes = 1E9\n","        setattr(self, '_max_bytes', 1E9)\n")
OK("c29-ok-star-kwargs","C29",FI,"        path, delimiter=' ', index_col=0, comment='#'\n    )","        path, **dict(delimiter=' ', index_col=0, comment='#')\n    )")
OK("c29-ok-flag-return","C29",W,'''    if num > 0:
        result[:, :num] = fill_value
        result[:, num:] = arr[:, :-num]
    elif num < 0:
''','''    if num > 0:
        n = num
        result[:, :n] = fill_value
        result[:, n:] = arr[:, :-n]
    elif num < 0:
''')
OK("c29-ok-for-else","C29",FI,"    for i in range(0):\n" if 0 else "            reg_exp = re.search(pattern, line)\n","            for part in [line]:\n                reg_exp = re.search(pattern, part)\n")
OK("c29-ok-exc-name","C29",T,"            raise ModuleNotFoundError(msg)\n","            raise ModuleNotFoundError(msg) from None\n")
OK("c29-ok-walrus","C29",FI,"            reg_exp = re.search(pattern, line)\n            if reg_exp:\n","            if reg_exp := re.search(pattern, line):\n")
OK("c29-ok-try-assign","C29",M,"            bad_hv.size == n_pixels" if 0 else "        reader = ReaderR0(r0_path, max_events=100)\n","        try:\n            reader = ReaderR0(r0_path, max_events=100)\n        except IOError:\n            print('Cannot open')\n            raise\n")
OK("c29-ok-while-true","C29",W,"    n = 0\n    for","    while True:\n        n = 0\n        break\n    for")
OK("c29-ok-nested-class","C29",RS,"class ChargeResolution:\n","class _Base:\n    def __init_subclass__(cls, **kwargs):\n        super().__init_subclass__(**kwargs)\n\n\nclass ChargeResolution(_Base):\n")
OK("c29-ok-method-alias","C29",X,"        waveforms_bs = self.baseline_subtractor.subtract(waveforms_tc)\n","        subtractor = self.baseline_subtractor\n        waveforms_bs = subtractor.subtract(waveforms_tc)\n")
OK("c29-ok-newattr-on-fig","C29",SE,"            self.fig = self.create_figure()\n","            self.fig = self.create_figure()\n            self.fig._checlab = True\n")
OK("c29-ok-mod-attr-set","C29",RS,"class ChargeResolution:\n","np.checlab_scale = 1\n\n\nclass ChargeResolution:\n","        return np.sqrt(sum_ / n)\n","        return np.checlab_scale * np.sqrt(sum_ / n)\n")
