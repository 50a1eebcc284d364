S="plotting/setup.py"
SAVE='''        self.finish()
        output_dir = os.path.dirname(output_path)
        self.create_directory(output_dir)
        self.fig.savefig(output_path, bbox_inches='tight', **kwargs)
        print("Figure saved to: {}".format(output_path))
        self.close()
'''
F="utils/files.py"
BUG("c28-noclose","C28",S,SAVE,SAVE.replace("        self.close()\n",""))
BUG("c28-closefirst","C28",S,SAVE,"        self.finish()\n        self.close()\n"+SAVE.replace("        self.finish()\n","").replace("        self.close()\n",""))
BUG("c28-finishlate","C28",S,SAVE,SAVE.replace("        self.finish()\n","").replace("        self.close()\n","        self.finish()\n        self.close()\n"))
BUG("c28-nofinish","C28",S,SAVE,SAVE.replace("        self.finish()\n",""))
BUG("c28-nodir","C28",S,SAVE,SAVE.replace("        self.create_directory(output_dir)\n",""))
BUG("c28-dirlate","C28",S,SAVE,SAVE.replace("        self.create_directory(output_dir)\n","").replace("        self.close()\n","        self.create_directory(output_dir)\n        self.close()\n"))
BUG("c28-basename","C28",S,SAVE,SAVE.replace("savefig(output_path","savefig(os.path.basename(output_path)"))
BUG("c28-pltsave","C28",S,SAVE,SAVE.replace("self.fig.savefig","plt.savefig"))
BUG("c28-closecur","C28",S,"plt.close(self.fig)","plt.close()")
BUG("c28-closepdf","C28",S,SAVE,SAVE.replace("        self.close()\n","        if output_path.endswith('.pdf'):\n            self.close()\n"))
BUG("c28-clf","C28",S,"plt.close(self.fig)","self.fig.clf()")
BUG("c28-mkdir","C28",F,"os.makedirs(directory, exist_ok=True)","os.mkdir(directory)")
BUG("c28-parentdir","C28",S,SAVE,SAVE.replace("self.create_directory(output_dir)","self.create_directory(os.path.dirname(output_dir))"))
BUG("c28-camera","C28","plotting/camera.py","        super().save(output_path, **kwargs)\n        if","        self.fig.savefig(output_path, **kwargs)\n        if")
BUG("c28-camera2","C28","plotting/camera.py","        super().save(output_path, **kwargs)\n        if output_path.endswith('.pdf'):\n","        if output_path.endswith('.pdf'):\n            super().save(output_path, **kwargs)\n")
BUG("c28-wf","C28","plotting/waveform.py","        plt.close(self.fig)\n        self.fig = plt.figure(figsize=(8.27, 11.69 - 3.5))\n        self.fig.subplots_adjust(hspace=0.0, wspace=0.0)\n        self.fig.suptitle","        self.fig = plt.figure(figsize=(8.27, 11.69 - 3.5))\n        self.fig.subplots_adjust(hspace=0.0, wspace=0.0)\n        self.fig.suptitle")
BUG("c28-spe-late","C28","plotting/spe.py","        plt.close(self.fig)\n        self.n_illuminations = n_illuminations\n        self.fig = plt.figure(figsize=(8, 3))\n","        self.n_illuminations = n_illuminations\n        self.fig = plt.figure(figsize=(8, 3))\n        plt.close(self.fig)\n")
BUG("c28-inner","C28","scripts/plot_spe.py","CameraImage.from_mapping(mapping, ax=self.ax_errors)","CameraImage.from_mapping(mapping)")
BUG("c28-extra","C28","plotting/spe.py","        self.ax.legend(loc=1,","        plt.figure()\n        self.ax.legend(loc=1,")
BUG("c28-always","C28",S,"        if ax:\n            self.ax = ax\n            self.fig = ax.figure\n        else:\n            self.fig = self.create_figure()\n","        fig = self.create_figure()\n        if ax:\n            self.ax = ax\n            self.fig = ax.figure\n        else:\n            self.fig = fig\n")
OK("c28-with","C28",S,SAVE,'''        self.finish()
        output_dir = os.path.dirname(output_path)
        if output_dir:
            os.makedirs(output_dir, exist_ok=True)
        fig = self.fig
        fig.savefig(output_path, bbox_inches='tight', **kwargs)
        plt.close(fig)
        print("Figure saved to: {}".format(output_path))
''')
OK("c28-try","C28",S,SAVE,'''        self.finish()
        self.create_directory(os.path.dirname(output_path))
        try:
            self.fig.savefig(output_path, bbox_inches='tight', **kwargs)
        finally:
            self.close()
        print("Figure saved to: {}".format(output_path))
''')
OK("c28-pathlib","C28",S,SAVE,SAVE.replace("        output_dir = os.path.dirname(output_path)\n        self.create_directory(output_dir)\n","        from pathlib import Path\n        Path(output_path).parent.mkdir(parents=True, exist_ok=True)\n"))
OK("c28-dirfirst","C28",S,SAVE,SAVE.replace("        self.finish()\n","").replace("        self.fig.sav","        self.finish()\n        self.fig.sav"))
OK("c28-axis-none","C28",S,"        if ax:\n","        if ax is not None:\n")
OK("c28-subplots","C28","plotting/spe.py","        self.fig = plt.figure(figsize=(8, 3))\n        self.ax = plt.subplot2grid((3, 5), (0, 0), rowspan=3, colspan=4)\n        self.ax_t = plt.subplot2grid((3, 5), (0, 4), rowspan=3)\n","        self.fig, (self.ax, self.ax_t) = plt.subplots(1, 2, figsize=(8, 3), gridspec_kw=dict(width_ratios=[4, 1]))\n")
OK("c28-close-helper","C28","plotting/spe.py","        plt.close(self.fig)\n        self.n_ill","        self.close()\n        self.n_ill")
OK("c28-camerafig","C28","scripts/plot_spe.py","        self.fig = plt.figure(figsize=(8, 3))\n","        fig = plt.figure(figsize=(8, 3))\n        self.fig = fig\n")
