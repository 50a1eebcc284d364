W="waveform_reducers/"
BUG("c05-dup", "C05", W+"superpixel.py", "def sp_argmax(", "def t_event(")
BUG("c05-default-typo", "C05", "core/chain.py", "charge_averagewf=True", "charge_averagwf=True")
BUG("c05-tmpl-default", "C05", "scripts/generate_dl1_config.py", "default.get(c, False)", "default.get(c, True)")
BUG("c05-tmpl-bare", "C05", "scripts/generate_dl1_config.py", "                f.writelines(\"{}: {}\\n\".format(c, default.get(c, False)))\n", "                if not bare or default.get(c, False):\n                    f.writelines(\"{}: {}\\n\".format(c, default.get(c, False)))\n")
BUG("c05-tmpl-nodoc", "C05", "scripts/generate_dl1_config.py", "            for c in r.columns:\n", "            if not r.__doc__:\n                continue\n            for c in r.columns:\n")
BUG("c05-registry", "C05", "core/reducer.py", "if old_func != new_func:", "if old_func == new_func:")
OK("ok-c05-print", "", "scripts/generate_dl1_config.py", "f.writelines(\"{}: {}\\n\".format(c, default.get(c, False)))", "state = default.get(c, False)\n                f.write(f\"{c}: {state}\\n\")")
