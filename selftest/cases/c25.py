A="calib/amplitude_matcher.py"
CLAMP='''            if next_dac[isp] > 255:
                next_dac[isp] = 255
                stage[isp] = STAGE.FINISH
                continue
            elif next_dac[isp] < 10:
                next_dac[isp] = 255
                stage[isp] = STAGE.FINISH
                continue

'''
FIN='''            if stage[isp] == STAGE.FINISH:
                continue

'''
MASK='''            if sp_mask[isp]:
                next_dac[isp] = 255
                stage[isp] = STAGE.FINISH
                continue

'''
REV='''                next_dac[isp] = previous_dac[isp]
                stage[isp] += 1
'''
RET="        return next_dac.reshape((32, 16)), average_amplitude_pix, False\n"
STEPS='''            if stage[isp] == STAGE.STEP10:
                next_dac[isp] += 10 * direction[isp]
            elif stage[isp] == STAGE.STEP5:
                next_dac[isp] += 5 * direction[isp]
            elif stage[isp] == STAGE.STEP1:
                next_dac[isp] += 1 * direction[isp]

'''
RES='''        if self.global_stage == GLOBALSTAGE.RESET:
            self.iteration = 0
            self.stage[:] = STAGE.STEP1
            self.global_stage += 1
'''
BUG("c25-256","C25",A,CLAMP,CLAMP.replace("> 255","> 256"))
BUG("c25-low","C25",A,CLAMP,CLAMP.replace("< 10","< 0"))
BUG("c25-nolow","C25",A,CLAMP,CLAMP[:CLAMP.index("            elif")]+"\n")
BUG("c25-low0","C25",A,CLAMP,CLAMP.replace("< 10:\n                next_dac[isp] = 255","< 10:\n                next_dac[isp] = 0"))
BUG("c25-after","C25",A,STEPS+CLAMP,CLAMP+STEPS)
BUG("c25-maskorder","C25",A,FIN+MASK,MASK.replace("255","0")+FIN)
BUG("c25-mask0","C25",A,MASK,MASK.replace("255","100"))
BUG("c25-maskskip","C25",A,MASK,MASK.replace("                next_dac[isp] = 255\n",""))
BUG("c25-nomask","C25",A,MASK,"")
BUG("c25-nofin","C25",A,FIN,"")
BUG("c25-finstep","C25",A,FIN,FIN.replace("FINISH","STEP1"))
BUG("c25-fincond","C25",A,FIN,FIN.replace("stage[isp] == STAGE.FINISH:","stage[isp] == STAGE.FINISH and iteration:"))
BUG("c25-backstage","C25",A,REV,REV.replace("+= 1","-= 1"))
BUG("c25-jump","C25",A,REV,REV.replace("stage[isp] += 1","stage[isp] = STAGE.STEP5"))
BUG("c25-jump2","C25",A,REV,REV.replace("stage[isp] += 1","stage[isp] += 2"))
BUG("c25-prevadd","C25",A,REV,REV.replace("previous_dac[isp]\n","previous_dac[isp] + direction[isp]\n"))
BUG("c25-shape","C25",A,RET,RET.replace(".reshape((32, 16))",""))
BUG("c25-shape2","C25",A,RET,RET.replace("(32, 16)","(16, 32)"))
BUG("c25-reset-always","C25",A,RES,RES.replace("            self.global_stage += 1\n",""))
BUG("c25-reset-eachcall","C25",A,"        if self.global_stage == GLOBALSTAGE.RESET:\n","        if self.global_stage >= GLOBALSTAGE.RESET:\n")
BUG("c25-global","C25",A,"        if finished:\n            self.global_stage += 1\n","        if finished:\n            self.global_stage = GLOBALSTAGE.RESET\n")
BUG("c25-state","C25",A,"        self.current_dac = next_dac\n","        self.current_dac = next_dac + direction\n")
BUG("c25-prev","C25",A,"        self.previous_dac = self.current_dac\n","        self.previous_dac = self.current_dac - 10 * direction\n")
BUG("c25-start","C25",A,"self.previous_dac = self.starting_dacs.copy()","self.previous_dac = np.zeros(n_superpixels)")
BUG("c25-maskshape","C25",A,"bad_hv.reshape((n_superpixels, 4)).all(1)","bad_hv.reshape((4, n_superpixels)).all(0)")
BUG("c25-masknone","C25",A,"self.sp_mask = bad_hv.ravel()","self.sp_mask = np.zeros(n_superpixels, dtype=bool)")
OK("c25-orderok","",A,FIN+MASK,MASK+FIN)
OK("c25-elif","",A,CLAMP,'''            if next_dac[isp] > 255 or next_dac[isp] < 10:
                next_dac[isp] = 255
                stage[isp] = STAGE.FINISH
                continue

''')
OK("c25-local","",A,STEPS+CLAMP,'''            step = 10
            if stage[isp] == STAGE.STEP5:
                step = 5
            elif stage[isp] == STAGE.STEP1:
                step = 1
            value = next_dac[isp] + step * direction[isp]
            if not 10 <= value <= 255:
                value = 255
                stage[isp] = STAGE.FINISH
            next_dac[isp] = value

''')
OK("c25-helper","",A,STEPS,'''            next_dac[isp] += AmplitudeMatcher._step(stage[isp]) * direction[isp]

''',"    def _get_next_dac(self","    @staticmethod\n    def _step(stage):\n        if stage == STAGE.STEP10:\n            return 10\n        if stage == STAGE.STEP5:\n            return 5\n        return 1\n\n    def _get_next_dac(self")
OK("c25-consts","",A,CLAMP,CLAMP.replace("> 255","> MAX_DAC").replace("= 255","= MAX_DAC").replace("< 10","< MIN_DAC"),"class AmplitudeMatcher:","MIN_DAC = 10\nMAX_DAC = 255\n\n\nclass AmplitudeMatcher:")
OK("c25-enumerate","",A,"        n_superpixel = next_dac.size\n        for isp in range(n_superpixel):","        for isp in range(next_dac.size):")
OK("c25-ret","",A,RET,"        matrix = next_dac.reshape((32, 16))\n        return matrix, average_amplitude_pix, False\n")
OK("c25-any","",A,".all(1)",".any(1)")
OK("c25-wide","",A,CLAMP,CLAMP.replace("> 255",">= 256"))
BUG("c25-current","C25",A,"        self.current_dac = next_dac\n","        self.current_dac = self.starting_dacs\n")
BUG("c25-startfrom","C25",A,"        next_dac = dac.copy()\n","        next_dac = np.where(stage < STAGE.FINISH, dac, previous_dac)\n")
BUG("c25-startfrom2","C25",A,"        next_dac = dac.copy()\n","        next_dac = previous_dac.copy()\n")
OK("c25-copy-present","C25",A,"        self.current_dac = next_dac\n","        self.current_dac = next_dac.copy()\n")
OK("c25-nparray","C25",A,"        next_dac = dac.copy()\n","        next_dac = np.array(dac)\n")
