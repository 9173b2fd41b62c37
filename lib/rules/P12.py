from run import pairs
PAT = r'^vp_(d\w+Loss_dZ_|loss_|lw\d|dw\d|k)'
GROUPS = [pairs('p_act', PAT, 50)]
THOROUGH = [pairs('p_act', PAT, 50, ('-DNTYPE=float',))]
