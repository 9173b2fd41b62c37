from run import pairs
GROUPS = [pairs('p_opt', '', 20)]
THOROUGH = [pairs('p_opt', '', 20, ('-DNTYPE=float',))]
