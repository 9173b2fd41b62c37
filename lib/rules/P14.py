from run import pairs
GROUPS = [pairs('p_wi', '', 22)]
THOROUGH = [pairs('p_wi', '', 22, ('-DNTYPE=float',))]
