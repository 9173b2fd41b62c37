from run import pairs
GROUPS = [pairs('p_ew', '', 100), pairs('p_ew2', '', 3)]
THOROUGH = [pairs('p_ew', '', 100, ('-DNTYPE=float',)), pairs('p_ew2', '', 3, ('-DNTYPE=float',))]
