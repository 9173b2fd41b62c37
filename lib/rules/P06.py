from run import pairs
GROUPS = [pairs('p_smx2', r'_rg_', 20)]
THOROUGH = [pairs('p_smx2', r'_rg_', 20, ('-DNTYPE=float',))]
