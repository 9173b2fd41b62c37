from run import pairs
GROUPS = [pairs('p_smx', r'_(acc|set|tri)_', 60), pairs('p_smx2', r'_tri_', 5)]
THOROUGH = [pairs('p_smx', r'_(acc|set|tri)_', 60, ('-DNTYPE=float',)), pairs('p_smx2', r'_tri_', 5, ('-DNTYPE=float',))]
