from run import pairs
GROUPS = [pairs('p_mul', '', 14), pairs('p_blas', '', 17)]
THOROUGH = [pairs('p_mul', '', 14, ('-DNTYPE=float',))]
