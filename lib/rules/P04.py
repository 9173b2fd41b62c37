from run import pairs
G = [('p_smx', r'_(cp_|eq)', 12), ('p_smx2', r'_cln_', 1), ('p_smx3', r'_cln_', 1)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
