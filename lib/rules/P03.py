from run import pairs
G = [('p_smx', r'_(ctor_own|ext_own|intern|clear|move|rs)', 35), ('p_smx2', r'_retry_', 1), ('p_smx3', r'_(ctor_own|ext_own|intern|clear|rs)', 20)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
