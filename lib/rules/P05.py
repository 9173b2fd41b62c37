from run import pairs
G = [('p_smx', r'_(ctor_ext|ext_|df_|sub_)', 40), ('p_smx3', r'_(ctor_ext|ext_)', 25)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
