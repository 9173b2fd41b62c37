from run import pairs
G = [('p_util', '_(cm|sc|um)_', 20), ('p_norm', '', 12), ('p_norm2', '', 1), ('p_tdn', '', 10), ('p_tdn2', '', 5), ('p_td2', r'vp_tfw', 1)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
