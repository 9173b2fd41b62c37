from run import pairs
G = [('p_td', r'', 9), ('p_td2', r'vp_(inf|trn)', 3), ('p_td3', r'', 20), ('p_td4', r'', 24), ('p_td5', r'', 18), ('p_util3', r'vp_bsz', 14)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
