from run import pairs
G = [('p_util', '_vc_', 8), ('p_util2', '', 28), ('p_util3', r'vp_(vc|bw|op|lk)', 20)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
