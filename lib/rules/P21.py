from run import pairs
G = [('p_kern', r'', 20), ('p_kern2', r'', 55)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
