from run import pairs
G = [('p_kord', r'', 33), ('p_kord2', r'', 16)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
