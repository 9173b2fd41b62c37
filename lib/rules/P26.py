from run import pairs
G = [('p_pack', r'', 39), ('p_pack2', r'', 10)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
