from run import pairs
G = [('p_smx', r'_op_', 25), ('p_smx2', r'_bt_', 15), ('p_smx3', r'_op_', 2)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
