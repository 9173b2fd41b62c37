from run import pairs
G = [('p_base', '^vp_(fw[a-h|j-z]|cf|wrap|tup|subt|tt|ycomb)', 35), ('p_util3', '^vp_(wfit|wntc|fwcp|tidx)', 4)]
def build(extra): return [pairs(p, r, m, extra) for p, r, m in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
