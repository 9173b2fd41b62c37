from run import pairs
G = [('p_gcd', r'', 24, ()), ('p_gcd', r'gca|gcwa|gcwb|gz[aw]', 11, ('-DVP_ZERO',))]
def build(extra): return [pairs(p, r, m, tuple(extra) + e) for p, r, m, e in G]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
