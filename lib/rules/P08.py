from run import pairs
def build(extra): return [pairs('p_smath', '', 35, extra), pairs('p_amax', '', 8, extra)]
GROUPS = build(())
THOROUGH = build(('-DNTYPE=float',))
