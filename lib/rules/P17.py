from run import pairs
X = '^vp_(log|exp|sign|eps|fwi_|laz|gc)'
GROUPS = [pairs('p_base', X, 15)]
THOROUGH = [pairs('p_base', X, 15, ('-DNTYPE=float',))]
