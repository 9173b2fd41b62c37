from run import pairs
import errtext
GROUPS = [errtext.group, pairs('p_base', '_le', 2)]
THOROUGH = []
