"""Runner: decides one property on the current tree.

  python3 lib/run.py <ID> [--tier quick|thorough]

A property is a list of rule groups (lib/rules/<ID>.py, GROUPS).  A group yields obligations; each is one of
  ok         decided, the property holds there
  violation  decided, it does not (with the construct and, for normal forms, a separating valuation)
  undecided  the analysis cannot tell (reported in the evidence, never an alarm)
exit 0: nothing violated, 1: violation, 2: the machinery itself failed or nothing could be analysed.
"""

import sys, os, re, json, time, importlib, traceback
VP_TXT = int(os.environ.get('VP_TXT', '300'))
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)

import pipe
VERIF = pipe.VERIF

class Ob:
    """one decided (or undecided) obligation"""
    def __init__(s, key, status, rule, text='', loc=None, detail=None):
        s.key, s.status, s.rule, s.text, s.loc, s.detail = key, status, rule, text, loc, detail

def repo_loc(loc):
    if not loc: return None
    m = re.search(r'((?:nntl|_extern|_supp)/[^:]*:\d+)', str(loc))
    return m.group(1) if m else str(loc)

# ------------------------------------------------------------------ time limits (a pair that cannot be compared in time is undecided)

import signal
T0 = time.time(); PAIR_S = int(os.environ.get('VP_PAIR_S', '60')); TOTAL_S = int(os.environ.get('VP_TOTAL_S', '700'))
class Late(BaseException): pass
class limit:
    """time limit over a block; an expired limit ends the block and is reported as .late"""
    def __init__(s, sec): s.sec = sec; s.late = False
    def __enter__(s):
        def h(*a): raise Late()
        s.old = signal.signal(signal.SIGALRM, h); signal.alarm(max(1, int(min(s.sec, TOTAL_S - (time.time() - T0))))); return s
    def __exit__(s, t, v, b):
        signal.alarm(0); signal.signal(signal.SIGALRM, s.old)
        if t is Late: s.late = True; return True
# ------------------------------------------------------------------ normal-form pairs
_probes = {}
def get_probe(name, extra=()):
    k = (name, tuple(extra))
    if k not in _probes: _probes[k] = pipe.probe(name, extra)
    return _probes[k]

def pairs(probe, pattern='', minimum=1, extra=(), rule='normal form equals reference'):
    """group: every vp_X_i* in the probe has the normal form of vp_X_s*"""
    def g(tier):
        import summ, cmp, sep, sym
        cnt0 = [0]
        try: fs, globs = get_probe(probe, extra)
        except pipe.BuildError as ex:
            first = [l for l in str(ex).splitlines() if 'error' in l][:1]
            yield Ob('probe:' + probe, 'undecided', rule, 'the analysis driver for this group does not build against the tree: ' + (first[0] if first else str(ex)[:200])); return
        dropped = pipe.DROPPED.get((probe, tuple(extra)), {})
        for ln, (t, msg) in sorted(dropped.items()):
            for k in sorted(set(re.findall(r'vp_\w*?_i\w*|^[A-Z]+[0-9]*\(\w+', t)))[:1]: yield Ob('%s:%d:%s' % (probe, ln, k), 'undecided', rule, 'this driver line does not build against the tree: ' + msg[:200]); cnt0[0] += 1
        S = {}
        def sm(n, args=None):
            k = (n, tuple(sorted((args or {}).items())))
            if k not in S:
                try: S[k] = summ.summarise(fs[n], n, globs, opts={'args': args or {}})
                except (summ.Unsupported, sym.TooBig, sym.Budget, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError, ZeroDivisionError) as ex: S[k] = ex
            return S[k]
        cnt = 0
        for n in sorted(fs):
            m = re.match(r'(vp_.*?)_i(_.*)?$', n)
            if not m or (pattern and not re.search(pattern, n)): continue
            sn = m.group(1) + '_s' + (m.group(2) or '')
            if sn not in fs: sn = m.group(1) + '_s'
            cnt += 1
            if sn not in fs:
                if dropped: yield Ob(n, 'undecided', rule, 'its reference could not be built'); continue
                raise pipe.ToolError('no reference for ' + n)
            flags = [re.sub(r'\.\d+$', '', a['name']) for a in fs[n]['args'] if a['t'] == 'i1']
            lm = limit(PAIR_S); o = None
            with lm:
                if flags and len(flags) <= 5:      # boolean parameters: one case per combination of values
                    for bits in range(2 ** len(flags)):
                        av = {f: bool(bits >> j & 1) for j, f in enumerate(flags)}
                        q = decide_pair(n, sm(n, av), sm(sn, av), rule)
                        if q.status != 'ok': q.text = 'with ' + ', '.join('%s=%s' % x for x in av.items()) + ': ' + q.text
                        if o is None or (q.status, o.status) in (('violation', 'ok'), ('violation', 'undecided'), ('undecided', 'ok')): o = q
                        if o.status == 'violation': break
                else: o = decide_pair(n, sm(n), sm(sn), rule)
            if lm.late and (o is None or o.status != 'violation'): o = Ob(n, 'undecided', rule, 'the comparison did not end within its time limit')
            yield o
        if cnt < minimum and not dropped: raise pipe.ToolError('%s/%s: only %d obligations, expected >= %d' % (probe, pattern, cnt, minimum))
    g.__doc__ = '%s %s' % (probe, pattern)
    return g
def uses_t32(S):
    import summ, sym
    from sym import fv, adata
    for e in S['eff']:
        for x in [e.guard, e.val] + [t for k, t in e.doms] + ([e.addr] if e.kind == 'store' else []):
            if any(adata(a)[0] == 't32' for a in fv(x)): return True
    return S['ret'] is not None and any(adata(a)[0] == 't32' for a in fv(S['ret']))
def drop_t32(S):
    import sym, summ
    from summ import Eff, subst
    from sym import fv, adata
    ats = set()
    def col(x): ats.update(a for a in fv(x) if adata(a)[0] == 't32')
    for e in S['eff']:
        for x in [e.guard, e.val] + [t for k, t in e.doms] + ([e.addr] if e.kind == 'store' else []): col(x)
    if S['ret'] is not None: col(S['ret'])
    mp = {a: adata(a)[1] for a in sorted(ats)}
    def f(x):
        if isinstance(x, (bool, str, int)) or x is None: return x
        for _ in range(8):
            mp = {a: adata(a)[1] for a in fv(x) if adata(a)[0] == 't32'}
            if not mp: break
            x = subst(x, mp)
        return x
    eff = [Eff(e.kind, tuple((k, f(t)) for k, t in e.doms), f(e.guard), f(e.addr) if e.kind == 'store' else e.addr, f(e.val), e.ty, e.loc, e.extra) for e in S['eff']]
    return {'ret': f(S['ret']), 'eff': eff, 'notes': S['notes'], 'summ': S.get('summ')}
def decide_pair(n, I, S, rule):
    import cmp, sep, summ, sym
    if isinstance(S, Exception): raise pipe.ToolError('reference of %s cannot be summarised: %r' % (n, S))
    if isinstance(I, Exception): return Ob(n, 'undecided', rule, 'not summarisable: %s' % (str(I) or type(I).__name__)[:200])
    try: o = cmp.compare(I, S)
    except (cmp.Undecided, sym.TooBig, sym.Budget, RecursionError) as ex: o = [('UNDECIDED ' + str(ex), None)]
    except Exception as ex: o = [('UNDECIDED %s %s' % (type(ex).__name__, ex), None)]
    if not o: return Ob(n, 'ok', rule)
    w = None; wn = 0
    try: w, wn = sep.separate(I, S)
    except Exception as ex: wn = repr(ex)
    if w is None and uses_t32(I):
        try:
            if not cmp.compare(drop_t32(I), drop_t32(S)):
                w = ('a product of two 32-bit quantities is formed in 32 bits and wraps for large operands; the reference computes it in 64 bits', None)
        except Exception: pass
    if w is None:
        return Ob(n, 'undecided', rule, 'normal forms differ but no valuation separates them (%s): %s' % (wn, o[0][0][:VP_TXT]))
    loc = w[1] or next((l for t, l in o if l), None)
    return Ob(n, 'violation', rule, o[0][0][:600] + ' | ' + w[0], loc, {'differences': [t for t, l in o], 'separating_valuation': w[0]})

# ------------------------------------------------------------------ main
def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s*(.*)', l.strip())
            if m: out.append(m.groups())
    return out

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', pid + '.json')
    if os.path.exists(evp): os.remove(evp)
    mod = importlib.import_module('rules.' + pid)
    import props; pr = next(p for p in props.P if p['id'] == pid)
    groups = list(mod.GROUPS) + (list(getattr(mod, 'THOROUGH', [])) if tier == 'thorough' else [])
    obs = []; info = {}
    try:
        for g in groups:
            for o in g(tier):
                obs.append(o)
    except pipe.ToolError as ex:
        print('ERROR %s: %s' % (pid, ex)); return 2
    known = [(k, t) for p, k, t in load_known() if p == pid]
    viol = []; kn = []
    for o in obs:
        if o.status != 'violation': continue
        h = next((k for k in known if k[0] == o.key), None)
        (kn if h else viol).append((o, h))
    dec = sum(o.status in ('ok', 'violation') for o in obs); und = [o for o in obs if o.status == 'undecided']
    rules = {}
    for o in obs: rules[o.rule] = rules.get(o.rule, 0) + 1
    for r, c in sorted(rules.items()): print('%s: %4d obligations under rule: %s' % (pid, c, r))
    for o in und: print('UNDECIDED %s [%s] %s' % (o.key, o.rule, o.text[:300]))
    replays = []
    rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    for n, (o, h) in enumerate(viol):
        rp = os.path.join(rd, '%s-%d.json' % (pid, n))
        json.dump({'property': pid, 'construct': o.key, 'rule': o.rule, 'location': repo_loc(o.loc), 'what': o.text, 'detail': o.detail,
                   'reproduce': 'python3 %s/lib/run.py %s --tier %s' % (VERIF, pid, tier)}, open(rp, 'w'), indent=1, default=str)
        replays.append(rp)
        print('  %s at %s [%s]: %s' % (o.key, repo_loc(o.loc) or '?', o.rule, o.text[:900]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    for o, h in kn: print('KNOWN-FINDING: property=%s %s %s' % (pid, o.key, h[1]))
    sites = sorted({repo_loc(o.loc) for o in obs if o.loc})
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': getattr(mod, 'LEVEL', 'other'),
          'coverage': {'obligations': len(obs), 'decided': dec, 'undecided': len(und), 'violated': len(viol), 'known_findings': len(kn),
                       'rules': rules, 'constructs': [o.key for o in obs][:2000], 'undecided_list': [[o.key, o.text[:400]] for o in und],
                       'explanation': getattr(mod, 'EXPLAIN', None) or pr['note']},
          'wall_s': round(time.time() - t0, 2), 'assumptions': list(getattr(mod, 'ASSUME', [])) + pr['assume'],
          'violations': [{'construct': o.key, 'location': repo_loc(o.loc), 'what': o.text[:1000], 'replay': r} for (o, h), r in zip(viol, replays)]}
    if hasattr(mod, 'PROOF'): ev['coverage'].update(mod.PROOF(obs))
    json.dump(ev, open(evp, 'w'), indent=1, default=str)
    if viol: return 1
    if dec == 0: print('ERROR %s: nothing could be analysed' % pid); return 2
    print('%s: held on %d decided obligations (%d undecided) in %.1fs' % (pid, dec, len(und), time.time() - t0))
    return 0
if __name__ == '__main__':
    sys.exit(main())
