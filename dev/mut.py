#!/usr/bin/env python3
"""Development aid (not a check): systematic small mutations of the analysed headers, to see which the checks notice.
  mut.py cover            lines of each header that some probe instantiates (written to /tmp/mut/cover.json)
  mut.py run FILE N SEED  N random mutants of covered lines of FILE (relative to /repo)
"""
import sys, os, re, json, random, subprocess, shutil, glob
V = '/verif'; sys.path.insert(0, V + '/lib'); W = '/tmp/mut'; os.makedirs(W, exist_ok=True)
def probes(): return sorted(os.path.basename(p)[:-4] for p in glob.glob(V + '/probes/p_*.cpp'))
def cover():
    os.environ['VP_SCRATCH'] = W + '/scr0'; shutil.rmtree(W + '/scr0', ignore_errors=True)
    import pipe
    cov = {}
    for p in probes():
        out = W + '/%s.ll' % p
        pipe.compile_ll(V + '/probes/%s.cpp' % p, out)
        t = open(out).read()
        md = dict(re.findall(r'^(!\d+) = (?:distinct )?(!?DI\w+\(.*\)|!\{.*\})$', t, re.M))
        files = {k: re.search(r'filename: "([^"]*)"', v).group(1) for k, v in md.items() if v.startswith('!DIFile')}
        def filof(k, memo={}):
            d = 0
            while k and d < 50:
                v = md.get(k, ''); m = re.search(r'\bfile: (!\d+)', v)
                if m: return files.get(m.group(1))
                m = re.search(r'scope: (!\d+)', v); k = m.group(1) if m else None; d += 1
        used = set(re.findall(r'!dbg (!\d+)', t)); used |= set(re.findall(r'DILocation\(.*inlinedAt: (!\d+)', t))
        for k in used:
            v = md.get(k, '')
            if not v.startswith('!DILocation'): continue
            ln = int(re.search(r'line: (\d+)', v).group(1)); f = filof(re.search(r'scope: (!\d+)', v).group(1))
            m = f and re.search(r'/src/(nntl/.*|_extern/.*|_supp/.*)$', f)
            if m and ln: 
                m = re.match(r"(.*)", os.path.normpath(m.group(1))); cov.setdefault(m.group(1), {}).setdefault(ln, set()).add(p)
    json.dump({f: {l: sorted(ps) for l, ps in d.items()} for f, d in cov.items()}, open(W + '/cover.json', 'w'))
    for f, d in sorted(cov.items()): print(f, len(d))
SW = [(r'<=', '<'), (r'(?<![<>=!-])<(?![<=])(?=\s*[\w(])', '<='), (r'>=', '>'), (r'(?<=[\w)\s])(?<![->])>(?![>=])(?=\s*[\w(])', '>='), (r'==', '!='), (r'!=', '=='), (r'(?<![+e])\+(?![+=])', '-'), (r'(?<![-e(,=])\s-(?![-=>])', ' + '), (r'\+=', '-='), (r'-=', '+='),
      (r'(?<=[\w)])\*(?=[\w(])', '+'), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<!&)&(?!&)', '|'), (r'(?<!\|)\|(?!\|)', '&'), (r'!(?=[\w(])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\brows\(', 'cols('), (r'\bcols\(', 'rows('),
      (r'\bnumel\(\)', 'numel_no_bias()'), (r'\bnumel_no_bias\(\)', 'numel()'), (r'_no_bias\(', '('), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'\breal_t\(\s*0\.?\s*\)', 'real_t(1)'), (r'\breal_t\(\s*1\.?\s*\)', 'real_t(2)'), (r'\+\+', '--'), (r'/(?![/*=])', '*'),
      (r'^(\s*)([\w.:<>\->\[\]*]+(\([^;{}]*\))?\s*(=|\+=|\*=)[^;{}]*;|[\w.:\->]+\([^;{}]*\);)(.*)$', r'\1;\5'), (r'\bst\(', 'mt('), (r'_st\(', '_mt('), (r'batch_size', 'sample_size'), (r'sample_size', 'batch_size'), (r'begin\(', 'end('), (r'end\(', 'begin('), (r'\bi\b', '(i+1)'), (r'\.first\b', '.second'), (r'\.second\b', '.first'),
      (r'(\w+\()\s*(\w+)\s*,\s*(\w+)\s*([,)])', r'\1\3, \2\4'), (r'\bif\s*\(', 'if (!('), (r'\bstatic_cast<numel_cnt_t>', ''), (r'realmtx_t::sNumel\(', 'vec_len_t('), (r'\s\?\s([^:]+)\s:\s([^;]+);', r' ? \2 : \1;')]
def mutants(f):
    cov = json.load(open(W + '/cover.json'))[f]
    L = open('/repo/' + f, newline='', encoding='utf-8', errors='surrogateescape').read().split('\n'); out = []
    lo, hi = map(int, os.environ.get('MUT_LINES', '0-999999').split('-'))
    for n in sorted(map(int, cov)):
        if not lo <= n <= hi: continue
        l = L[n - 1]; code = l.split('//')[0].rstrip('\r')
        if not code.strip() or 'NNTL_ASSERT' in code or 'static_assert' in code or 'NNTL_UNREF' in code or code.strip().startswith(('#', 'template', 'typedef', 'using', '*', '}')): continue
        for pat, rep in SW:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + re.sub(pat, rep, m.group(0) if not ('(?<' in pat or '(?=' in pat or '(?!' in pat) else m.group(0)) + code[m.end():] if not ('(?<' in pat or '(?=' in pat or '(?!' in pat) else code[:m.start()] + m.expand(rep) + code[m.end():]
                if pat.startswith(r'\bif'):
                    # negate the condition
                    i = new.index('if (!(', m.start()) + 6; d = 1; j = i
                    while j < len(new) and d: d += {'(': 1, ')': -1}.get(new[j], 0); j += 1
                    if d: continue
                    new = new[:j] + ')' + new[j:]
                if new != code: out.append((n, l, new + l[len(code):], cov[str(n)]))
    return out
ONE = r'''
import sys, os, json; sys.path.insert(0, '/verif/lib')
import run, pipe, warnings
res = {'viol': [], 'und': [], 'ok': 0, 'err': ''}
for p in sys.argv[1].split(','):
    try:
        for o in run.pairs(p, '', 0)('quick'):
            if o.status == 'ok': res['ok'] += 1
            elif o.status == 'violation': res['viol'].append(p + ':' + o.key); raise StopIteration
            else: res['und'].append(p + ':' + o.key + ' ' + o.text[:80])
    except StopIteration: break
    except RuntimeError as ex:
        if 'StopIteration' in str(ex): break
        res['err'] = repr(ex)[:200]
    except Exception as ex: res['err'] = repr(ex)[:200]
print(json.dumps(res))
'''
def one(a):
    k, f, (n, old, new, ps) = a
    r = W + '/r%d' % k; s = W + '/s%d' % k; shutil.rmtree(s, ignore_errors=True)
    if not os.path.exists(r): subprocess.run(['cp', '-a', '/repo', r])
    p = r + '/' + f; t = open('/repo/' + f, newline='', encoding='utf-8', errors='surrogateescape').read().split('\n'); t[n - 1] = new
    open(p, 'w', newline='', encoding='utf-8', errors='surrogateescape').write('\n'.join(t))
    env = dict(os.environ, VP_REPO=r, VP_SCRATCH=s, VP_PAIR_S='30', VP_TOTAL_S='300')
    try: x = subprocess.run([sys.executable, '-c', ONE, ','.join(ps)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400); res = json.loads(x.stdout.strip().splitlines()[-1])
    except Exception as ex: res = {'viol': [], 'und': [], 'ok': 0, 'err': repr(ex)[:100]}
    shutil.copy('/repo/' + f, p); shutil.rmtree(s, ignore_errors=True)
    return n, old, new, res
def run_(f, N, seed, J=int(os.environ.get('MUT_J', '6'))):
    from concurrent.futures import ThreadPoolExecutor
    import queue
    ms = mutants(f); random.Random(seed).shuffle(ms); ms = ms[:N]; q = queue.Queue()
    for k in range(J): q.put(k)
    def go(m):
        k = q.get()
        try: return one((k, f, m))
        finally: q.put(k)
    st = {}
    with ThreadPoolExecutor(J) as ex:
        for n, old, new, res in ex.map(go, ms):
            kind = 'killed' if res['viol'] else 'nobuild' if (res['und'] and all('does not build' in u for u in res['und'])) else 'error' if res['err'] else 'undecided' if res['und'] else 'SURVIVED'
            st[kind] = st.get(kind, 0) + 1
            if kind in ('SURVIVED', 'undecided', 'error'): print('%s %s:%d\n  - %s\n  + %s\n    %s' % (kind, f, n, old.strip()[:160], new.strip()[:160], (res['err'] or '; '.join(res['und'][:2]))[:200]), flush=True)
    print(f, st, flush=True)
if __name__ == '__main__':
    if sys.argv[1] == 'cover': cover()
    else:
        for f in sys.argv[2].split(','): run_(f, int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 1)
