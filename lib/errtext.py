"""Error texts: each enumerator of an ErrorCode enumeration is reported by get_error_str() with a text of its own that describes it.
The text of every code is read off the optimised IR (a constant address), so a switch, a table or a chain of ifs are all the same to it."""
import os, re, json, difflib, hashlib
import pipe
from run import Ob
REF = os.path.join(pipe.VERIF, 'lib', 'errtexts.json')
SETS = [('nntl/_nnet_errs.h', 'nntl::_nnet_errs', ''), ('nntl/_supp/io/binfile.h', 'nntl_supp::_binfile_errs', ''), ('nntl/_supp/io/jsonreader.h', 'nntl_supp::_jsonreader_errs', '')]
PRE = '#include "nntl/_defs.h"\n#include "nntl/common.h"\n#include "nntl/math.h"\n#include "nntl/errors.h"\n'
def extract(hdr):
    """the part of the header that holds the error structure (the rest may need libraries that are not here)"""
    s = open(os.path.join(pipe.src(), hdr), errors='replace').read()
    return s
def texts(hdr, st):
    short = st.split('::')[-1]; d = pipe.scratch(); base = os.path.join(d, 'et_' + short)
    s = extract(hdr); m = re.search(r'\bstruct\s+' + short + r'\b[^{;]*\{', s)
    if not m: raise pipe.BuildError('struct %s not found' % short)
    i = m.end(); dep = 1
    while dep and i < len(s):
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"': i += 2 if s[i] == '\\' else 1
        elif s.startswith('//', i): i = s.index('\n', i)
        elif s.startswith('/*', i): i = s.index('*/', i)
        dep += (c == '{') - (c == '}'); i += 1
    body = s[m.start():i] + ';'
    head = PRE + 'using nntl::strchar_t;\nnamespace %s {\n#line %d "%s"\n%s\n}\n' % (st.rsplit('::', 1)[0], s[:m.start()].count('\n') + 1, hdr, body)
    open(base + '.cpp', 'w').write(head)
    r = pipe.sh(['clang++-18'] + pipe.flags() + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + st + '::ErrorCode', base + '.cpp'])
    if r.returncode: raise pipe.BuildError(r.stderr[-3000:])
    names = []
    def walk(n):
        if n.get('kind') == 'EnumConstantDecl' and n['name'] not in names: names.append(n['name'])
        for c in n.get('inner', []): walk(c)
    dec = json.JSONDecoder(); t = r.stdout; k = t.find('{')
    while k >= 0:
        o, e = dec.raw_decode(t, k); walk(o); k = t.find('{', e)
    if len(names) < 2: raise pipe.BuildError('no enumerators of ' + st)
    g = head + 'extern "C" {\n' + ''.join('const void* vp_et_%s(void) { return %s::get_error_str(%s::%s); }\n' % (n, st, st, n) for n in names) + 'const void* vp_et__default(void) { return %s::get_error_str(%s::ErrorCode(1000000)); }\n}\n' % (st, st)
    open(base + '.cpp', 'w').write(g)
    r = pipe.sh(['clang++-18'] + pipe.flags() + ['-O2', '-U__OPTIMIZE__', '-S', '-emit-llvm', base + '.cpp', '-o', base + '.ll'])
    if r.returncode: raise pipe.BuildError(r.stderr[-3000:])
    ll = open(base + '.ll').read()
    con = {m.group(1): re.sub(r'\\([0-9A-F]{2})', lambda q: chr(int(q.group(1), 16)), m.group(2)).rstrip('\0') for m in re.finditer(r'^(@[\w.$"]+) = [^\n]*?constant \[\d+ x i8\] c"((?:[^"])*)"', ll, re.M)}
    out = {}
    for m in re.finditer(r'define [^\n]*@vp_et_(\w+)\([^\n]*\n(.*?)\n\}', ll, re.S):
        q = re.search(r'ret ptr (@[\w.$"]+)', m.group(2)); out[m.group(1)] = con.get(q.group(1)) if q else None
    return names, out
def group(tier):
    rule = 'each error code has its own text'
    ref = json.load(open(REF))
    for hdr, st, _ in SETS:
        short = st.split('::')[-1]
        try: names, tx = texts(hdr, st)
        except (pipe.BuildError, ValueError, IndexError) as ex:
            yield Ob('%s:*' % short, 'undecided', rule, 'cannot be built: ' + str(ex)[:200]); continue
        R = ref.get(st, {}); deflt = tx.get('_default')
        for n in names:
            t = tx.get(n); key = '%s::%s' % (short, n); loc = hdr
            if t is None: yield Ob(key, 'undecided', rule, 'the text is not a constant'); continue
            if not t.strip() or t == deflt: yield Ob(key, 'violation', rule, 'the code is reported as %r, the text of an unknown code' % t, loc); continue
            same = [m for m in names if m != n and tx.get(m) == t]
            if same: yield Ob(key, 'violation', rule, 'the code is reported with the text of %s (%r)' % (same[0], t), loc); continue
            if n in R and t != R[n]:
                sc = {m: difflib.SequenceMatcher(None, t.lower(), x.lower()).ratio() for m, x in R.items()}
                b = max(sc, key=sc.get)
                if sc[b] > sc[n] and t == R[b]: yield Ob(key, 'violation', rule, 'the code is reported with the text that describes %s (%r)' % (b, t), loc); continue
            yield Ob(key, 'ok', rule, repr(t), loc)
group.__doc__ = 'error texts'
if __name__ == '__main__':
    json.dump({st: {n: t for n, t in texts(h, st)[1].items() if n != '_default'} for h, st, _ in SETS}, open(REF, 'w'), indent=1, sort_keys=True); open(REF, 'a').write('\n')
