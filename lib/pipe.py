"""Source -> portable copy -> LLVM IR (clang, no optimisation) -> normalised IR (opt) -> JSON (irdump)."""
import os, sys, subprocess, json, tempfile, shutil, atexit, hashlib, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
_tmp = None
def scratch():
    global _tmp
    if _tmp is None:
        d = os.environ.get('VP_SCRATCH')
        if d: os.makedirs(d, exist_ok=True); _tmp = d
        else:
            _tmp = tempfile.mkdtemp(prefix='vpnntl.'); atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp
class ToolError(Exception): pass
class BuildError(Exception): pass
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
def src():
    d = os.path.join(scratch(), 'src')
    if not os.path.exists(os.path.join(d, '.ok')):
        r = sh([sys.executable, os.path.join(VERIF, 'bin/mksrc.py'), d])
        if r.returncode: raise ToolError('mksrc: ' + r.stderr[-2000:])
        open(os.path.join(d, '.ok'), 'w').close()
    return d
def flags():
    s = src()
    f = '-std=c++17 -g -w -pthread -fno-strict-aliasing -fms-extensions -fms-compatibility -fms-compatibility-version=19 -fdelayed-template-parsing -D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1'.split()
    for t in 'BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER'.split(): f.append('-D__GCC_ATOMIC_%s_LOCK_FREE=2' % t)
    f += ['-D_aligned_malloc=vp_amalloc', '-D_aligned_free=vp_afree', '-D__cdecl=', '-D_WIN32_WINNT=0x0601',
          '-include', VERIF + '/shim/msvc_shim.h', '-I' + VERIF + '/shim/inc', '-I' + VERIF + '/probes', '-I' + s,
          '-I/usr/include/x86_64-linux-gnu/openblas-pthread', '-fno-math-errno', '-fno-discard-value-names']
    return f
def tool():
    d = os.path.join(VERIF, 'build'); t = os.path.join(d, 'irdump'); c = os.path.join(VERIF, 'tool/irdump.cpp')
    if os.path.exists(t) and os.path.getmtime(t) >= os.path.getmtime(c): return t
    os.makedirs(d, exist_ok=True)
    cx = sh(['llvm-config-18', '--cxxflags']).stdout.split(); ld = sh(['llvm-config-18', '--ldflags']).stdout.split()
    tmp = t + '.%d' % os.getpid()
    r = sh(['clang++-18', '-O1', '-w'] + cx + [c, '-o', tmp] + ld + ['-lLLVM-18'])
    if r.returncode: raise ToolError('irdump build: ' + r.stderr[-2000:])
    os.replace(tmp, t); return t
PASSES = ('function(lower-expect,lower-constant-intrinsics,sroa,simplifycfg,early-cse<memssa>),'
          'cgscc(inline),function(sroa,early-cse<memssa>,loop-simplify,lcssa,loop(loop-unroll-full),sroa,instcombine<no-verify-fixpoint>,simplifycfg),'
          'cgscc(inline),function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg),'
          'globaldce,function(lower-constant-intrinsics,expand-memcmp,loop-simplify,lcssa,loop(loop-deletion,loop-unroll-full),sroa,gvn,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop-mssa(licm),sroa,gvn,instcombine<no-verify-fixpoint>,simplifycfg,adce,loop-simplify,lcssa)')
def compile_ll(cpp, out, extra=(), timeout=600):
    first = open(cpp).read(2000)
    if '// flags:' in first: extra = list(extra) + first.split('// flags:')[1].split('\n')[0].split()
    r = sh(['clang++-18'] + flags() + ['-O1', '-funroll-loops', '-U__OPTIMIZE__', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-ferror-limit=20', '-I' + os.path.join(VERIF, 'probes'), cpp, '-o', out] + list(extra), timeout=timeout)
    if r.returncode: raise BuildError(r.stderr[-400000:])
def opt(inp, out, passes=PASSES, extra=()):
    r = sh(['opt-18', '-S', '-passes=' + passes, '-inline-threshold=1000000', '-inlinecold-threshold=1000000', '-inlinehint-threshold=1000000', '-unroll-threshold=100000', '-unroll-full-max-count=16'] + list(extra) + [inp, '-o', out])
    if r.returncode: raise ToolError('opt: ' + r.stderr[-3000:])
def dump(ll, prefix='vp_'):
    r = sh([tool(), ll, prefix])
    if r.returncode: raise ToolError('irdump: ' + r.stderr[-2000:])
    return json.loads(r.stdout)
DROPPED = {}      # probe -> {line: first error}
def probe(name, extra=(), prefix='vp_', passes=PASSES):
    """compile probes/<name>.cpp against the current tree -> (funcs, globals).
    Probe lines that do not compile against the tree (e.g. an internal helper was renamed) are left out and reported as undecided."""
    import re
    cpp = name if os.path.isabs(name) else os.path.join(VERIF, 'probes', name + '.cpp')
    base = os.path.join(scratch(), os.path.basename(name) + hashlib.md5(repr(extra).encode()).hexdigest()[:6])
    lines = open(cpp).read().split('\n'); bad = {}; cur = cpp
    for attempt in range(6):
        try: compile_ll(cur, base + '.ll', list(extra) + ['-ferror-limit=0'] if attempt else extra); break
        except BuildError as ex:
            txt = str(ex); fn = re.escape(os.path.basename(cpp)); new = {}
            msg = None
            for l in txt.splitlines():
                if ' error: ' in l: msg = l.split(' error: ', 1)[1]
                m = re.match(r'.*' + fn + r':(\d+):\d+: (error|note)', l)
                if m and msg and int(m.group(1)) not in bad and lines[int(m.group(1)) - 1].lstrip()[:1] != '#': new.setdefault(int(m.group(1)), msg)
            if not new or len(bad) > len(lines) / 2 or attempt == 5: raise
            bad.update(new)
            cur = base + '_' + os.path.basename(cpp)
            fn2 = os.path.basename(cpp)
            open(cur, 'w').write('#line 1 "%s"\n' % cpp + '\n'.join('' if n + 1 in bad else l for n, l in enumerate(lines)))
    DROPPED[(name, tuple(extra))] = {n: (lines[n - 1], m) for n, m in bad.items()}
    opt(base + '.ll', base + '.o.ll', passes)
    for _ in range(3):      # calls through stored function pointers whose target is known become direct and are inlined
        if not re.search(r'\b(call|invoke)\b[^@\n]* %[\w.]+\(', open(base + '.o.ll').read()): break
        r = sh([tool(), base + '.o.ll', '--devirt', base + '.d.ll'])
        if r.returncode or r.stdout.strip() == '0': break
        opt(base + '.d.ll', base + '.o.ll', passes)
    j = dump(base + '.o.ll', prefix)
    return j['funcs'], j['globals']
