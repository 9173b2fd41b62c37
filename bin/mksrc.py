#!/usr/bin/env python3
"""Create a clang-compilable, line-preserving copy of /repo's headers.

nntl is written for MSVC; its two-phase-lookup-hostile constructs do not compile with clang.
Every rewrite below is a pure portability edit (adds `typename`, qualifies a name, ...): it is
applied to whatever the working tree contains, never moves a line, and never alters an expression.
"""
import os, re, sys

REPO = os.environ.get("VP_REPO", "/repo")

def rw_generic(s):
    # using Base::type_t;  ->  using typename Base::type_t;
    s = re.sub(r'\busing(\s+)(_?[A-Za-z]*base_class(?:_t)?)::(\w+_t)\s*;', r'using\1typename \2::\3;', s)
    s = re.sub(r'\busing(\s+)((?:::)?(?:\w+::)*\w+<[^;<>]*>)::(\w+_t)\s*;', r'using\1typename \2::\3;', s)
    # obj.f<T>(...)  ->  obj.template f<T>(...)   (only names of member templates, see TMPL)
    s = re.sub(r'(\.|->)(%s)<(?![=<])' % '|'.join(TMPL), r'\1template \2<', s)
    # get_self().f<T>(...), m.f<T>(...), Thresholds_t::f<T>::v: member templates of a dependent type
    s = re.sub(r'(?<![\w.])((?:\w+(?:\(\))?(?:\.|->))+)(?!template\b)(\w+)<((?:[\w:,\s.*&]|<(?:[\w:,\s.*&]|<[\w:,\s.*&]*>)*>|\([\w().:]*\))*)>\(', r'\1template \2<\3>(', s)
    s = re.sub(r'\bThresholds_t::(\w+)<((?:[\w:,\s]|<[\w:,\s]*>)*)>::', r'Thresholds_t::template \1<\2>::', s)
    s = re.sub(r'<decltype\((\w+)\)::', r'<typename decltype(\1)::', s)
    # alias templates of a dependent base
    s = re.sub(r'(?<![:\w])(?<!using )converter_reduce_data_tpl<', r'iThreads_t::template converter_reduce_data_t<', s)
    s = re.sub(r'typedef iThreads_t::template', 'typedef typename iThreads_t::template', s)
    s = re.sub(r'is_base_of<(_i_layer_\w+), ', r'is_base_of<\1<real_t>, ', s)
    s = re.sub(r'template<bool c = is_layer_learnable<self_t>::value >', 'template<typename VpS_ = self_t, bool c = is_layer_learnable<VpS_>::value >', s)
    s = re.sub(r'\brealmtx_t::tag_noBias\(\)', 'math::smatrix_td::tag_noBias()', s)
    return s

TMPL = ['op', 'set', 'get', 'FPRandom', 'rw_updVecElm', 'rw_initVecElm']

def rw_smatrix(s):
    head, sep, tail = s.partition('class smatrix_deform')
    if sep:
        # MSVC lets an inherited injected-class-name be used through a dependent base
        tail = re.sub(r'\bsmatrix(&&?)', r'smatrix<T_>\1', tail)
    return head + sep + tail

RULES = {}
def rule(path):
    def d(f): RULES.setdefault(path, []).append(f); return f
    return d
rule('nntl/interface/math/smatrix.h')(rw_smatrix)

def inject_after(pat, text):
    def f(s):
        m = re.search(pat, s)
        if not m: return s
        return s[:m.end()] + ' ' + text + s[m.end():]
    return f

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mksrc_rules.py')
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, 'exec'))

def main(out):
    n = 0
    for top in ('nntl',):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith(('.h', '.hpp', '.inl', '.cpp')): continue
                p = os.path.join(d, f); rel = os.path.relpath(p, REPO)
                s = open(p, encoding='utf-8-sig', errors='replace').read().replace('\r\n', '\n')
                t = rw_generic(s)
                for r in RULES.get(rel, []): t = r(t)
                assert t.count('\n') == s.count('\n'), rel
                q = os.path.join(out, rel); os.makedirs(os.path.dirname(q), exist_ok=True)
                if not (os.path.exists(q) and open(q).read() == t):
                    open(q, 'w').write(t)
                n += 1
    l = os.path.join(out, '_extern')
    if not os.path.lexists(l): os.symlink(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shim', 'extern'), l)
    return n

if __name__ == '__main__':
    print(main(sys.argv[1]), 'headers')
