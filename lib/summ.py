"""Summarise an (optimised, fully inlined) IR function into canonical effects.

summary = { 'ret': V, 'eff': [Effect...] }
Effect('store', doms, guard, addr, val, ty, loc)   doms = ((loopvar_atom, TC), ...) outermost first
Effect('call' , doms, guard, name, args, ...)
"""
import json, re, math
from fractions import Fraction
from sym import *
import sym

class Unsupported(Exception): pass

ALLOCFN = {'vp_amalloc', 'vp_afree', 'free', 'malloc', 'posix_memalign', 'aligned_alloc', '_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'}
FREEFN = ('free', 'vp_afree', '_mm_free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
MATH1 = {'exp','log','sqrt','tanh','sin','cos','log2','log10','exp2','floor','ceil','trunc','round','rint','nearbyint','cbrt','tan','atan','sinh','cosh','lrint','llrint','lround','llround','erf'}

def fnv(name, *args):
    """function atom with canonicalisation"""
    def leaf(*a):
        if name == 'log1p': return _fn('log', padd(ONE, a[0]))
        if name == 'expm1': return psub(_fn('exp', a[0]), ONE)
        return _fn(name, *a)
    return vapply(leaf, *args)
def _fn(name, *a):
    if name == 'exp':
        p = a[0]
        if p == ZERO: return ONE
        # exp(-x) -> exp(x)^-1 ; exp(n*x) with integer n -> exp(x)^n
        k, q = content_norm(p)
        if p.isconst(): return A('fn', 'exp', p)
        if k < 0: return avar(atom('fn', 'exp', pneg(p)), -1)
        # exp(log(x)) = x
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
            d = adata(p.t[0][0][0][0])
            if d[0] == 'fn' and d[1] == 'log' and p.t[0][0][0][1] == 1: return d[2]
    if name == 'log':
        p = a[0]
        if p == ONE: return ZERO
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
            at, e = p.t[0][0][0]; d = adata(at)
            if d[0] == 'fn' and d[1] == 'exp': return pscale(d[2], e)
    if name == 'sqrt':
        p = a[0]
        if p == ZERO: return ZERO
        if p == ONE: return ONE
        if p.isconst():
            import math
            n, dd = p.const().numerator, p.const().denominator
            if n > 0:
                rn, rd = math.isqrt(n), math.isqrt(dd)
                if rn * rn == n and rd * rd == dd: return const(Fraction(rn, rd))
    return A('fn', name, *a)
def _rebuild_fn(data):
    return fnv(data[1], *data[2:])
sym.REBUILD['fn'] = _rebuild_fn
def _rebuild_P(data):
    return data[1]
sym.REBUILD['P'] = _rebuild_P
def _rebuild_t32(data): return vapply(t32, data[1])
sym.REBUILD['t32'] = _rebuild_t32
def _rebuild_div(data): return vapply(lambda a, b: idiv(a, b, data[3]), data[1], data[2])
sym.REBUILD['div'] = _rebuild_div
def _rebuild_sum(data):
    return vsum(data[1], data[2], data[3])
sym.REBUILD['sum'] = _rebuild_sum

def t32(p):
    """truncation to a narrower width: identity on linear forms, marks products"""
    for m, c in p.t:
        if sum(abs(e) for a, e in m) > 1: return A('t32', p)
    return p
def pdivmod(a, b):
    """multivariate division of polynomials with non-negative exponents: a = q*b + r"""
    if not b.t or any(e < 0 for p in (a, b) for m, c in p.t for x, e in m): return ZERO, a
    def key(mc): return (sum(e for x, e in mc[0]), mc[0])
    lm, lc = max(b.t, key=key); dl = dict(lm)
    q = ZERO; r = a
    for _ in range(40):
        for m, c in sorted(r.t, key=key, reverse=True):
            dm = dict(m)
            if all(dm.get(x, 0) >= e for x, e in dl.items()):
                for x, e in dl.items():
                    dm[x] -= e
                    if not dm[x]: del dm[x]
                t = sym._mk({tuple(sorted(dm.items())): Fraction(c) / lc})
                q = padd(q, t); r = psub(r, pmul(t, b)); break
        else: return q, r
    return ZERO, a
def _intq(q): return all(Fraction(c).denominator == 1 for m, c in q.t)
W32 = 2 ** 32
def low32(p):
    """drop the terms that are multiples of 2^32 (packed pairs)"""
    if not any(isinstance(c, Fraction) and c.denominator == 1 and c != 0 and c % W32 == 0 for m, c in p.t): return p
    return sym._mk({m: c for m, c in p.t if Fraction(c).denominator != 1 or c % W32 != 0})
def shlc(x, n, t):
    p = pscale(x, 2 ** n); w = 2 ** int(t[1:])
    if any(abs(c) >= w and Fraction(c) % w == 0 for m, c in p.t): p = sym._mk({m: c for m, c in p.t if Fraction(c) % w != 0})
    return p
def small32(p):
    """0 <= p < 2^32 for admissible 32 bit quantities"""
    return prove_ge0(p) and all(abs(c) < W32 for m, c in p.t) and all(sum(abs(e) for a, e in m) <= 1 for m, c in p.t) and all(isinstance(adata(a)[2] if adata(a)[0] == 'arg' else 'i32', str) for m, c in p.t for a, e in m) and all(adata(a)[0] != 'arg' or adata(a)[2] == 'i32' for m, c in p.t for a, e in m)
def isnarrow(a, t):
    d = adata(a)
    return (d[0] == 'ld' and d[2] == t) or (d[0] == 'arg' and d[2] == t) or (d[0] == 'tn' and d[1] == t)
def idiv(a, b, kind):
    if b.isconst() and b.const() == W32 and a.t:
        lo = low32(a)
        if lo != a and small32(lo): a = psub(a, lo)
    if b.isconst() and b.t:
        k = b.const()
        if all((c / k).denominator == 1 for m, c in a.t): return pscale(a, 1 / k)
    elif len(b.t) == 1:
        q = pmul(a, pinv(b))
        if all(e > 0 for m, c in q.t for at, e in m) and all(c.denominator == 1 for m, c in q.t): return q
    if a == b: return ONE
    if len(b.t) > 1:
        q, r_ = pdivmod(a, b)
        if r_ == ZERO and _intq(q): return q
    if a.isconst() and b.isconst() and b.t:
        import math
        n, d = a.const(), b.const(); q = abs(n) // abs(d)
        return const(q if (n >= 0) == (d >= 0) else -q)
    if kind in ('trunc', 'floor') and prove_ge0(a) and prove_ge0(b): kind = 'q'
    return A('div', a, b, kind)

# ------------------------------------------------------------------ sums
_bd = {}
def bdepth(x):
    """1 + the largest bound-variable index inside x"""
    m = 0
    for a in fv(x):
        d = adata(a)
        if d[0] == 'b': m = max(m, d[1] + 1)
    return m

# Worker jobs. A kernel hands each worker a part [vp_po, vp_po+vp_pn) of the range N it shares out; the parts of all workers tile 0..N-1. A loop over a part
# is the restriction of the loop over N, so the union of all jobs is the loop over N with its variable shifted by vp_po; what still mentions vp_po afterwards
# depends on how the range was shared out.
TILE = {}         # atom of vp_po(N) or vp_pn(N) -> N
def tile_atom(a):
    d = adata(a)
    return d[0] == 'call' and d[1] in ('vp_po', 'vp_pn')
def lift(tc):
    """trip count q*vp_pn(N) -> (q*N, q*vp_po(N)) else None"""
    if not isinstance(tc, Poly): return None
    at = {a for m, c in tc.t for a, e in m if tile_atom(a)}
    if len(at) != 1: return None
    a = at.pop(); d = adata(a)
    if d[1] != 'vp_pn': return None
    q = ZERO
    for m, c in tc.t:
        dm = dict(m)
        if dm.pop(a, 0) != 1: return None
        q = padd(q, sym._mk({tuple(sorted(dm.items())): c}))
    N = d[2][0]; po = A('call', 'vp_po', *d[2:])
    if not isinstance(N, Poly): return None
    TILE[a] = N; TILE[po.t[0][0][0][0]] = N
    return pmul(q, N), pmul(q, po)
def lift_body(x, kv, tc, lf):
    nk = atom('k', 'lift'); LOOPBOUND[nk] = tc
    return subst(simp(subst(x, {kv: avar(nk)})), {nk: psub(avar(kv), lf[1])})
def tiled(*xs): return any(tile_atom(a) for x in xs if not isinstance(x, (bool, str)) and x is not None for a in fv(x))
def vsum(tc, kv, body):
    """Sum_{kv < tc} body ; kv is an atom id (bound variable); body V"""
    if isinstance(tc, Node): return vapply(lambda t: vsum(t, kv, body), tc)
    lf = lift(tc)
    if lf: body = lift_body(body, kv, tc, lf); tc = lf[0]
    if body == ZERO: return ZERO
    if tc.isconst() and tc.const().denominator == 1 and tc.const() <= 4:
        r = ZERO
        for j in range(max(0, int(tc.const()))): r = vapply(padd, r, subst(body, {kv: const(j)}))
        return r
    if isinstance(body, Poly):
        r = ZERO
        for m, c in body.t:
            dep = []; ind = []
            for a, e in m: (dep if kv in fv_atom(a) else ind).append((a, e))
            if not dep: s = tc
            else: s = _sumatom(tc, kv, mono(dep))
            r = padd(r, pmul(pmul(const(c), mono(ind)), s))
        return r
    nk = atom('k', 'sum<%s' % xstr(tc)); LOOPBOUND[nk] = tc      # inside the sum 0 <= kv < tc
    b2 = subst(body, {kv: avar(nk)}); b3 = simp(b2)
    if b3 != b2: return vsum(tc, kv, subst(b3, {nk: avar(kv)}))
    # lift conditions that do not depend on kv
    conds = _conds(body)
    for c in conds:
        if kv not in fv_atom(c):
            return vite(node(c, True, False), vsum(tc, kv, restrict(body, c, True)), vsum(tc, kv, restrict(body, c, False)))
    g = content(body)
    if g not in (0, 1): return pscale(_sumatom(tc, kv, vapply(lambda x: pscale(x, Fraction(1, g)), body)), g)
    return _sumatom(tc, kv, body)
def content(v):
    """greatest common divisor of all coefficients (1 when some are not integers)"""
    if isinstance(v, Node):
        a = content(v.hi)
        return 1 if a == 1 else math.gcd(a, content(v.lo))
    if not isinstance(v, Poly): return 1
    g = 0
    for m, c in v.t:
        c = Fraction(c)
        if c.denominator != 1: return 1
        g = math.gcd(g, abs(c.numerator))
    return g
def mono(l): return sym._mk({tuple(sorted(l)): Fraction(1)})
def _sumatom(tc, kv, body):
    b = adata(kv)
    if not (b[0] == 'b'):
        n = max(bdepth(body), bdepth(tc)); nk = atom('b', n); body = subst(body, {kv: avar(nk)}); kv = nk
    else:
        n = 0
        # renumber canonically: smallest index not used inside
        used = {adata(a)[1] for a in fv(body) if adata(a)[0] == 'b' and a != kv} | {adata(a)[1] for a in fv(tc) if adata(a)[0] == 'b'}
        n = (max(used) + 1) if used else 0
        nk = atom('b', n)
        if nk != kv: body = subst(body, {kv: avar(nk)}); kv = nk
    return A('sum', tc, kv, body)
# NB: ('sum', tc, kv, body): kv is an int atom id, treated as bound (never substituted as it is an int)
def _conds(v, out=None):
    if out is None: out = []
    if isinstance(v, Node):
        if v.c not in out: out.append(v.c)
        _conds(v.hi, out); _conds(v.lo, out)
    return out
def restrict(v, c, val):
    if not isinstance(v, Node): return v
    if v.c == c: return restrict(v.hi if val else v.lo, c, val)
    if v.c > c: return v
    return node(v.c, restrict(v.hi, c, val), restrict(v.lo, c, val))

# ------------------------------------------------------------------ effects
class Eff:
    __slots__ = ('kind', 'doms', 'guard', 'addr', 'val', 'ty', 'loc', 'extra')
    def __init__(s, kind, doms, guard, addr, val, ty, loc, extra=None):
        s.kind, s.doms, s.guard, s.addr, s.val, s.ty, s.loc, s.extra = kind, doms, guard, addr, val, ty, loc, extra
    def key(s): return (s.kind, s.doms, s.guard, s.addr, s.val, s.ty)
    def __repr__(s):
        d = ''.join('for %s<%s ' % (astr(k), xstr(t)) for k, t in s.doms)
        g = '' if s.guard is True else 'if(%s) ' % vstr(s.guard)
        if s.kind == 'store': return '%s%sM[%s] := %s' % (d, g, xstr(s.addr), xstr(s.val))
        return '%s%s%s(%s)' % (d, g, s.addr, ', '.join(xstr(x) for x in s.val))

def esubst(e, mp):
    return Eff(e.kind, tuple((k, subst(t, mp)) for k, t in e.doms), subst(e.guard, mp), subst(e.addr, mp) if e.kind == 'store' else e.addr, subst(e.val, mp), e.ty, e.loc, e.extra)

def base_of(p):
    """pointer base atom of an address polynomial"""
    best = None
    for m, c in p.t:
        if c == 1 and len(m) == 1 and m[0][1] == 1 and is_ptr_atom(m[0][0]): return m[0][0]
    return None
PTR_ATOMS = set()
def is_ptr_atom(a): return a in PTR_ATOMS
def ptr_atom(*data):
    a = atom(*data); PTR_ATOMS.add(a); return a

# ------------------------------------------------------------------ memory
class Mem:
    """per base: ordered list of effects (stores) since function entry; calls are global barriers"""
    def __init__(s, log=()): s.log = log          # tuple of Eff (in order)
    def add(s, *effs): return Mem(s.log + tuple(effs))

TYPESZ = {'float': 4, 'double': 8, 'ptr': 8}
def tysz(t):
    if t in TYPESZ: return TYPESZ[t]
    m = re.match(r'i(\d+)$', t)
    if m: return max(1, int(m.group(1)) // 8)
    return 0

NONNEG = []       # hooks: predicate(atom) -> True if the atom is known >= 0
def nonneg_atom(a):
    d = adata(a)
    if d[0] in ('k', 'b', 'kk'): return True
    if d[0] == 'arg' and d[2] in ('i32', 'i64'): return d[1][:1] in 'rcnz'
    if d[0] == 'div' and d[3] in ('q', 'floor', 'trunc', 'exact'): return all(isinstance(x, Poly) and prove_ge0(x) for x in d[1:3])
    if d[0] == 'rem': return all(isinstance(x, Poly) and prove_ge0(x) for x in d[1:3])
    if d[0] == 'zext' or d[0] == 'tr' or tile_atom(a): return True
    if d[0] == 'bit' and d[1] in ('or', 'and'): return all(isinstance(x, Poly) and prove_ge0(x) for x in d[2:4])
    return any(h(a, d) for h in NONNEG)
def ge1_atom(a):
    d = adata(a)
    return d[0] == 'arg' and d[2] in ('i32', 'i64') and d[1][:1] in 'rcn' or d[0] == 'call' and d[1] == 'vp_pn'
sym.GE1.append(ge1_atom)
def shift_ge1(p):
    """p with every atom known >= 1 replaced by 1 + atom' (atom' >= 0)"""
    mp = {}
    for m, c in p.t:
        for a, e in m:
            if e >= 1 and ge1_atom(a): mp[a] = padd(ONE, A('kk', a))
    return subst(p, mp) if mp else p
CTLWORD = ('llvm.x86.sse.stmxcsr', 'llvm.x86.sse.ldmxcsr', '_controlfp_s')      # the local through which the control word travels has no identity
TEXTOUT = ('snprintf', 'strlen')      # the text itself (written to or measured in its first argument) has no identity
def argonly(e): return isinstance(e.addr, str) and (e.addr.startswith('vp_ao_') or e.addr in TEXTOUT)
def outargs(e): return e.val[:1] if e.addr in TEXTOUT else [x for x in e.val if top_ptr(x)]
def unseen(e):
    """stores to local objects (and text printed into them) are not observable"""
    x = e.addr if e.kind == 'store' else e.val[0] if e.addr in TEXTOUT else None
    b = base_of(x) if isinstance(x, Poly) else None
    return b is not None and (adata(b)[0] == 'alloca' or adata(b)[0] == 'global' and str(adata(b)[1]).startswith('vp_tmp'))
RECORDERS = ('vp_in', 'vp_in2', 'vp_inD', 'vp_inI')
INTCALL = set()   # opaque functions returning an integer
LOOPBOUND = {}    # loop var atom -> TC
def prove_ge0(p, depth=0):
    """p >= 0 for all admissible values (sufficient test)"""
    if not isinstance(p, Poly): return False
    ok = _coefs_ok(p)
    if ok: return True
    if _coefs_ok(shift_ge1(p)): return True
    if depth > 4: return False
    if depth < 4:
        mp = {a: psub(psub(adata(a)[2][0], A('call', 'vp_po', *adata(a)[2:])), A('tr', a)) for m, c in p.t for a, e in m if c < 0 and tile_atom(a) and adata(a)[1] == 'vp_pn'}
        if mp and prove_ge0(subst(p, mp), depth + 1): return True
    # replace a loop variable occurring linearly by its extreme value
    for m, c in p.t:
        for a, e in m:
            d = adata(a)
            if d[0] in ('k', 'b') and a in LOOPBOUND and isinstance(LOOPBOUND[a], Poly):
                if any(a == x and ee > 1 for mm, cc in p.t for x, ee in mm): continue
                co = _mk_coeff(p, a)
                mx = psub(LOOPBOUND[a], ONE)
                rest = psub(p, pmul(co, avar(a)))
                if prove_ge0(co, depth + 1): return prove_ge0(rest, depth + 1)
                if prove_ge0(pneg(co), depth + 1):
                    return prove_ge0(padd(rest, pmul(co, mx)), depth + 1)
    return False
def _coefs_ok(p):
    for m, c in p.t:
        if c < 0: return False
        for a, e in m:
            if not nonneg_atom(a) and not (e % 2 == 0 and e > 0): return False
    return True
def rejoin_sum(q, hi, lo):
    """q < 1 ? x : x + f(0) + sum over k < q-1 of f(k+1)   is   x + sum over k < q of f(k)"""
    for m, c in lo.t:
        for a, e in m:
            d = adata(a)
            if d[0] != 'sum' or e != 1 or not isinstance(d[3], Poly) or d[1] != psub(q, ONE): continue
            co = sym._mk({tuple(x for x in m if x[0] != a): c})
            f0 = subst(d[3], {d[2]: const(-1)})
            if isinstance(f0, Poly) and psub(lo, pmul(co, padd(avar(a), f0))) == hi:
                nk = atom('k', 'rejoin'); w = vsum(q, nk, subst(d[3], {d[2]: psub(avar(nk), ONE)}))
                if isinstance(w, Poly): return padd(hi, pmul(co, w))
    return None
def care(f, g):
    """f wherever g holds; tests that g decides are dropped"""
    memo = {}
    def rec(f, g):
        if g is False: return None
        if g is True or not isinstance(f, Node): return f
        k = (f, g)
        if k in memo: return memo[k]
        if isinstance(g, Node) and g.c < f.c: r = rec(f, bor(g.hi, g.lo))
        else:
            h, l = rec(f.hi, sym.cof(g, f.c, 1)), rec(f.lo, sym.cof(g, f.c, 0))
            r = l if h is None else h if l is None or h == l else sym.node(f.c, h, l)
        memo[k] = r
        return r
    r = rec(f, g)
    return f if r is None else r
def exsimp(v):
    """a loop was left at its first exit: there the exit condition holds"""
    if not isinstance(v, Node): return v
    seen = set(); st = [v]; ex = set()
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x in seen: continue
        seen.add(x); st += [x.hi, x.lo]
        if adata(x.c)[0] == 'Bexists': ex.add(x.c)
    for a in sorted(ex):
        d = adata(a)
        if len(d) != 4: continue
        try: v = care(v, vite(node(a, True, False), subst(d[3], {d[2]: A('first', *d[1:])}), True))
        except sym.TooBig: pass
    return v
def eqsimp(v):
    """where a condition says that a loaded value equals something, use that something"""
    if not isinstance(v, Node): return v
    d = adata(v.c); hi = v.hi
    if d[0] == 'eq' and isinstance(d[1], Poly) and not d[3]:
        for m, c in d[1].t:
            if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and adata(m[0][0])[0] == 'ld':
                rest = psub(d[1], pscale(avar(m[0][0]), c))
                if m[0][0] not in fv(rest): hi = subst(hi, {m[0][0]: pscale(psub(const(d[2]), rest), c)})
                break
    hi, lo = eqsimp(hi), eqsimp(v.lo)
    return hi if hi == lo else node(v.c, hi, lo)
def simp(v, seen=None):
    """drop integer comparisons decided by the bounds of loop variables and dimensions"""
    if not isinstance(v, Node): return v
    c = v.c; d = adata(c)
    if d[0] in ('lt', 'eq') and d[0] == 'lt':
        q, th = d[1], d[2]
        if isinstance(q, Poly):
            if prove_ge0(psub(const(th - 1), q)) and isint(q): return simp(v.hi)
            if prove_ge0(psub(q, const(th))): return simp(v.lo)
    if d[0] == 'eq' and isinstance(d[1], Poly):
        q, th = d[1], d[2]
        if prove_ge0(psub(q, const(th + 1))) or prove_ge0(psub(const(th - 1), q)): return simp(v.lo)
    hi, lo = simp(v.hi), simp(v.lo)
    if d[0] == 'lt' and d[2] == 1 and isinstance(d[1], Poly) and isinstance(hi, Poly) and isinstance(lo, Poly):
        w = rejoin_sum(d[1], hi, lo)
        if w is not None: return w
    return node(c, hi, lo) if (hi is not v.hi or lo is not v.lo) else v
def _decide_hook(d):
    if d[0] == 'lt' and not d[3]:
        q, th = d[1], d[2]
        if prove_ge0(psub(const(th - 1), q)): return True
        if prove_ge0(psub(q, const(th))): return False
    elif d[0] == 'eq' and isint(d[1]):
        q, th = d[1], d[2]
        if prove_ge0(psub(q, const(th + 1))) or prove_ge0(psub(const(th - 1), q)): return False
    return None
sym.DECIDE_HOOK.append(_decide_hook)
def isint(q):
    """integer-valued polynomial built from loop indices and integer arguments"""
    for m, c in q.t:
        if Fraction(c).denominator != 1: return False
        for a, e in m:
            d = adata(a)
            if e < 0: return False
            if not (d[0] in ('k', 'b', 'kk', 'rk') or (d[0] == 'arg' and d[2][0] == 'i') or d[0] in ('div', 'rem')): return False
    return True
def _mk_coeff(p, a):
    d = {}
    for m, c in p.t:
        dm = dict(m)
        if dm.get(a) == 1:
            del dm[a]; d[tuple(sorted(dm.items()))] = c
    return sym._mk(d)

# ------------------------------------------------------------------ function evaluation
class Fn:
    def __init__(s, name, jf, globs=None):
        s.name = name; s.j = jf; s.globs = globs or {}
        s.blocks = {}; s.order = []
        for b in jf['bbs']: s.blocks[b['id']] = b; s.order.append(b['id'])
        s.entry = s.order[0]
        s.succ = {}; s.pred = {b: [] for b in s.order}
        for b in s.order:
            t = s.blocks[b]['i'][-1]
            su = t.get('succ', [])
            if t['op'] == 'invoke': su = su[:1]
            s.succ[b] = list(su)
        # reachable
        seen = set(); st = [s.entry]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += s.succ[x]
        s.order = [b for b in s.order if b in seen]
        for b in s.order:
            for x in s.succ[b]:
                if b not in s.pred[x]: s.pred[x].append(b)
        s.rpo(); s.doms(); s.loops()
        s.inst = {}; s.iblk = {}
        for b in s.order:
            for i in s.blocks[b]['i']: s.inst[i['id']] = i; s.iblk[i['id']] = b
    def rpo(s):
        seen = set(); post = []
        def dfs(b):
            st = [(b, iter(s.succ[b]))]; seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(s.succ[y]))); break
                else:
                    post.append(x); st.pop()
        dfs(s.entry)
        s.rp = post[::-1]; s.rpi = {b: i for i, b in enumerate(s.rp)}
    def doms(s):
        idom = {s.entry: s.entry}; ch = True
        while ch:
            ch = False
            for b in s.rp[1:]:
                ps = [p for p in s.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while s.rpi[a] > s.rpi[c]: a = idom[a]
                        while s.rpi[c] > s.rpi[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        s.idom = idom
    def dominates(s, a, b):
        while True:
            if a == b: return True
            if b == s.entry: return False
            b = s.idom[b]
    def loops(s):
        s.loop = {}   # header -> set of blocks
        for b in s.order:
            for h in s.succ[b]:
                if s.dominates(h, b):
                    L = s.loop.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L: continue
                        L.add(x); st += s.pred[x]
                elif s.rpi[h] <= s.rpi[b]: raise Unsupported('irreducible')
        s.parent = {}
        for h, L in s.loop.items():
            best = None
            for h2, L2 in s.loop.items():
                if h2 != h and h in L2 and (best is None or len(L2) < len(s.loop[best])): best = h2
            s.parent[h] = best
        s.inner = {}
        for b in s.order:
            best = None
            for h, L in s.loop.items():
                if b in L and (best is None or len(L) < len(s.loop[best])): best = h
            s.inner[b] = best

UID = [0]
def uid():
    UID[0] += 1; return UID[0]

def top_ptr(x):
    """may x itself be an address (as opposed to a value read through one)?"""
    if isinstance(x, Node): return top_ptr(x.hi) or top_ptr(x.lo)
    return isinstance(x, Poly) and any(a in PTR_ATOMS for m, c in x.t for a, _ in m)
class Summ:
    def __init__(s, fn, argnames=None, opts=None):
        s.f = fn; s.val = {}; s.opts = opts or {}
        s.argn = argnames
        s.notes = []
        s.calln = {}
        for i, a in enumerate(fn.j['args']):
            nm = (argnames[i] if argnames and i < len(argnames) else None) or a['name'] or 'a%d' % i
            nm = re.sub(r'\.\d+$', '', nm)
            if a['t'] == 'ptr': v = avar(ptr_atom('arg', nm, 'ptr'))
            elif a['t'] == 'i1': v = s.opts['args'][nm] if nm in s.opts.get('args', {}) else bvar('arg', nm, 'i1')
            else: v = A('arg', nm, a['t'])
            s.val[a['id']] = v
    # -------------------------------------------------- operands
    def op(s, o, ty=None):
        k = o['k']
        if k == 'v':
            if o['v'] not in s.val: raise Unsupported('value not available')
            return s.val[o['v']]
        if k == 'int':
            if o['w'] == 1: return o['v'] != '0'
            return const(int(o['v']))
        if k == 'fp':
            if 'inf' in o['v'] or 'nan' in o['v']: return A('fpc', o['v'])
            return const(Fraction(float.fromhex(o['v'])))
        if k == 'null': return ZERO
        if k == 'undef': return A('undef')
        if k == 'global': return avar(ptr_atom('global', o['v']))
        if k == 'func': return avar(ptr_atom('func', o['v']))
        if k == 'cgep':
            g = o['v']; p = s.op(g['base'])
            return vapply(lambda q: padd(q, const(g['off'])), p)
        if k == 'zero': return A('zeroinit')
        if k == 'cexpr':
            if o['op'] in ('ptrtoint', 'inttoptr', 'bitcast'): return s.op(o['a'][0])
        return A('opaque', json.dumps(o, sort_keys=True)[:200])
    # -------------------------------------------------- memory lookup
    def load(s, mem, addr, ty):
        return vapply(lambda p: s.load1(mem, p, ty), addr)
    def load1(s, mem, p, ty):
        sz = tysz(ty)
        b = base_of(p)
        if b is not None and adata(b)[0] == 'global':
            g = s.globs_const(adata(b)[1], psub(p, avar(b)), ty)
            if g is not None: return g
        ver = []
        res = None
        log = mem.log
        for e in reversed(log):
            if e.kind == 'call':
                if s.call_may_write(e, b): ver.append(e); break
                continue
            if e.kind == 'loopin':
                if e.extra[1] is None or b is None or any(w == b and (o is None or not within(p, b) or (psub(p, avar(b)).const() < o + z and o < psub(p, avar(b)).const() + sz)) for w, o, z in e.extra[1]):
                    ver.append(e); break
                continue
            # store
            r = s.alias(e, p, sz, b)
            if r == 'no': continue
            if isinstance(r, tuple):      # must alias, value
                v = r[1]
                if e.guard is True:
                    res = v
                else:
                    # value under guard, else older
                    older = s.load1(Mem(log[:log.index(e)]), p, ty)
                    res = vite(subst(e.guard, r[2]) if r[2] else e.guard, v, older)
                if not ver: return res
                ver.append(e); res = None; break
            ver.append(e); s.nver += 1
        vt = 0 if not ver else tuple(s.ekey(e) for e in ver)
        if ty == 'ptr': return avar(ptr_atom('ld', p, ty, vt))
        if ty == 'i1': return bvar('ld', p, ty, vt)
        return A('ld', p, ty, vt)
    def ekey(s, e):
        if e.kind == 'loopin': return ('loopin', e.extra[0])
        if e.kind == 'call': return ('call', e.addr, e.val, e.guard, e.doms)
        return canon_eff(e).key()
    def globs_const(s, g, off, ty):
        G = s.f.globs.get(g)
        if G is None or not off.isconst(): return None
        o = int(off.const()); init = G['init']
        def at(init, o):
            if init['k'] == 'seq':
                es = TYPESZ.get(init['v'][0].get('t'), None)
                if init['v'][0]['k'] == 'int': es = init['v'][0]['w'] // 8
                if not es: return None
                i, r = divmod(o, es)
                return init['v'][i] if r == 0 and 0 <= i < len(init['v']) else None
            if init['k'] in ('int', 'fp') and o == 0: return init
            return None
        r = at(init, o)
        if r is None: return None
        if r['k'] == 'int' and ty.startswith('i') and int(ty[1:]) == r['w']: return s.op(r)
        if r['k'] == 'fp' and ty == r['t']: return s.op(r)
        return None
    def writes(s, e):
        """(object, offset, size) the effect writes; offset None: anywhere in the object; None: unknown"""
        if e.kind == 'call':
            if (e.extra or {}).get('ro') or e.addr in RECORDERS: return set()
            bs = [base_of(x) if isinstance(x, Poly) else None for x in outargs(e)] if argonly(e) else [None]
            return None if None in bs else {(b, None, None) for b in bs}
        b = base_of(e.addr) if not isinstance(e.addr, Node) else None
        if b is None: return None
        return {(b, psub(e.addr, avar(b)).const(), tysz(e.ty))} if within(e.addr, b) else {(b, None, None)}
    def call_may_write(s, e, b):
        if e.extra and e.extra.get('ro'): return False
        if e.addr in RECORDERS: return False      # the probes' recorders: ordered, but they change nothing
        if b is None: return True
        d = adata(b)
        if argonly(e):      # writes only through its pointer arguments
            bs = [base_of(x) if isinstance(x, Poly) else None for x in outargs(e)]
            if all(x is not None for x in bs) and all(x != b and s.distinct(x, b) for x in bs): return False
        if d[0] == 'alloca':
            return any(b in fv(x) for x in e.val) or b in s.escaped
        if d[0] == 'func': return False
        return True
    def alias(s, e, p, sz, b):
        """'no' | ('must', value, substitution) | 'may'"""
        if isinstance(e.addr, Node): 
            return 'may'
        eb = base_of(e.addr)
        if eb is None or b is None: 
            if (b is not None and adata(b)[0] == 'alloca' and b not in s.escaped) or (eb is not None and adata(eb)[0] == 'alloca' and eb not in s.escaped): return 'no'
            return 'may'
        if eb != b:
            return 'no' if s.distinct(eb, b) else 'may'
        d = psub(p, e.addr); esz = tysz(e.ty)
        if e.ty.startswith('region'): return 'may'
        if not e.doms:
            if d == ZERO: return ('must', e.val, None) if esz == sz else 'may'
            if d.isconst(): return 'no' if (d.const() >= esz or -d.const() >= sz) else 'may'
            if prove_ge0(psub(d, const(esz))) or prove_ge0(psub(pneg(d), const(sz))): return 'no'
            return 'may'
        # region store: solve for domain variables
        mp = s.solve(e, p)
        if mp is not None:
            if all(prove_ge0(mp[k]) and prove_ge0(psub(psub(t if isinstance(t, Poly) else ZERO, ONE), mp[k])) for k, t in e.doms) and esz == sz:
                return ('must', subst(e.val, mp), mp)
        # disjoint windows?
        lo, hi = window(e)
        if lo is not None:
            if prove_ge0(psub(psub(p, hi), const(esz))) or prove_ge0(psub(psub(lo, p), const(sz))): return 'no'
        return 'may'
    def distinct(s, a, b):
        return True     # operands live in distinct storage (assumption recorded in evidence)
    def solve(s, e, p):
        ks = [k for k, t in e.doms]
        d = psub(p, e.addr)
        if len(ks) == 1:
            k = ks[0]; co = _mk_coeff(e.addr, k)
            if not co.t: return None
            rest = padd(d, pmul(co, avar(k)))       # p - addr(k=0)
            if k in fv(rest): return None
            q = idiv(rest, co, 'exact')
            if any(adata(a)[0] == 'div' for m, c in q.t for a, _ in m): return None
            return {k: q}
        # several: try identity with the loop variables of the load (same shape)
        if len(ks) == 2:
            # match p = base + c0*i + c1*j using variables of p
            cand = [a for a in fv(p) if adata(a)[0] == 'k']
            import itertools
            for perm in itertools.permutations(cand, 2):
                mp = {ks[0]: avar(perm[0]), ks[1]: avar(perm[1])}
                if subst(e.addr, mp) == p: return mp
        return None
    # -------------------------------------------------- main
    nver = 0
    def run(s):
        s.escaped = s.find_escaped()
        mem, effs, exits = s.scope(None, Mem(), None)
        ret = None
        rets = exits['ret']
        v = None
        for cond, val in rets:
            v = val if v is None else vite(cond, val, v)
        return {'ret': v, 'eff': effs, 'notes': s.notes}
    def find_escaped(s):
        """allocas whose address is passed to a call or stored"""
        esc = {}; der = {}; pts = {}; U = (None, None)   # der: (alloca, byte offset or None) a pointer value may be (U: something else); pts: what is stored at (alloca, offset)
        def g(o): return der.get(o['v'], frozenset([U])) if o['k'] == 'v' else frozenset([U])
        def held(x):
            if x[0] is None: return set()
            if x[1] is None: return set().union(*[v for k, v in pts.items() if k[0] == x[0]])
            return pts.get(x, set()) | pts.get((x[0], None), set())
        def B(xs): return frozenset(x for x, o in xs if x is not None)
        out = []
        for rnd in range(20):
            old = (dict(der), {k: set(v) for k, v in pts.items()}); out = []
            for b in s.f.rp:
                for i in s.f.blocks[b]['i']:
                    if i['op'] == 'alloca': der[i['id']] = frozenset([(i['id'], 0)])
                    elif i['op'] == 'getelementptr':
                        ge = i.get('gep')
                        der[i['id']] = frozenset((x, o + ge['off'] if ge and o is not None and not ge['var'] else None) if x is not None else U for x, o in g(ge['base'] if ge else i['a'][0]))
                    elif i['op'] in ('phi', 'select', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'add', 'sub', 'insertvalue', 'extractvalue', 'or', 'and'):
                        u = set()
                        for o in i['a']:
                            if isinstance(o, list): o = o[0]
                            if o['k'] == 'v' and (i['op'] != 'phi' or o['v'] in der): u |= g(o)
                            elif o['k'] != 'v': u.add(U)
                        der[i['id']] = frozenset(u) if i['op'] in ('phi', 'select', 'bitcast', 'freeze') else frozenset((x, None) if x is not None else U for x, o in u)
                    elif i['op'] == 'load':
                        u = {U}
                        for x in g(i['a'][0]): u |= held(x)
                        der[i['id']] = frozenset(u)
                    elif i['op'] == 'store':
                        v = g(i['a'][0]) - {U}
                        if v:
                            for x in g(i['a'][1]):
                                if x[0] is None: out.append(B(v))
                                else: pts.setdefault(x, set()).update(v)
                    elif i['op'] in ('call', 'invoke'):
                        cn = i.get('cname') or ''
                        if cn.startswith('llvm.mem') and not cn.startswith('llvm.memset') and len(i['a']) > 1:
                            v = set()
                            for x in g(i['a'][1]): v |= held((x[0], None))
                            if v:
                                for x in g(i['a'][0]):
                                    if x[0] is not None: pts.setdefault((x[0], None), set()).update(v)
                                    else: out.append(B(v))
                        if cn.startswith('llvm.'): continue
                        u = {U}
                        for o in i['a']: out.append(B(g(o))); u |= g(o)
                        if not str(i.get('t', '')).startswith('void'): der[i['id']] = frozenset(u)
                    elif i['op'] == 'ret' and i['a']: out.append(B(g(i['a'][0])))
            if old == (der, pts): break
        else: out.append(frozenset(x for v in der.values() for x in B(v)))
        def add(xs):
            for x in sorted(xs):
                if x not in esc: esc[x] = len(esc); add(B(held((x, None))))
        for v in out: add(v)
        s.arank = esc
        return {s.alloca_atom(x) for x in esc}
    def alloca_atom(s, x):
        """locals whose address leaves the function are named by the order in which they do, so that both sides of a comparison agree on them"""
        return ptr_atom('alloca', '', s.arank[x]) if x in s.arank else ptr_atom('alloca', s.f.name, x)

    def scope(s, header, mem0, entry_override):
        """evaluate the blocks of one scope (function body or one loop iteration).
        returns (mem at exits merged, effects, exits)"""
        f = s.f
        inscope = (lambda b: True) if header is None else (lambda b: b in f.loop[header])
        start = f.entry if header is None else header
        nodes = [b for b in f.rp if inscope(b) and (f.inner[b] == header or (b in f.loop and f.parent[b] == header and b != header))]
        edges = {}      # block -> list of (pred node/edge key, cond, mem, predblock)
        edges[start] = [(True, mem0, None)]
        effs = []
        exits = {'ret': [], 'out': [], 'latch': []}
        reach = {}
        s_effs_guard = {}
        for b in nodes:
            inc = edges.get(b)
            if not inc: continue
            r = False
            for c, m, p in inc: r = bor(r, c)
            reach[b] = r
            if r is False: continue
            mem = s.merge([(c, m) for c, m, p in inc], r)
            if b in f.loop and b != header:
                m2, le, outs = s.loopeval(b, inc, mem, r)
                for e in le:
                    effs.append(Eff(e.kind, e.doms, band(r, e.guard), e.addr, e.val, e.ty, e.loc, e.extra))
                for (pb, tgt, cond) in outs:
                    s.edge(header, edges, exits, pb, tgt, band(r, cond), m2, inscope)
                continue
            # phis
            if b != start or header is None:
                s.phis(b, inc, r)
            mem, done = s.block(b, r, mem, effs, edges, exits, header, inscope)
        return mem0, effs, exits
    def edge(s, header, edges, exits, pb, tgt, cond, mem, inscope):
        if cond is False: return
        if header is not None and tgt == header:
            exits['latch'].append((cond, mem, pb)); return
        if not inscope(tgt):
            exits['out'].append((cond, mem, pb, tgt)); return
        edges.setdefault(tgt, []).append((cond, mem, pb))
    def merge(s, l, r):
        if len(l) == 1: return l[0][1]
        # longest common prefix, then guard the remainder
        logs = [m.log for c, m in l]
        n = 0
        mn = min(len(x) for x in logs)
        while n < mn and all(x[n] is logs[0][n] for x in logs): n += 1
        out = list(logs[0][:n])
        have = {id(e) for e in out}
        for (c, m) in l:
            for e in m.log[n:]:
                if id(e) in have: continue
                have.add(id(e)); out.append(e)      # the very same object: whatever was stored on several paths counts once, in its place
        return Mem(tuple(out))
    def phis(s, b, inc, r):
        new = {}
        for i in s.f.blocks[b]['i']:
            if i['op'] != 'phi': break
            v = None
            src = {pb: o for o, pb in i['a']}
            for c, m, p in inc:
                if p not in src: continue
                x = s.op(src[p])
                v = x if v is None else vite(c, x, v)
            new[i['id']] = v
        s.val.update(new)
    def block(s, b, r, mem, effs, edges, exits, header, inscope):
        f = s.f
        for i in f.blocks[b]['i']:
            op = i['op']
            if op == 'phi': continue
            if op == 'store':
                addr = s.op(i['a'][1]); val = s.op(i['a'][0])
                ty = i['vt']
                if isinstance(val, bool) or (isinstance(val, Node) and _isbool(val)):
                    pass
                mem = s.do_store(mem, effs, r, addr, val, ty, i)
                continue
            if op == 'load':
                s.val[i['id']] = s.load(mem, s.op(i['a'][0]), i['t']); continue
            if op in ('call', 'invoke'):
                mem = s.call(i, r, mem, effs)
                if op == 'invoke': s.edge(header, edges, exits, b, i['succ'][0], r, mem, inscope)
                continue
            if op == 'ret':
                v = s.op(i['a'][0]) if i['a'] else None
                exits['ret'].append((r, v)); exits.setdefault('retmem', []).append((r, mem)); continue
            if op == 'br':
                if len(i['succ']) == 1: s.edge(header, edges, exits, b, i['succ'][0], r, mem, inscope)
                else:
                    c = s.op(i['a'][0])
                    s.edge(header, edges, exits, b, i['succ'][0], band(r, c), mem, inscope)
                    s.edge(header, edges, exits, b, i['succ'][1], band(r, bnot(c)), mem, inscope)
                continue
            if op == 'switch':
                x = s.op(i['a'][0]); rest = r
                for cv, t in i['cases']:
                    c = vapply(lambda p: p == bool(int(cv) & 1) if isinstance(p, bool) else c_eq0(psub(p, const(int(cv))), False), x)
                    s.edge(header, edges, exits, b, t, band(rest, c), mem, inscope); rest = band(rest, bnot(c))
                s.edge(header, edges, exits, b, i['succ'][0], rest, mem, inscope)
                continue
            if op == 'unreachable': continue
            s.val[i['id']] = s.simple(i, mem)
        return mem, None
    def do_store(s, mem, effs, r, addr, val, ty, i):
        def leafs(a, g):
            if isinstance(a, Node):
                leafs(a.hi, band(g, node(a.c, True, False))); leafs(a.lo, band(g, node(a.c, False, True)))
            elif g is not False:
                out.append((a, g))
        out = []; leafs(addr, r)
        for a, g in out:
            e = Eff('store', (), g, a, val, ty, i['loc']); effs.append(e); mem = mem.add(e)
        return mem
    def simple(s, i, mem):
        op = i['op']; a = i['a']; t = i['t']
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem') and t == 'i1':
            x, y = s.op(a[0]), s.op(a[1])
            if op == 'and' or op == 'mul': return band(x, y)
            if op == 'or': return bor(x, y)
            if op in ('xor', 'add', 'sub'): return vite(x, bnot(y), y)
        if op == 'add': return vapply(padd, s.op(a[0]), s.op(a[1]))
        if op == 'sub': return vapply(psub, s.op(a[0]), s.op(a[1]))
        if op == 'mul':
            w = tysz(t)
            def mul(x, y):
                if x.isconst() or y.isconst() or w >= 8: return pmul(x, y)
                return A('t32', pmul(x, y))
            return vapply(mul, s.op(a[0]), s.op(a[1]))
        if op == 'shl':
            x, y = s.op(a[0]), s.op(a[1])
            return vapply(lambda x, y: shlc(x, int(y.const()), t) if y.isconst() else A('shl', x, y), x, y)
        if op in ('ashr', 'lshr'):
            return vapply(lambda x, y: idiv(x, const(2 ** int(y.const())), 'floor') if y.isconst() else A(op, x, y), s.op(a[0]), s.op(a[1]))
        if op in ('sdiv', 'udiv'): return vapply(lambda x, y: idiv(x, y, 'trunc'), s.op(a[0]), s.op(a[1]))
        if op in ('srem', 'urem'):
            def rem(x, y):
                q = idiv(x, y, 'trunc')
                return psub(x, pmul(q, y)) 
            return vapply(rem, s.op(a[0]), s.op(a[1]))
        if op in ('and', 'or', 'xor'):
            return vapply(lambda x, y: bitop(op, x, y), s.op(a[0]), s.op(a[1]))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            x = s.op(a[0])
            if op == 'fneg': return vapply(pneg, x)
            y = s.op(a[1])
            return vapply({'fadd': padd, 'fsub': psub, 'fmul': pmul, 'fdiv': pdiv}[op], x, y)
        if op in ('sext', 'zext'):
            x = s.op(a[0])
            if i['st'] == 'i1': return vite(x, ONE if op == 'zext' else const(-1), ZERO)
            if op == 'zext' and i['st'] in ('i8', 'i16'): return vapply(lambda p: const(int(p.const()) % 2 ** int(i['st'][1:])) if p.isconst() else p, x)
            return x
        if op == 'trunc':
            x = s.op(a[0])
            if t == 'i1': return vapply(lambda p: (int(p.const()) & 1 == 1) if p.isconst() else c_tr1(p), x)
            if t in ('i8', 'i16'):
                w = 2 ** int(t[1:])
                return vapply(lambda p: const(int(p.const()) % w) if p.isconst() else p if all(isnarrow(a, t) for a in fv(p)) else A('tn', t, p), x)
            return vapply(lambda p: t32(low32(p)), x)
        if op in ('fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            if op == 'bitcast' and i['st'] != t: return vapply(lambda p: A('fn', 'bitcast', p, i['st'], t), s.op(a[0]))
            return s.op(a[0])
        if op in ('sitofp', 'uitofp'):
            x = s.op(a[0])
            if i['st'] == 'i1': return vite(x, ONE if op == 'uitofp' else const(-1), ZERO)
            return x
        if op in ('fptosi', 'fptoui'): return fnv('trunc', s.op(a[0]))
        if op == 'icmp': return simp(s.icmp(i['pred'], s.op(a[0]), s.op(a[1])))
        if op == 'fcmp': return s.fcmp(i['pred'], s.op(a[0]), s.op(a[1]))
        if op == 'select': return vite(s.op(a[0]), s.op(a[1]), s.op(a[2]))
        if op == 'getelementptr':
            g = i['gep']
            if g is None: raise Unsupported('gep')
            p = vapply(lambda q: padd(q, const(g['off'])), s.op(g['base']))
            for o, sc in g['var']: p = vapply(lambda q, x: padd(q, x, sc), p, s.op(o))
            return p
        if op == 'alloca': return avar(s.alloca_atom(i['id']))
        if op == 'extractvalue':
            x = s.op(a[0])
            for ix in i['idx']: x = vapply(lambda v: v[ix] if isinstance(v, tuple) and not isinstance(v, Poly) else A('ev', v, ix), x)
            return x
        if op == 'insertvalue':
            x, v = s.op(a[0]), s.op(a[1]); ix = i['idx']
            if len(ix) == 1:
                def ins(x):
                    l = list(x) if isinstance(x, tuple) else []
                    while len(l) <= ix[0]: l.append(A('undef'))
                    l[ix[0]] = v
                    return tuple(l)
                return ins(x if isinstance(x, tuple) else ())
            return A('iv', str(ix), x, v)
        if op in ('landingpad', 'resume', 'extractelement', 'insertelement', 'shufflevector', 'atomicrmw', 'cmpxchg', 'fence', 'va_arg', 'frem'):
            if t == 'void': return None
            return A('opq', op, s.f.name, i['id'])
        raise Unsupported(op)
    def icmp(s, pred, x, y):
        if isinstance(x, bool) or isinstance(y, bool) or (isinstance(x, Node) and _isbool(x)):
            e = vite(x, y, bnot(y))
            return e if pred == 'eq' else bnot(e) if pred == 'ne' else A('icmpb')
        def cmp(a, b):
            if not isinstance(a, Poly) or not isinstance(b, Poly): raise Unsupported('cmp')
            d = psub(a, b)
            if pred in ('eq', 'ne'):
                # pointer from alloc/arg vs null stays symbolic
                c = eq0(d); return c if pred == 'eq' else bnot(c)
            p = pred.lstrip('u') if pred[0] == 'u' else pred[1:]
            p = pred[1:]
            if pred[0] == 'u' and not s.unsigned_ok(a, b):
                if p == 'lt': return bvar('ult', a, b)
                if p == 'gt': return bvar('ult', b, a)
                if p == 'le': return bnot(bvar('ult', b, a))
                return bnot(bvar('ult', a, b))
            if p == 'lt': return c_lt0(d, False)
            if p == 'gt': return c_lt0(pneg(d), False)
            if p == 'le': return bnot(c_lt0(pneg(d), False))
            return bnot(c_lt0(d, False))
        return vapply(cmp, x, y)
    def unsigned_ok(s, a, b):
        def nn(p):
            return base_of(p) is not None or prove_ge0(p)
        return nn(a) and nn(b)
    def fcmp(s, pred, x, y):
        def cmp(a, b):
            p = pred[1:]
            if pred in ('ord', 'uno'): 
                # unordered: one of the operands is a NaN; the sign of an operand does not matter, constants never are
                ops = {min(q, pneg(q), key=lambda z: z.t) for q in (a, b) if not q.isconst() and not (len(q.t) == 1 and len(q.t[0][0]) == 1 and adata(q.t[0][0][0][0])[0] == 'fpc' and 'inf' in adata(q.t[0][0][0][0])[1])}
                v = False
                for q in sorted(ops, key=lambda z: z.t): v = bor(v, bvar('nan', q))
                if v is False: return pred == 'ord'
                return v if pred == 'uno' else bnot(v)
            if pred in ('true', 'false'): return pred == 'true'
            d = psub(a, b)
            for q, o_ in ((a, b), (b, a)):      # against infinity the ordered/unordered distinction is the point of the comparison
                if isinf(q) and not isinf(o_):
                    n = nanof(o_)
                    r_ = cmpr(p, d)
                    return band(bnot(n), r_) if pred[0] == 'o' else bor(n, r_)
            return cmpr(p, d)
        def isinf(q): return len(q.t) == 1 and len(q.t[0][0]) == 1 and adata(q.t[0][0][0][0])[0] == 'fpc' and 'inf' in adata(q.t[0][0][0][0])[1]
        def nanof(q): return bvar('nan', min(q, pneg(q), key=lambda z: z.t)) if not q.isconst() else False
        def cmpr(p, d):
            R = not isint(d)
            if p in ('lt', 'gt', 'le', 'ge') and d.t and not d.isconst() and sum(len(m) for m, c in d.t) > 3:
                sg = 1 if prove_ge0(d) else (-1 if prove_ge0(pneg(d)) else 0)
                if sg:
                    if p in (('lt', 'ge') if sg > 0 else ('gt', 'le')): return p in ('ge', 'le')
                    e = c_eq0(d, R); return bnot(e) if p in ('lt', 'gt') else e
            if p == 'eq': return c_eq0(d, R)
            if p == 'ne': return bnot(c_eq0(d, R))
            if p == 'lt': return c_lt0(d, R)
            if p == 'gt': return c_lt0(pneg(d), R)
            if p == 'le': return bnot(c_lt0(pneg(d), R))
            return bnot(c_lt0(d, R))
        return vapply(cmp, x, y)
    # -------------------------------------------------- calls
    def call(s, i, r, mem, effs):
        nm = i.get('cname') or '<indirect>'
        t = i['t']
        args = i['a']
        if nm.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stacksave', 'llvm.stackrestore')): 
            return mem
        base = None
        m = re.match(r'llvm\.([a-z0-9_]+)\.', nm)
        if nm.startswith('llvm.mem'):
            return s.memop(nm, i, r, mem, effs)
        if m: base = m.group(1)
        elif nm.rstrip('f') in MATH1 or nm in MATH1 or nm.rstrip('f') in ('log1p', 'expm1', 'pow', 'fabs', 'fmax', 'fmin', 'copysign', 'fmod'):
            base = nm if nm in MATH1 or nm in ('log1p', 'expm1', 'pow', 'fabs', 'fmax', 'fmin', 'copysign', 'fmod') else nm[:-1]
        if base:
            xs = [s.op(a) for a in args if a['k'] != 'md']
            v = s.intrin(base, xs)
            if v is not None: s.val[i['id']] = v; return mem
        h = s.opts.get('calls', {}).get(i.get('cdem') or nm) or s.opts.get('calls', {}).get(nm)
        xs = tuple(s.op(a) for a in args)
        if h:
            return h(s, i, r, mem, effs, xs)
        if nm.startswith('_Z') and ('4nntl' in nm or '$_' in nm or 'vp_' in nm): raise Unsupported('a function of the tree is not inlined: ' + nm)
        if nm in ('ldiv', 'div', 'lldiv') and len(xs) == 2:
            q = vapply(lambda a, b: idiv(a, b, 'trunc'), xs[0], xs[1])
            s.val[i['id']] = (q, vapply(lambda a, b, c: psub(a, pmul(b, c)), xs[0], q, xs[1])); return mem
        if nm in FREEFN and len(xs) >= 1:
            if xs[0] == ZERO: return mem
            def leafs(v, g):
                if isinstance(v, Node):
                    leafs(v.hi, band(g, node(v.c, True, False))); leafs(v.lo, band(g, node(v.c, False, True)))
                elif v != ZERO:
                    b = base_of(v)
                    g2 = band(g, bnot(c_eq0(v, False)))
                    if g2 is False: return
                    effs.append(Eff('call', (), g2, 'free', (v,), 'void', i['loc'], {'ro': True, 'n': 0}))
            leafs(xs[0], r)
            return mem
        if nm in ('free', 'vp_afree', '_mm_free', '_ZdlPv', '_ZdaPv', '_ZdlPvm') and xs[0] == ZERO: return mem
        ro = bool(i.get('cro')) or nm in s.opts.get('ro', ()) or nm in ALLOCFN
        name = nm
        if nm == '<indirect>': name = ('ind', s.op(i['callee']))
        if t[:1] == 'i' and t != 'i1' and isinstance(name, str): INTCALL.add(name)
        if i.get('cpure') and nm.startswith('vp_') and t != 'void':      # a declared pure function of its arguments: a value, not an effect
            def pv(*a):
                d = ('call', name, a, 0)
                return avar(ptr_atom(*d)) if t == 'ptr' else (bvar(*d) if t == 'i1' else A(*d))
            s.val[i['id']] = vapply(pv, *xs) if xs else pv(); return mem
        if r is not True: xs = tuple(under(x, r) if isinstance(x, Node) else x for x in xs)
        cnt = s.calln.get((name, xs), 0); s.calln[(name, xs)] = cnt + 1
        e = Eff('call', (), r, name, xs, t, i['loc'], {'ro': ro, 'noret': i.get('noret'), 'n': cnt})
        effs.append(e)
        if not ro: mem = mem.add(e)
        if t != 'void':
            data = ('call', name, xs, cnt)
            if t == 'ptr': v = avar(ptr_atom(*data))
            elif t == 'i1': v = bvar(*data)
            else: v = A(*data)
            s.val[i['id']] = v
        return mem
    def memop(s, nm, i, r, mem, effs):
        dst = s.op(i['a'][0]); n = s.op(i['a'][2])
        k = ptr_loopvar = atom('k', 'm%d' % uid())
        if nm.startswith('llvm.memset'):
            val = s.op(i['a'][1])
            es = s.guess_es(n, dst)
            tc = vapply(lambda x: idiv(x, const(es), 'exact'), n)
            def bv(x):
                if x == ZERO: return ZERO
                return A('fn', 'splat', x, es) if es > 1 else x
            v = vapply(bv, val)
            ty = {4: 'float', 8: 'double', 1: 'i8'}.get(es, 'region')
            return s.region_store(mem, effs, r, dst, k, tc, es, v, ty, i)
        src = s.op(i['a'][1])
        es = s.guess_es(n, dst)
        tc = vapply(lambda x: idiv(x, const(es), 'exact'), n)
        ty = {4: 'float', 8: 'double', 1: 'i8'}.get(es, 'region')
        if isinstance(tc, Poly):
            LOOPBOUND[k] = tc
        v = s.load(mem, vapply(lambda p: padd(p, avar(k), es), src), ty)
        return s.region_store(mem, effs, r, dst, k, tc, es, v, ty, i)
    def guess_es(s, n, dst):
        def leafs(v):
            if isinstance(v, Node): yield from leafs(v.hi); yield from leafs(v.lo)
            else: yield v
        g = 8
        for p in leafs(n):
            for m, c in p.t:
                while g > 1 and c % g != 0: g //= 2
        pref = s.opts.get('es', 8)
        return min(g, pref) if g >= pref else g
    def region_store(s, mem, effs, r, dst, k, tc, es, v, ty, i):
        if isinstance(tc, Poly): LOOPBOUND[k] = tc
        def leafs(a, g):
            if isinstance(a, Node):
                leafs(a.hi, band(g, node(a.c, True, False))); leafs(a.lo, band(g, node(a.c, False, True)))
            elif g is not False: out.append((a, g))
        out = []; leafs(dst, r); v0 = v
        for a, g in out:
            v = under(v0, g)
            if tc == ONE:
                e = Eff('store', (), g, a, subst(v, {k: ZERO}), ty, i['loc'])
            else:
                e = Eff('store', ((k, tc),), g, padd(a, avar(k), es), v, ty, i['loc'])
                lf = lift(tc)
                if lf:
                    mp = {k: psub(avar(k), lf[1])}; LOOPBOUND[k] = lf[0]
                    e = Eff('store', ((k, lf[0]),), subst(g, mp), subst(e.addr, mp), subst(v, mp), ty, i['loc'])
            effs.append(e); mem = mem.add(e)
        return mem
    def intrin(s, b, xs):
        if b in ('fabs', 'abs'): 
            real = b == 'fabs'
            return vapply(lambda p: vite(c_lt0(p, real), pneg(p), p), xs[0])
        if b in ('smax', 'umax', 'fmax', 'maxnum', 'maximum'): 
            real = b not in ('smax', 'umax')
            return vapply(lambda p, q: vite(c_lt0(psub(p, q), real), q, p), xs[0], xs[1])
        if b in ('smin', 'umin', 'fmin', 'minnum', 'minimum'):
            real = b not in ('smin', 'umin')
            return vapply(lambda p, q: vite(c_lt0(psub(p, q), real), p, q), xs[0], xs[1])
        if b in ('fmuladd', 'fma'): return vapply(lambda x, y, z: padd(pmul(x, y), z), *xs)
        if b == 'copysign': return vapply(lambda p, q: vite(c_lt0(q, True), vite(c_lt0(p, True), p, pneg(p)), vite(c_lt0(p, True), pneg(p), p)), xs[0], xs[1])
        if b == 'pow':
            def pw(p, q):
                if q.isconst() and q.const().denominator == 1 and abs(q.const()) <= 8: return ppow(p, int(q.const()))
                if q == const(Fraction(1, 2)): return _fn('sqrt', p)
                return _fn('pow', p, q)
            return vapply(pw, xs[0], xs[1])
        if b in MATH1 or b in ('log1p', 'expm1'): return fnv(b, *xs[:1])
        if b == 'fmod': return fnv('fmod', *xs)
        if b in ('expect',): return xs[0]
        if b in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') : return None
        if b in ('ctpop', 'ctlz', 'cttz', 'bswap', 'fshl', 'fshr'): return fnv(b, *[x for x in xs if isinstance(x, (Poly, Node))][:1])
        if b == 'usub_sat' : return None
        return None
    # -------------------------------------------------- loops
    def loopeval(s, h, inc, mem, r):
        f = s.f; L = f.loop[h]
        phis = [i for i in f.blocks[h]['i'] if i['op'] == 'phi']
        init = {}
        for i in phis:
            src = {pb: o for o, pb in i['a']}
            v = None
            for c, m, p in inc:
                if p not in src: continue
                x = s.op(src[p]); v = x if v is None else vite(c, x, v)
            init[i['id']] = under(v, r)
        kv = atom('k', uid())
        K = avar(kv)
        lid = uid()
        ph = {}
        for i in phis:
            if i['t'] == 'ptr': a = ptr_atom('ph', lid, i['id'])
            else: a = atom('ph', lid, i['id'])
            ph[i['id']] = a
        known = {}      # phi id -> V (in terms of K)
        groups = None
        # which bases does the loop write?  first pass with everything clobbered
        wbases = None; membar = None
        saved_calln = dict(s.calln)
        rebound = False
        for rnd in range(14):
            nver0 = s.nver
            for i in phis:
                if i['id'] in known: s.val[i['id']] = known[i['id']]
                elif i['t'] == 'i1': s.val[i['id']] = node(ph[i['id']], True, False)
                else: s.val[i['id']] = avar(ph[i['id']])
            s.calln = dict(saved_calln)
            lmem = mem if wbases == set() else mem.add(Eff('loopin', (), True, None, None, '', None, (lid, None if wbases is None else frozenset(wbases))))
            _, effs, ex = s.scope(h, lmem, None)
            lat = {}
            for i in phis:
                src = {pb: o for o, pb in i['a']}
                v = None
                for c, m, p in ex['latch']:
                    x = s.op(src[p]); v = x if v is None else vite(c, x, v)
                # carried values matter only on the paths that go round again
                if isinstance(v, Node): ag = orall([c for c, m, p in ex["latch"]]); v = care(under(v, ag), ag)
                lat[i['id']] = under(v, r)
            nb = set()
            for e in effs:
                w = s.writes(e)
                if w is None: nb = None; break
                nb |= w
            changed = False
            if wbases is None and nb is None and rnd == 0 and any(e.kind == 'call' and e.addr in RECORDERS for e in effs):
                # what the loop writes may only be visible once it is known what it leaves alone: assume little, check, enlarge
                W = set()
                for _ in range(6):
                    s.calln = dict(saved_calln)
                    _, effs2, _ = s.scope(h, mem.add(Eff('loopin', (), True, None, None, '', None, (lid, frozenset(W)))), None)
                    nb = set()
                    for e in effs2:
                        w = s.writes(e)
                        if w is None: nb = None; break
                        nb |= w
                    if nb is None or nb <= W: break
                    W |= nb
                else: nb = None
                if nb is not None: nb = W
            if wbases is None and nb is not None: wbases = nb; changed = True
            phat = set(ph.values())
            for i in phis:
                pid = i['id']
                if pid in known: continue
                lv = lat[pid]; iv = init[pid]
                if lv is None: known[pid] = iv; changed = True; continue
                if lv == iv and not (fv(lv) & phat) and kv not in fv(lv): known[pid] = iv; changed = True; continue
                p = avar(ph[pid]) if i['t'] != 'i1' else None
                if p is not None and lv == p: known[pid] = iv; changed = True; continue
                if p is not None and isinstance(lv, Poly):
                    d = psub(lv, p)
                    if not (fv(d) & phat) and kv not in fv(d) and not s.loopdep(d, lid):
                        known[pid] = vapply(lambda x: padd(x, pmul(d, K)), iv); changed = True; continue
            if changed: continue
            # latch value independent of placeholders: previous-iteration value
            for i in phis:
                pid = i['id']
                if pid in known: continue
                lv = lat[pid]
                if not (fv(lv) & phat) and not s.loopdep(lv, lid):
                    prev = subst(lv, {kv: psub(K, ONE)})
                    known[pid] = vite(c_eq0(K, False), init[pid], prev); changed = True
            if changed: continue
            # ---- trip count
            if rebound:
                nx = ex['out']
                if len(nx) == len(outs): outs = [nx[j] if j in others and nx[j][2:] == outs[j][2:] else outs[j] for j in range(len(outs))]
                break
            outs = ex['out']
            tc, count_out, others = s.tripcount(h, outs, kv, ph, lid, r); tc = simp(tc)
            LOOPBOUND[kv] = tc
            # loads that could not be matched with earlier stores may be once the range of the iteration index is known
            if s.nver != nver0 and not rebound: rebound = True; continue
            break
        else:
          if not rebound:
            outs = ex['out']
            tc, count_out, others = s.tripcount(h, outs, kv, ph, lid, r); tc = simp(tc)
            LOOPBOUND[kv] = tc
        phat = set(ph.values())
        unknown = [i for i in phis if i['id'] not in known]
        # sums
        final = {}
        rest = []
        for i in unknown:
            pid = i['id']; p = avar(ph[pid]) if i['t'] != 'i1' else None
            lv = lat[pid]
            if p is not None:
                d = vapply(lambda x: psub(x, p), lv)
                if not (fv(d) & phat) and not s.loopdep(d, lid) and not others:
                    final[pid] = ('sum', d); continue
            rest.append(i)
        if rest:
            pl = s.peel(h, phis, init, mem, tc, r, saved_calln)
            if pl is not None: return pl
            recs = s.recatoms(rest, init, lat, ph, kv, tc, lid, final, others)
        else: recs = {}
        def at_exit(x, kexit, which):
            """value of x (an expression over kv and ph) when leaving with iteration index kexit"""
            mp = {kv: kexit}
            for pid, (kind, d) in final.items():
                bound = kexit
                mp[ph[pid]] = vapply(lambda iv, sm: padd(iv, sm), init[pid], absorb_sum(bound, kv, d))
            for pid, g in recs.items():
                mp[ph[pid]] = g(kexit)
            return mp
        # in-loop memory effects
        le = []
        memout = mem
        inner_mp = {}
        for pid, (kind, d) in final.items():
            inner_mp[ph[pid]] = vapply(lambda iv, sm: padd(iv, sm), init[pid], absorb_sum(K, kv, d))
        for pid, g in recs.items(): inner_mp[ph[pid]] = g(K)
        guard_in = True
        dom = (kv, tc)
        pend = []
        topc = None      # the counting exit is tested before the body: its condition is false wherever the body runs
        if count_out is not None:
            cond_, m_, pb_, tgt_ = outs[count_out[0]]
            if pb_ == h and s.header_exit_is_top(h, pb_) and isinstance(cond_, Node) and cond_.hi in (True, False) and cond_.lo in (True, False): topc = (cond_.c, cond_.hi is False)
        for e in effs:
            if topc: e = Eff(e.kind, e.doms, restrict(e.guard, *topc) if isinstance(e.guard, Node) else e.guard, e.addr, e.val, e.ty, e.loc, e.extra)
            e2 = esubst(e, inner_mp) if (inner_mp and (fv(e.val) | fv(e.addr if e.kind == 'store' else ZERO) | fv(e.guard)) & phat) else e
            pend.append(e2)
        again = False
        for c, m, p in ex['latch']: again = bor(again, c)
        if isinstance(again, Node) and inner_mp and fv(again) & phat: again = subst(again, inner_mp)
        pend = s.resolve_loopin(pend, lid, mem, kv, tc, again)
        if others and pend and not (isinstance(tc, Poly) and any(adata(a)[0] == 'inf' for a in fv(tc))):
            # an iteration runs only if no earlier one left the loop
            bc = False
            for idx in others: bc = bor(bc, outs[idx][0])
            bc = subst(bc, inner_mp) if inner_mp else bc
            bc = s.fix_loopin(bc, lid, mem, [], kv)
            run = bnot(exists_first(bc, kv, K)[0])
            pend = [Eff(e.kind, e.doms, band(run, e.guard), e.addr, e.val, e.ty, e.loc, e.extra) for e in pend]
        le = s.close_effects(pend, kv, tc, lid, mem)
        le = [e if r is True else Eff(e.kind, e.doms, band(r, e.guard), e.addr, e.val, e.ty, e.loc, e.extra) for e in le]
        for e in le: memout = memout.add(e)
        # exits
        res = []
        live = s.liveout(h)
        newvals = {}
        exits_info = []
        for idx, (cond, m, pb, tgt) in enumerate(outs):
            if count_out is not None and idx == count_out[0]:
                exits_info.append((idx, pb, tgt, None, count_out[1]))
            else: exits_info.append((idx, pb, tgt, cond, None))
        brk = False
        if others:
            # break exits: exists an iteration k<tc with some break condition
            bc = False
            for idx in others: bc = bor(bc, outs[idx][0])
            bc = subst(bc, inner_mp) if inner_mp else bc
            bc = s.fix_loopin(bc, lid, mem, [], kv)
            brk, first = exists_first(bc, kv, tc)
        # values
        for vid in live:
            x0 = s.val.get(vid)
            if x0 is None: continue
            vals = []
            for (idx, pb, tgt, cond, kex) in exits_info:
                if cond is None: ke = kex; 
                else: ke = first
                mp = at_exit(x0, ke, idx)
                x1 = under(x0, outs[idx][0]) if isinstance(x0, Node) else x0
                x = subst(x1, mp) if isinstance(x1, (Poly, Node, tuple)) else x1
                x = s.fix_loopin_out(x, lid, memout, mem)
                vals.append((idx, x))
            newvals[vid] = vals
        exitconds = {}
        if not others:
            for (idx, pb, tgt, cond, kex) in exits_info: exitconds[idx] = True if len(exits_info) == 1 else None
        if others:
            normal = bnot(brk)
            remaining = brk
            for (idx, pb, tgt, cond, kex) in exits_info:
                if cond is None: exitconds[idx] = normal
                else:
                    if idx == [e[0] for e in exits_info if e[3] is not None][-1]: c = remaining
                    else:
                        cc = subst(cond, inner_mp) if inner_mp else cond
                        cc = s.fix_loopin(cc, lid, mem, [], kv)
                        c = band(remaining, subst(cc, {kv: first}))
                    exitconds[idx] = c; remaining = band(remaining, bnot(c))
        for vid, vals in newvals.items():
            v = None
            for idx, x in vals:
                v = x if v is None else vite(exitconds.get(idx) if exitconds.get(idx) is not None else True, x, v)
            s.val[vid] = v
        for (idx, pb, tgt, cond, kex) in exits_info:
            c = exitconds[idx]
            if c is None: c = bvar('exit', lid, idx)
            res.append((pb, tgt, c))
        # LCSSA phis in exit blocks reference (value, pb): handled by phis() through s.val of the value
        s.exit_phi_fix = getattr(s, 'exit_phi_fix', {})
        return memout, le, res
    def peel(s, h, phis, init, mem, tc, r, calln):
        """a loop with a small constant number of iterations whose carried values have no closed form: evaluate it iteration by iteration.
        Only when every iteration decides by itself whether another one follows."""
        n = tc.const() if isinstance(tc, Poly) and tc.isconst() else None
        if n is None or n > 16: return None
        saved = (dict(s.val), dict(s.calln))
        s.calln = dict(calln)
        cur = dict(init); le = []
        for k in range(int(n) + 1):
            s.val.update(cur)
            _, effs, ex = s.scope(h, mem, None)
            le += effs
            go = False
            for c, m, p in ex['latch']: go = bor(go, c)
            if go is False:
                for cond, m, pb, tgt in ex['out']: mem = m
                if len(ex['out']) != 1: break
                le = [e if r is True else Eff(e.kind, e.doms, band(r, e.guard), e.addr, e.val, e.ty, e.loc, e.extra) for e in le]
                return mem, le, [(pb, tgt, True) for cond, m, pb, tgt in ex['out']]
            if any(c is not False for c, m, pb, tgt in ex['out']): break
            nx = {}
            for i in phis:
                src = {pb: o for o, pb in i['a']}
                v = None
                for c, m, p in ex['latch']:
                    x = s.op(src[p]); v = x if v is None else vite(c, x, v)
                nx[i['id']] = v
            mem = s.merge([(c, m) for c, m, p in ex['latch']], go)
            cur = nx
        s.val, s.calln = saved
        return None
    def liveout(s, h):
        f = s.f; L = f.loop[h]
        out = set()
        for b in f.order:
            if b in L: continue
            for i in f.blocks[b]['i']:
                ops = [o[0] if isinstance(o, list) else o for o in i['a']]
                if i.get('gep'): ops = ops + [i['gep']['base']] + [x[0] for x in i['gep']['var']]
                for o in ops:
                    if o['k'] == 'v' and o['v'] in f.inst and f.iblk[o['v']] in L: out.add(o['v'])
        return out
    def loopdep(s, x, lid):
        """does x depend on memory modified by this very loop?"""
        for a in fv(x):
            d = adata(a)
            if d[0] == 'ld' and d[3] != 0 and any(t[0] == 'loopin' and t[1] == lid for t in d[3] if isinstance(t, tuple)): return True
        return False
    def tripcount(s, h, outs, kv, ph, lid, r=True):
        """returns (TC, (index of counting exit, k at exit), [indices of other exits])"""
        f = s.f; K = avar(kv); phat = set(ph.values())
        best = None
        for idx, (cond, m, pb, tgt) in enumerate(outs):
            if fv(cond) & phat or s.loopdep(cond, lid): continue
            n = ZERO if cond is True else first_true(cond, kv)
            if n is None: continue
            n = under(n, r)
            # executed on every iteration?
            if best is None or pb == h: best = (idx, n, pb)
        if best is None:
            if len(outs) == 0: return A('inf'), None, []
            # single data dependent exit: while(cond)
            idx = 0
            return A('inf'), None, list(range(len(outs)))
        idx, n, pb = best
        tc = n if pb == h and s.f.blocks[h] is not None and s.header_exit_is_top(h, pb) else vapply(lambda x: padd(x, ONE), n)
        others = [j for j in range(len(outs)) if j != idx and outs[j][0] is not False]
        return tc, (idx, n), others
    def header_exit_is_top(s, h, pb):
        # exit taken from the header: the rest of the body runs n times. A single-block loop (header is also the latch) is bottom tested.
        return not (h in s.f.succ[pb])
    def recatoms(s, rest, init, lat, ph, kv, tc, lid, final, others):
        """general recurrences -> ('rec', ...) atoms"""
        order = sorted(rest, key=lambda i: i['id'])
        mp = {}
        for j, i in enumerate(order): mp[ph[i['id']]] = avar(atom('rv', j)) if i['t'] != 'i1' else node(atom('rv', j), True, False)
        kb = atom('rk'); mp2 = dict(mp); mp2[kv] = avar(kb)
        for pid, (kind, d) in final.items():
            mp2[ph[pid]] = vapply(lambda iv, sm: padd(iv, sm), init[pid], absorb_sum(avar(kb), kv, d))
        bodies = tuple(subst(simp(lat[i['id']]), mp2) if not isinstance(lat[i['id']], bool) else lat[i['id']] for i in order)
        inits = tuple(init[i['id']] for i in order)
        bodies = drop_const(bodies, inits, [i['t'] == 'i1' for i in order])
        # canonical order of components: by key of (init, body)
        out = {}
        for j, i in enumerate(order):
            # restrict to the components this one depends on
            dep = {j}; ch = True
            while ch:
                ch = False
                for q in list(dep):
                    for a in fv(bodies[q]) if not isinstance(bodies[q], bool) else ():
                        d = adata(a)
                        if d[0] == 'rv' and d[1] not in dep: dep.add(d[1]); ch = True
            sel = [j] + sorted(dep - {j}, key=lambda q: xstr(inits[q]) + xstr(bodies[q]))
            ren = {atom('rv', q): (avar(atom('rv', 100 + n)) if order[q]['t'] != 'i1' else node(atom('rv', 100 + n), True, False)) for n, q in enumerate(sel)}
            ren2 = {atom('rv', 100 + n): (avar(atom('rv', n)) if order[q]['t'] != 'i1' else node(atom('rv', n), True, False)) for n, q in enumerate(sel)}
            bs = tuple(subst(subst(bodies[q], ren), ren2) if not isinstance(bodies[q], bool) else bodies[q] for q in sel)
            ins = tuple(inits[q] for q in sel)
            isb = i['t'] == 'i1'; isp = i['t'] == 'ptr'
            def g(kexit, bs=bs, ins=ins, isb=isb, isp=isp):
                bs2 = tuple(s.fix_loopin(b, lid, None, [], kv) if not isinstance(b, bool) else b for b in bs)
                return mkrec(kexit, ins, bs2, isb, isp)
            out[i['id']] = g
        return out
    def resolve_loopin(s, effs, lid, mem, kv, tc, again=True):
        """loads marked 'loopin lid' whose location is not written by an earlier iteration see the memory before the loop"""
        stores = [e for e in effs if e.kind == 'store']
        calls = [e for e in effs if e.kind == 'call' and not (e.extra or {}).get('ro')]
        calls = [e for e in calls if e.addr not in RECORDERS]
        if any(not argonly(e) for e in calls): return effs
        stores = stores + calls
        out = []
        for e in effs:
            v = s.fix_loopin(e.val, lid, mem, stores, kv) if e.kind == 'store' else tuple(s.fix_loopin(x, lid, mem, stores, kv) for x in e.val)
            a = s.fix_loopin(e.addr, lid, mem, stores, kv) if e.kind == 'store' else e.addr
            g = s.fix_loopin(e.guard, lid, mem, stores, kv)
            out.append(Eff(e.kind, e.doms, g, a, v, e.ty, e.loc, e.extra))
        return s.fixed_cells(out, lid, mem, calls, kv, tc, s.fix_loopin(again, lid, mem, stores, kv))
    def fixed_cells(s, effs, lid, mem, calls, kv, tc, again=True):
        """cells of local objects that every iteration leaves as it found them keep the value they had before the loop (induction over the iterations)"""
        cells = {}
        for e in effs:
            for x in ([e.val, e.guard, e.addr] if e.kind == 'store' else list(e.val) + [e.guard]):
                for a in fv(x):
                    d = adata(a)
                    if d[0] == 'ld' and d[3] == (('loopin', lid),) and a not in cells:
                        b = base_of(d[1]); k = adata(b)[0] if b is not None else ''
                        if k == 'alloca' and kv not in fv(d[1]) and not any(s.call_may_write(c, b) for c in calls): cells[a] = s.load1(mem, d[1], d[2])
        cells = {a: v for a, v in cells.items() if v is not None and a not in fv(v)}
        if not cells: return effs
        def body(val):
            f = lambda x: x if isinstance(x, (bool, int, str)) or x is None else (tuple(f(y) for y in x) if isinstance(x, tuple) else simp(subst(x, val)))
            new = [Eff(e.kind, e.doms, f(e.guard), f(e.addr) if e.kind == 'store' else e.addr, f(e.val), e.ty, e.loc, e.extra) for e in effs]
            return [e for e in new if e.guard is not False]
        def after(val, new, a):
            m = mem
            for x, v in val.items(): m = m.add(Eff('store', (), True, adata(x)[1], v, adata(x)[2], None, None))
            for e in new: m = m.add(e)
            return eqsimp(s.load1(m, adata(a)[1], adata(a)[2]))
        def done(new, last):
            # the cells are local: what an iteration wrote has been forwarded to its own loads already, what remains is the value after the loop
            keep = [e for e in new if not (e.kind == 'store' and not e.doms and any(e.addr == adata(a)[1] and e.ty == adata(a)[2] and base_of(e.addr) not in s.escaped for a in cells))]
            return keep + [Eff('store', (), True, adata(a)[1], v, adata(a)[2], None, None) for a, v in last.items() if base_of(adata(a)[1]) not in s.escaped]
        init = dict(cells); cur = dict(cells)
        while cur:
            new = body(cur); nxt = {a: after(cur, new, a) for a in cur}
            # what matters is the state another iteration starts from
            go = simp(subst(again, cur)) if isinstance(again, Node) else again
            bad = [a for a in cur if nxt[a] != cur[a] and eqsimp(vite(go, nxt[a], cur[a])) != cur[a]]
            if not bad: cells = {a: v for a, v in cur.items() if nxt[a] == v}; return done(new, {})
            # the first iteration may settle the cells for good
            if all(isinstance(v, (Poly, bool)) and not s.loopdep(v, lid) and kv not in fv(v) and not (fv(v) & set(cells)) for v in nxt.values()):
                new2 = body(nxt)
                if all(after(nxt, new2, a) == nxt[a] for a in nxt):
                    first = c_lt0(psub(avar(kv), ONE), False)
                    cells = cur; LOOPBOUND[kv] = tc
                    return done(body({a: vite(first, cur[a], nxt[a]) for a in cur}), nxt)
            for a in bad: del cur[a]
        return effs
    def fix_loopin(s, x, lid, mem, stores, kv):
        if isinstance(x, (bool, int, str)) or x is None: return x
        if isinstance(x, tuple): return tuple(s.fix_loopin(y, lid, mem, stores, kv) for y in x)
        if mem is None: return x
        mp = {}; bnd = {}
        for a in fv(x):
            d = adata(a)
            if d[0] == 'sum': bnd[d[2]] = d[1] if bnd.get(d[2], d[1]) == d[1] else None
        for k, t in bnd.items():
            if isinstance(t, Poly): LOOPBOUND[k] = t
        try: return s.fix_loopin1(x, lid, mem, stores, kv, mp)
        finally:
            for k in bnd: LOOPBOUND.pop(k, None)
    def fix_loopin1(s, x, lid, mem, stores, kv, mp):
        for a in fv(x):
            d = adata(a)
            if d[0] == 'ld' and d[3] != 0 and d[3] == (('loopin', lid),):
                p = d[1]; b = base_of(p)
                if any(st.kind == 'call' and s.call_may_write(st, b) for st in stores): continue
                if all(s.not_before(st, p, tysz(d[2]), kv) for st in stores if st.kind == 'store' and (base_of(st.addr) if not isinstance(st.addr, Node) else None) in (b, None)):
                    mp[a] = s.load1(mem, p, d[2])
        if not mp: return x
        return subst(x, mp)
    def not_before(s, st, p, sz, kv):
        """store st (in the loop) never wrote location p in an iteration earlier than the current one"""
        if isinstance(st.addr, Node): return False
        co = _mk_coeff(st.addr, kv)
        if not co.t:
            if kv in fv(st.addr) or any(kv in fv(t) for k, t in st.doms): return False
            lo, hi = window_of(st, [k for k, t in st.doms]) if st.doms else (st.addr, st.addr)
            if lo is None: return False
            return prove_ge0(psub(psub(p, hi), const(tysz(st.ty)))) or prove_ge0(psub(psub(lo, p), const(sz)))
        d = psub(p, st.addr)
        if kv in fv(d): return False
        if any(kv in fv(t) for k, t in st.doms): 
            pass
        if prove_ge0(co):
            # windows only move up: everything written earlier ends co below the end of the current window
            lo, hi = window_of(st, [k for k, t in st.doms]) if st.doms else (st.addr, st.addr)
            if hi is not None and prove_ge0(psub(padd(psub(p, hi), co), const(tysz(st.ty)))): return True
        if not st.doms:
            if d == ZERO: return True
            if d.isconst() and co.isconst():
                c, st_ = d.const(), co.const()
                if (c / st_).denominator != 1: return abs(c) % abs(st_) != 0 and True
                return c / st_ > 0
            # p ahead of the store by less than.. unknown
            if co.isconst() is False:
                # |d| < stride  => not touched in other iterations
                if prove_ge0(psub(psub(co, d), const(sz))) and prove_ge0(psub(padd(d, co), const(sz))): return True
            return False
        if s.mixed_radix(st, p, kv): return True
        lo, hi = window_of(st, [k for k, t in st.doms])
        if lo is None: return False
        ext = psub(hi, lo)
        # the store window moves by co per iteration; p lies within the current window and windows do not overlap
        d_lo = psub(p, lo)
        stride = co
        if prove_ge0(psub(stride, padd(ext, const(sz)))) and prove_ge0(d_lo) and prove_ge0(psub(padd(ext, ZERO), d_lo)): return True
        return False
    def mixed_radix(s, st, p, kv):
        """store address and load address are the same injective (mixed radix) function of (kv, inner vars), so equality forces equal kv"""
        ks = [(kv, LOOPBOUND.get(kv))] + list(st.doms)
        return same_radix(st.addr, p, ks, tysz(st.ty))
    def close_effects(s, effs, kv, tc, lid, mem):
        """attach the loop dimension to every effect of the body; turn accumulations into sums / recurrences"""
        out = []
        K = avar(kv)
        if tc == ZERO: return []
        def is_inv(e): return e.kind == 'store' and isinstance(e.addr, Poly) and kv not in fv(e.addr) and not any(kv in fv(t) for k, t in e.doms)
        inv = [e for e in effs if is_inv(e)]
        selfl = {}
        for e in inv:
            a = atom('ld', e.addr, e.ty, (('loopin', lid),))
            selfl[id(e)] = a
        lds = set(selfl.values())
        used = set()
        for e in effs:
            for x in ([e.val, e.guard, e.addr] if e.kind == 'store' else list(e.val) + [e.guard]):
                used |= {a for a in fv(x) if a in lds}
        naddr = {}
        for e in inv: naddr[e.addr] = naddr.get(e.addr, 0) + 1
        # components of the memory-carried recurrence
        comp = [e for e in inv if selfl[id(e)] in used]
        vecrec = {}
        if comp and len({e.addr for e in comp}) == len(comp) and all(injective(e.addr, list(e.doms), tysz(e.ty)) for e in comp) and not any(e.kind == 'call' and not (e.extra or {}).get('ro') for e in effs):
            byld = {selfl[id(e)]: n for n, e in enumerate(comp)}
            bodies = []; ok = True
            # other invariant stores whose guard depends on the carried values are components as well
            extra = [e for e in inv if e not in comp and (fv(e.guard) | fv(e.val)) & lds and naddr[e.addr] == 1 and injective(e.addr, list(e.doms), tysz(e.ty))]
            allc = comp + extra
            for n, e in enumerate(allc): byld[selfl[id(e)]] = n
            mp = {a: avar(atom('rv', n)) for a, n in byld.items()}; mp[kv] = avar(atom('rk'))
            for e in allc:
                if naddr[e.addr] != 1: ok = False; break
                old = avar(selfl[id(e)])
                b = vite(simp(e.guard), simp(e.val), old)
                b = subst(b, mp)
                if s.loopdep(b, lid): ok = False; break
                bodies.append(b)
            if ok and all(kv not in fv(x) for x in ()):
                inits = [s.load(mem, e.addr, e.ty) for e in allc]
                for n, e in enumerate(allc):
                    vecrec[id(e)] = rec_select(n, bodies, inits, tc)
        for e in effs:
            if e.kind == 'call':
                out.append(Eff(e.kind, ((kv, tc),) + e.doms, e.guard, e.addr, e.val, e.ty, e.loc, e.extra)); continue
            if id(e) in vecrec:
                out.append(Eff('store', e.doms, True, e.addr, vecrec[id(e)], e.ty, e.loc, e.extra)); continue
            if is_inv(e) and not s.loopdep(e.val, lid) and not s.loopdep(e.guard, lid) and naddr[e.addr] == 1:
                pos = vapply(lambda t: bnot(c_lt0(psub(t, ONE), False)), tc)
                if kv not in fv(e.guard):
                    if kv not in fv(e.val): v = e.val
                    else: v = subst(e.val, {kv: vapply(lambda t: psub(t, ONE), tc)})
                    out.append(Eff('store', e.doms, band(e.guard, pos), e.addr, v, e.ty, e.loc, e.extra)); continue
            out.append(Eff('store', ((kv, tc),) + e.doms, e.guard, e.addr, e.val, e.ty, e.loc, e.extra))
        res = []
        lf = lift(tc)
        for e in out:
            if lf and e.doms and e.doms[0][0] == kv:
                LOOPBOUND[kv] = tc; e = Eff(e.kind, e.doms, simp(e.guard), e.addr, simp(e.val) if e.kind == 'store' else e.val, e.ty, e.loc, e.extra)
                mp = {kv: psub(K, lf[1])}
                f = lambda x: x if isinstance(x, (bool, str)) else (tuple(f(y) for y in x) if isinstance(x, tuple) else subst(x, mp))
                e = Eff(e.kind, ((kv, lf[0]),) + tuple((k, f(t)) for k, t in e.doms[1:]), f(e.guard), f(e.addr), f(e.val), e.ty, e.loc, e.extra); LOOPBOUND[kv] = lf[0]
            if e.kind == 'store': e = Eff(e.kind, e.doms, simp(e.guard), e.addr, simp(e.val), e.ty, e.loc, e.extra)
            else: e = Eff(e.kind, e.doms, simp(e.guard), e.addr, e.val, e.ty, e.loc, e.extra)
            if e.guard is not False: res.append(e)
        return res
    def fix_loopin_out(s, x, lid, memout, mem):
        if isinstance(x, (bool, int, str)) or x is None: return x
        return x

def within(p, b):
    """at a constant offset in the local object b"""
    return adata(b)[0] == 'alloca' and psub(p, avar(b)).isconst()
def nonnull_arg(p):
    """address inside caller storage: pointer parameters are non-null unless named opt*"""
    b = base_of(p)
    if b is None: return False
    d = adata(b)
    return d[0] == 'arg' and not str(d[1]).startswith('opt') and prove_ge0(psub(p, avar(b)))
def distinct_objects(d):
    """a difference of addresses that cannot be 0: a local object against null, another local object, a global or a parameter"""
    a, b = base_of(d), base_of(pneg(d))
    if a is None and b is None: return False
    K = [adata(x)[0] for x in (a, b) if x is not None]
    if not any(k in ('alloca', 'global') for k in K) or not all(k in ('alloca', 'global', 'arg', 'func') for k in K): return False
    if len(K) == 2 and 'alloca' not in K: return False
    r = d
    if a is not None: r = psub(r, avar(a))
    if b is not None: r = padd(r, avar(b))
    return r.isconst()
def eq0(d):
    """d == 0 for machine integers/pointers"""
    if nonnull_arg(d) or distinct_objects(d): return False
    if len(d.t) == 1 and len(d.t[0][0]) == 1 and d.t[0][0][0][1] == 1:
        x = adata(d.t[0][0][0][0])
        if x[0] == 'bit' and x[1] == 'or':
            r = True
            for y in x[2:]:
                if not isinstance(y, Poly): return c_eq0(d, False)
                r = band(r, simp(eq0(y)))
            return r
        if x[0] == 'bit' and x[1] == 'and':
            for m, y in ((x[2], x[3]), (x[3], x[2])):
                if isinstance(m, Poly) and m.isconst() and m.const() in (2 ** 63 - 1, 2 ** 31 - 1) and isinstance(y, Poly):   # all bits but the sign
                    return bor(eq0(y), eq0(padd(y, const(m.const() + 1))))
    if len(d.t) > 1:
        dg = packed_digits(d)
        if dg and len(dg) > 1 and all(sorted(q for q, _ in x) in ([-1, 1], [1], [-1]) and all(prove_ge0(avar(y)) for _, y in x) for x in dg.values()):
            r = True
            for sh in sorted(dg):
                q = ZERO
                for sg, at in dg[sh]: q = padd(q, avar(at)) if sg > 0 else psub(q, avar(at))
                r = band(r, c_eq0(q, False))
            return r
    return c_eq0(d, False)
def packed_digits(p):
    """p as a sum of 32 bit quantities shifted by multiples of 32: {shift: [(sign, atom)]}"""
    out = {}
    for m, k in p.t:
        if len(m) != 1 or m[0][1] != 1 or k.denominator != 1 or not isnarrow(m[0][0], 'i32'): return None
        a = abs(int(k)); sh = a.bit_length() - 1
        if a != 1 << sh or sh % 32: return None
        out.setdefault(sh, []).append((1 if k > 0 else -1, m[0][0]))
    return out
def packed_width(p):
    d = packed_digits(p)
    if not d or any(len(x) != 1 or x[0][0] < 0 or not prove_ge0(avar(x[0][1])) for x in d.values()): return None
    return max(d) + 32
def bitop(op, x, y):
    if x.isconst() and y.isconst():
        u, v = int(x.const()), int(y.const())
        return const({'and': u & v, 'or': u | v, 'xor': u ^ v}[op])
    if y == ZERO: return ZERO if op == 'and' else x
    if x == ZERO: return ZERO if op == 'and' else y
    if op == 'and' and y == const(-1): return x
    if op == 'and' and y == const(W32 - 1) and small32(low32(x)): return low32(x)
    if op == 'or':
        for u, v in ((x, y), (y, x)):
            if low32(u) == ZERO and small32(v): return padd(u, v)
        for u, v in ((x, y), (y, x)):
            w = packed_width(v)
            if w is not None and all(k.denominator == 1 and int(k) % 2 ** w == 0 for m, k in u.t): return padd(u, v)
            if v.isconst() and v.const() > 0 and all(k.denominator == 1 and int(k) % (1 << int(v.const()).bit_length()) == 0 for m, k in u.t): return padd(u, v)
    if op == 'xor' and y == const(-1): return psub(const(-1), x)
    return A('bit', op, *sorted((x, y), key=lambda p: p.t))
sym.REBUILD['bit'] = lambda d: vapply(lambda x, y: bitop(d[1], x, y), d[2], d[3])
def bitval(v):
    if isinstance(v, Node): return bitval(v.hi) and bitval(v.lo)
    return isinstance(v, Poly) and v.isconst() and v.const() in (0, 1)
def bool_rec(tc, init, body, isbool):
    """all-of / any-of accumulation over 0/1 values as (non-)existence"""
    rv = atom('rv', 0)
    if isbool:
        if not isinstance(init, bool): return None
        T, F = True, False
        b1, b0 = subst(body, {rv: True}) if False else restrict(body, rv, True), restrict(body, rv, False)
    else:
        if not (isinstance(init, Poly) and init.isconst() and init.const() in (0, 1)): return None
        b1, b0 = subst(body, {rv: ONE}), subst(body, {rv: ZERO})
        if not (bitval(b1) and bitval(b0)): return None
        b1, b0 = [vapply(lambda x: x.const() == 1, b) for b in (b1, b0)]
        init = init.const() == 1
    kv = atom('rk')
    def ex(b):
        if b is False: return False
        if b is True: return simp(c_lt0(pneg(tc), False)) if isinstance(tc, Poly) else None
        return exists_first(b, kv, tc)[0]
    if b0 is False: r = band(init, bnot(ex(bnot(b1))))
    elif b1 is True: r = bor(init, ex(b0))
    else: return None
    return r if isbool else vite(r, ONE, ZERO)
def exists_first(bc, kv, tc):
    if isinstance(bc, Node) and isinstance(tc, Poly) and not any(adata(a)[0] == 'inf' for a in fv(tc)):
        nk0 = atom('k', 'sum<%s' % xstr(tc)); LOOPBOUND[nk0] = tc      # only 0 <= kv < tc matters
        bc = subst(simp(subst(bc, {kv: avar(nk0)})), {nk0: avar(kv)})
        if isinstance(bc, bool): return (c_lt0(pneg(tc), False) if bc else False), ZERO
    nk = atom('b', max([bdepth(bc), bdepth(tc)] + [0]))
    b = subst(bc, {kv: avar(nk)})
    return bvar('Bexists', tc, nk, b), A('first', tc, nk, b)

def drop_const(bodies, inits, isbool):
    """recurrence bodies with the components that provably keep their constant initial value (such as the compensation term of a Kahan sum in exact
    arithmetic) replaced by that constant"""
    if len(bodies) < 2: return bodies
    cst = [q for q in range(len(bodies)) if not isbool[q] and isinstance(inits[q], Poly) and inits[q].isconst()]
    while cst:
        mp = {atom('rv', q): inits[q] for q in cst}
        bad = [q for q in cst if subst(bodies[q], mp) != inits[q]]
        if not bad: return tuple(b if isinstance(b, bool) else subst(b, mp) for b in bodies)
        cst = [q for q in cst if q not in bad]
    return bodies

def rec_select(j, bodies, inits, tc, isbool=None, isp=False):
    """value of component j of the recurrence x_{k+1}=bodies(x_k,k) after tc steps; keeps only what j depends on"""
    isbool = isbool or [False] * len(bodies)
    bodies = drop_const(bodies, inits, isbool)
    dep = {j}; ch = True
    while ch:
        ch = False
        for q in list(dep):
            for a in fv(bodies[q]) if not isinstance(bodies[q], bool) else ():
                d = adata(a)
                if d[0] == 'rv' and d[1] not in dep: dep.add(d[1]); ch = True
    sel = [j] + sorted(dep - {j}, key=lambda q: xstr(inits[q]) + xstr(bodies[q]))
    mkv = lambda n, q: node(atom('rv', n), True, False) if isbool[q] else avar(atom('rv', n))
    ren = {atom('rv', q): mkv(100 + n, q) for n, q in enumerate(sel)}
    ren2 = {atom('rv', 100 + n): mkv(n, q) for n, q in enumerate(sel)}
    bs = tuple(subst(subst(bodies[q], ren), ren2) if not isinstance(bodies[q], bool) else bodies[q] for q in sel)
    ins = tuple(inits[q] for q in sel)
    return mkrec(tc, ins, bs, isbool[j], isp)

def mkrec(kexit, ins, bs, isb, isp):
    if isinstance(kexit, Node): return vapply(lambda t: mkrec(t, ins, bs, isb, isp), kexit)
    # plain accumulation
    if len(bs) == 1 and not isb and not isp and not isinstance(bs[0], bool):
        rv = atom('rv', 0)
        d = vapply(lambda x: psub(x, avar(rv)), bs[0])
        if rv not in fv(d):
            kv = atom('b', 900 + uid())
            return vapply(lambda i0, sm: padd(i0, sm), ins[0], vsum(kexit, kv, subst(d, {atom('rk'): avar(kv)})))
    lf = lift(kexit)
    if lf:
        bs = tuple(b if isinstance(b, bool) else lift_body(b, atom('rk'), kexit, lf) for b in bs); kexit = lf[0]
    if len(bs) == 1 and not isp:
        r = bool_rec(kexit, ins[0], bs[0], isb)
        if r is not None: return r
    data = ('rec', kexit, ins, bs)
    if isb: return bvar(*data)
    if isp: return avar(ptr_atom(*data))
    return A(*data)

def absorb_sum(tc, kv, body): return vsum(tc, kv, body)

def first_true(cond, kv):
    """smallest k>=0 with cond(k) true, for a condition monotone in k: single comparison affine in k"""
    if not isinstance(cond, Node): return None
    # lift conditions independent of k
    if cond.hi is True and cond.lo is False: pos = True
    elif cond.hi is False and cond.lo is True: pos = False
    else:
        for c in _conds(cond):
            if kv in fv_atom(c): continue
            a, b = [(ZERO if x is True else first_true(x, kv)) for x in (restrict(cond, c, True), restrict(cond, c, False))]
            if a is None or b is None: return None
            return vite(node(c, True, False), a, b)
        return None
    d = adata(cond.c)
    if d[0] not in ('lt', 'eq') : return None
    q, th = d[1], d[2]
    co = _mk_coeff(q, kv)
    if not co.t or kv in fv(co): return None
    rest = psub(q, pmul(co, avar(kv)))
    if kv in fv(rest): return None
    # q = co*k + rest
    if d[0] == 'eq':
        if not pos:
            return vite(c_eq0(psub(rest, const(th)), False), ONE, ZERO)
        num = psub(const(th), rest)
        return idiv(num, co, 'exact')
    if not co.isconst():
        if pos and prove_ge0(psub(pneg(co), ONE)):
            b = pneg(co); q, rem = pdivmod(psub(rest, const(th)), b)
            if not _intq(q): q = None
            if q is None: return padd(idiv(psub(rest, const(th)), b, 'floor'), ONE)
            if prove_ge0(rem) and prove_ge0(psub(psub(b, ONE), rem)): return padd(q, ONE)
            if prove_ge0(padd(rem, b)) and prove_ge0(psub(const(-1), rem)): return q
            return padd(idiv(psub(rest, const(th)), b, 'floor'), ONE)
        elif not pos and prove_ge0(psub(co, ONE)):
            q, rem = pdivmod(psub(const(th), rest), co)
            if not _intq(q): return None
            if prove_ge0(psub(rem, ONE)) and prove_ge0(psub(co, rem)): return padd(q, ONE)
            if prove_ge0(psub(padd(rem, co), ONE)) and prove_ge0(pneg(rem)): return q
            return padd(idiv(psub(psub(const(th), rest), ONE), co, 'floor'), ONE)
        return None
    c = co.const()
    if pos and c < 0:
        # co*k + rest < th  -> k > (rest - th)/|c| -> first k = floor((rest-th)/|c|)+1
        return vapply(lambda x: x, padd(idiv(psub(rest, const(th)), const(-c), 'floor'), ONE))
    if not pos and c > 0:
        # not (c*k + rest < th) -> c*k >= th - rest -> k = ceil((th-rest)/c)
        num = psub(const(th), rest)
        if c == 1: return num
        return idiv(padd(num, const(c - 1)), const(c), 'floor')
    return None

def orall(l):
    c = False
    for x in l: c = bor(c, x)
    return c
def under(v, g):
    """v simplified by the conditions that hold wherever g does"""
    if not isinstance(g, Node): return v
    for c in _conds(v):
        b = node(c, True, False)
        if band(g, bnot(b)) is False: v = restrict(v, c, True)
        elif band(g, b) is False: v = restrict(v, c, False)
    return v
def c_tr1(p):
    return bnot(c_eq0(A('bit', 'and', *sorted((p, ONE), key=lambda q: q.t)), False))

def _isbool(v):
    while isinstance(v, Node): v = v.hi
    return isinstance(v, bool)

def window(e): return window_of(e, [k for k, t in e.doms])
def window_of(e, ks):
    """lowest and highest start address over the given domain variables (None if not affine/known sign)"""
    lo = hi = e.addr
    tcs = dict(e.doms)
    for k in reversed(ks):
        for which in (0, 1):
            x = lo if which == 0 else hi
            co = _mk_coeff(x, k)
            rest = psub(x, pmul(co, avar(k)))
            if k in fv(rest): return None, None
            t = tcs[k]
            if not isinstance(t, Poly): return None, None
            mx = pmul(co, psub(t, ONE))
            if prove_ge0(co): a = rest if which == 0 else padd(rest, mx)
            elif prove_ge0(pneg(co)): a = padd(rest, mx) if which == 0 else rest
            else: return None, None
            if which == 0: lo = a
            else: hi = a
    return lo, hi

def injective(addr, ks, sz):
    """is addr an injective function of the loop variables ks=[(k,tc)...]: strides form a mixed radix system"""
    l = []
    rest = addr
    for k, t in ks:
        co = _mk_coeff(addr, k)
        if not co.t or any(kk in fv(co) for kk, _ in ks): return False
        rest = psub(rest, pmul(co, avar(k)))
        if not isinstance(t, Poly): 
            t = None
        l.append((co, t))
    if any(k in fv(rest) for k, _ in ks): return False
    return _radix(l, sz)
def _radix(l, sz):
    import itertools
    for perm in itertools.permutations(l):
        need = const(sz); ok = True
        for co, t in perm:
            if not prove_ge0(psub(co, need)): ok = False; break
            if t is None:
                if (co, t) is not perm[-1] and perm.index((co, t)) != len(perm) - 1: ok = False; break
                continue
            need = padd(need, pmul(co, psub(t, ONE)))
        if ok: return True
    return False
def same_radix(a, p, ks, sz):
    if not isinstance(p, Poly): return False
    if not injective(a, ks, sz): return False
    if a == p: return True
    # same function with inner variables renamed
    free = [k for k, t in ks[1:]]
    import itertools
    cand = [x for x in fv(p) if adata(x)[0] == 'k' and x != ks[0][0]]
    for perm in itertools.permutations(cand, len(free)):
        if subst(a, {k: avar(x) for k, x in zip(free, perm)}) == p and all(LOOPBOUND.get(x) == t for (k, t), x in zip(ks[1:], perm)): return True
    return False

# ------------------------------------------------------------------ canonical effects
def canon_eff(e):
    """rename loop variables canonically, normalise direction, coalesce perfect nests"""
    doms = list(e.doms)
    if not doms: return e
    addr, val, guard = e.addr, e.val, e.guard
    if e.kind == 'store' and isinstance(addr, Poly):
        # reverse negative strides
        for n, (k, t) in enumerate(doms):
            co = _mk_coeff(addr, k)
            neg = co.t and all(c < 0 for m, c in co.t)
            if neg and isinstance(t, Poly):
                mp = {k: psub(psub(t, ONE), avar(k))}
                addr = subst(addr, mp); val = subst(val, mp); guard = subst(guard, mp)
                doms = doms[:n + 1] + [(kk, subst(tt, mp)) for kk, tt in doms[n + 1:]]
        # fold a lower bound in the guard?  (not needed yet)
        # coalesce
        ch = True
        while ch:
            ch = False
            for i in range(len(doms)):
                for j in range(len(doms)):
                    if i == j: continue
                    (ko, to), (ki, ti) = doms[i], doms[j]
                    if not isinstance(to, Poly) or not isinstance(ti, Poly): continue
                    if ko in fv(ti) or ki in fv(to): continue
                    if any((ko in fv(t) or ki in fv(t)) for k, t in doms): continue
                    if tiled(addr, val, guard): continue
                    mp = {ki: padd(avar(ki), pmul(avar(ko), ti)), ko: ZERO}
                    if subst(addr, mp) == addr and subst(val, mp) == val and subst(guard, mp) == guard:
                        mz = {ko: ZERO}
                        addr = subst(addr, mz); val = subst(val, mz); guard = subst(guard, mz)
                        doms[j] = (ki, pmul(to, ti)); del doms[i]; ch = True; break
                if ch: break
        # order dims by stride key
        doms.sort(key=lambda kt: str(sorted((str(m), c) for m, c in _mk_coeff(addr, kt[0]).t)))
        doms2 = []
        # keep dependence order (a TC depending on another var must come later)
        for kt in doms: doms2.append(kt)
    mp = {}
    nd = []
    n0 = 1000
    for n, (k, t) in enumerate(doms):
        mp[k] = avar(atom('k', 'c%d' % n))
    nd = tuple((atom('k', 'c%d' % n), subst(t, mp)) for n, (k, t) in enumerate(doms))
    for k, t in nd: LOOPBOUND[k] = t
    return Eff(e.kind, nd, subst(guard, mp), subst(addr, mp) if e.kind == 'store' else addr, subst(val, mp), e.ty, e.loc, e.extra)

def summarise(jf, name, globs=None, argnames=None, opts=None):
    s = Summ(Fn(name, jf, globs), argnames, opts)
    r = s.run()
    r['summ'] = s
    return r
