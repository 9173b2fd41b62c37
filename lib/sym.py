"""Canonical value forms: polynomials over interned atoms, with decision diagrams on top.

Everything is hash-consed, so structural equality is identity of canonical forms.
  Poly  : sum of coef * prod(atom^exp)          (numbers and pointers; ideal arithmetic)
  V     : decision diagram over condition atoms whose leaves are Poly / bool / tuples
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- atoms
_atoms = {}
_adata = []
def atom(*data):
    a = _atoms.get(data)
    if a is None:
        a = len(_adata); _atoms[data] = a; _adata.append(data)
    return a
def adata(i): return _adata[i]

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', 'h', '_fv')
    def __init__(self, t): self.t = t; self.h = hash(t); self._fv = None
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o or (isinstance(o, Poly) and self.h == o.h and self.t == o.t)
    def isconst(self): return not self.t or (len(self.t) == 1 and self.t[0][0] == ())
    def const(self): return self.t[0][1] if self.t else Fraction(0)
    def __repr__(self): return pstr(self)

_pcache = {}
def _mk(d):
    t = tuple(sorted(((m, c) for m, c in d.items() if c != 0)))
    p = _pcache.get(t)
    if p is None:
        p = Poly(t); _pcache[t] = p
    return p
def const(c): return _mk({(): Fraction(c)})
ZERO = const(0); ONE = const(1)
def avar(a, e=1): return _mk({((a, e),): Fraction(1)})
def A(*data): return avar(atom(*data))

def padd(a, b, k=1):
    d = dict(a.t)
    for m, c in b.t: d[m] = d.get(m, 0) + k * c
    return _mk(d)
def psub(a, b): return padd(a, b, -1)
def pscale(a, k): return _mk({m: c * k for m, c in a.t})
def pneg(a): return pscale(a, -1)

def _mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n: d[a] = n
        else: d.pop(a, None)
    return tuple(sorted(d.items()))

def pmul(a, b):
    d = {}
    extra = None
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = _mmul(m1, m2)
            # sqrt(x)^2 -> x ; powers of sqrt reduced
            red = None
            for (at, e) in m:
                if (e >= 2 or e <= -2) and _adata[at][0] == 'fn' and _adata[at][1] == 'sqrt': red = (at, e); break
            if red:
                at, e = red
                rest = tuple(x for x in m if x[0] != at)
                arg = _adata[at][2]
                h = e // 2 if e > 0 else -((-e) // 2); r = e - 2 * h
                q = _mk({_mmul(rest, ((at, r),) if r else ()): c1 * c2})
                q = pmul(q, ppow(arg, h))
                extra = q if extra is None else padd(extra, q)
            else:
                d[m] = d.get(m, 0) + c1 * c2
    p = _mk(d)
    return p if extra is None else padd(p, extra)

def ppow(a, n):
    if n == 0: return ONE
    if n < 0: return ppow(pinv(a), -n)
    r = ONE
    for _ in range(n): r = pmul(r, a)
    return r

def content_norm(p):
    """return (k, q) with p = k*q and q having leading coefficient 1 (leading = first in order, constant last)"""
    lead = None
    for m, c in p.t:
        if m != (): lead = c; break
    if lead is None: lead = p.const()
    return lead, pscale(p, Fraction(1) / lead)

def pinv(a):
    if not a.t: return avar(atom('divzero'))
    if len(a.t) == 1:
        m, c = a.t[0]
        return _mk({tuple((at, -e) for at, e in m): 1 / c})
    k, q = content_norm(a)
    return pscale(avar(atom('P', q), -1), 1 / k)      # ('P', q): the polynomial q used as a factor

def pdiv(a, b):
    if b.isconst() and b.t: return pscale(a, 1 / b.const())
    if a == b: return ONE
    return pmul(a, pinv(b))

def expand_inv(p):
    """bring to a single numerator: multiply by every ('P', q)^e denominator. returns numerator poly (denominator ignored)"""
    for _ in range(50):
        den = {}
        for m, c in p.t:
            for at, e in m:
                if e < 0 : den[at] = min(den.get(at, 0), e)
        pos = [at for m, c in p.t for at, e in m if e > 0 and _adata[at][0] == 'P']
        if not den and not pos: return p
        out = ZERO
        for m, c in p.t:
            d = dict(m); q = const(c)
            for at, e in den.items(): d[at] = d.get(at, 0) - e
            base = {}
            for at, e in d.items():
                if e > 0 and _adata[at][0] == 'P':
                    q = pmul(q, ppow(_adata[at][1], e))
                elif e != 0: base[at] = e
            out = padd(out, pmul(q, _mk({tuple(sorted(base.items())): Fraction(1)})))
        p = out
    return p

def poly_equal(a, b):
    if a == b: return True
    d = psub(a, b)
    n = expand_inv(d)
    return not n.t

# ---------------------------------------------------------------- decision diagrams
class Node:
    __slots__ = ('c', 'hi', 'lo', 'h')
    def __init__(s, c, hi, lo): s.c = c; s.hi = hi; s.lo = lo; s.h = hash((c, hi, lo))
    def __hash__(s): return s.h
    def __eq__(s, o): return s is o or (isinstance(o, Node) and s.h == o.h and s.c == o.c and s.hi == o.hi and s.lo == o.lo)
    def __repr__(s): return vstr(s)
_ncache = {}
MAXNODES = 20000
class TooBig(Exception): pass
def node(c, hi, lo):
    if hi is lo or hi == lo: return hi
    k = (c, hi, lo)
    n = _ncache.get(k)
    if n is None:
        n = Node(c, hi, lo); _ncache[k] = n
    return n
def top(v): return v.c if isinstance(v, Node) else None
def cof(v, c, side):
    if isinstance(v, Node) and v.c == c: return v.hi if side else v.lo
    return v

_apc = {}
def vapply(f, *vs, key=None):
    """apply leaf function f to diagrams"""
    memo = {}
    def rec(args):
        k = args
        r = memo.get(k)
        if r is not None: return r
        tops = [top(v) for v in args]
        tops = [t for t in tops if t is not None]
        if not tops:
            r = f(*args)
        else:
            c = min(tops)
            hi = rec(tuple(cof(v, c, 1) for v in args)); lo = rec(tuple(cof(v, c, 0) for v in args))
            r = node(c, hi, lo) if (isordered(hi, c) and isordered(lo, c)) else vite(node(c, True, False), hi, lo)
            if len(memo) > MAXNODES: raise TooBig()
        memo[k] = r
        return r
    return rec(tuple(vs))
def isordered(v, c): return not isinstance(v, Node) or v.c > c

def vite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a == b: return a
    memo = {}
    def rec(c, a, b):
        if c is True: return a
        if c is False: return b
        if a == b: return a
        k = (c, a, b)
        r = memo.get(k)
        if r is not None: return r
        t = min(x for x in (top(c), top(a), top(b)) if x is not None)
        hi = rec(cof(c, t, 1), cof(a, t, 1), cof(b, t, 1)); lo = rec(cof(c, t, 0), cof(a, t, 0), cof(b, t, 0))
        r = node(t, hi, lo)
        if len(memo) > MAXNODES: raise TooBig()
        memo[k] = r
        return r
    return rec(c, a, b)
def band(a, b): return vite(a, b, False)
def bor(a, b): return vite(a, True, b)
def bnot(a): return vite(a, False, True)
def bvar(*data): return node(atom(*data), True, False)

# ---------------------------------------------------------------- numeric conditions
def _split(p):
    """linear part (without constant) and constant"""
    c = Fraction(0); d = {}
    for m, k in p.t:
        if m == (): c = k
        else: d[m] = k
    return _mk(d), c

def _denfree(p):
    # multiply by the square of denominators' atoms only when these are known positive is not attempted
    return p

GE1 = []
def ge1_factor(q):
    """q divided by the common monomial of atoms known to be integers >= 1, or None"""
    if not GE1 or not q.t or not q.t[0][0]: return None
    com = dict(q.t[0][0])
    for m, k in q.t:
        d = dict(m)
        com = {a: min(e, d[a]) for a, e in com.items() if a in d and d[a] > 0 and e > 0}
        if not com: return None
    com = {a: e for a, e in com.items() if GE1[0](a)}
    if not com: return None
    return _mk({tuple((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0)): k for m, k in q.t})

def c_lt0(p, real):
    """condition p < 0 in canonical form: atom ('cmp', q, real) family with threshold"""
    q, c = _split(p)
    if not q.t: return c < 0
    lead = q.t[0][1]
    k = abs(lead)
    if real:
        q = pscale(q, 1 / k); c = c / k
        if lead > 0: return bvar('lt', q, -c, True)          # q < -c
        return bvar('gt', pneg(q), c, True)                   # -q' + c < 0  ->  q' > c   (q' = -q)
    # integers: normalise to q' < t with positive leading coefficient
    from math import gcd, floor, ceil
    g = 0; den = 1
    for m, kk in q.t: den = den * kk.denominator // gcd(den, kk.denominator)
    for m, kk in q.t: g = gcd(g, int(kk * den))
    s = Fraction(den, g); q = pscale(q, s); c = c * s
    if len(q.t) > 1 and -c in (0, 1) and lead > 0 or len(q.t) > 1 and c in (0, -1) and lead < 0:
        f = ge1_factor(q)
        if f is not None: q = f
    if lead > 0:
        # q + c < 0 , q integer  ->  q < -c -> q < ceil(-c)
        return bvar('lt', q, Fraction(ceil(-c)), False)
    # q < -c, q' = -q:  q' > c  -> not (q' <= floor(c)) -> not (q' < floor(c)+1)
    return bnot(bvar('lt', pneg(q), Fraction(floor(c) + 1), False))

def c_eq0(p, real):
    q, c = _split(p)
    if not q.t: return c == 0
    lead = q.t[0][1]
    q = pscale(q, 1 / lead); c = c / lead
    if c == 0 and not real and len(q.t) > 1:
        f = ge1_factor(q)
        if f is not None: q = f
    return bvar('eq', q, -c, real)

def cond_dependencies(a):
    return _adata[a]

# ---------------------------------------------------------------- generic traversal
def subst(x, mp, memo=None):
    """substitute atoms -> Poly (mp) everywhere, including inside atoms and conditions"""
    if memo is None: memo = {}
    return _subst(x, mp, memo)

def _fv_tuple(data, out):
    for y in data:
        if isinstance(y, (Poly, Node)): out |= fv(y)
        elif isinstance(y, tuple): _fv_tuple(y, out)

_fvatom = {}
def fv_atom(a):
    r = _fvatom.get(a)
    if r is None:
        s = {a}; _fv_tuple(_adata[a], s); r = frozenset(s); _fvatom[a] = r
    return r
_fvnode = {}
def fv(x):
    if isinstance(x, Poly):
        if x._fv is None:
            s = set()
            for m, c in x.t:
                for a, e in m: s |= fv_atom(a)
            x._fv = frozenset(s)
        return x._fv
    if isinstance(x, Node):
        r = _fvnode.get(x)
        if r is None:
            r = fv_atom(x.c) | fv(x.hi) | fv(x.lo); _fvnode[x] = r
        return r
    if isinstance(x, tuple):
        s = set(); _fv_tuple(x, s); return frozenset(s)
    return frozenset()

REBUILD = {}      # atom kind -> function(data) -> V   (re-canonicalise)
def _subst(x, mp, memo):
    if isinstance(x, (bool, int, str, Fraction)) or x is None: return x
    if not (fv(x) & mp.keys()): return x
    k = memo.get(x)
    if k is not None: return k
    if isinstance(x, Poly):
        r = ZERO
        for m, c in x.t:
            t = const(c)
            for a, e in m:
                av = mp.get(a)
                if av is None:
                    av = _subst_atom(a, mp, memo)
                t = vapply(lambda u, v: pmul(u, v), t, vapply(lambda u: ppow(u, e), av))
            r = vapply(lambda u, v: padd(u, v), r, t)
    elif isinstance(x, Node):
        r = vite(_subst_cond(x.c, mp, memo), _subst(x.hi, mp, memo), _subst(x.lo, mp, memo))
    elif isinstance(x, tuple):
        r = tuple(_subst(y, mp, memo) for y in x)
    else:
        r = x
    memo[x] = r
    return r

def _subst_atom(a, mp, memo):
    if not (fv_atom(a) & mp.keys()): return avar(a)
    data = _adata[a]
    return rebuild(tuple(_subst(y, mp, memo) for y in data))

def rebuild(data):
    """data may contain diagrams in argument positions: lift them"""
    f = REBUILD.get(data[0])
    if f is not None: return f(data)
    idx = [i for i, y in enumerate(data) if isinstance(y, Node)]
    if idx:
        return vapply(lambda *ys: rebuild(tuple(_repl(data, idx, ys))), *[data[i] for i in idx])
    return A(*data)
def _repl(data, idx, ys):
    l = list(data)
    for i, y in zip(idx, ys): l[i] = y
    return l

def _subst_cond(a, mp, memo):
    if a in mp and isinstance(mp[a], (bool, Node)): return mp[a]
    if not (fv_atom(a) & mp.keys()): return node(a, True, False)
    data = _adata[a]
    k = data[0]
    if k in ('lt', 'gt', 'eq'):
        q = _subst(data[1], mp, memo); th = data[2]; real = data[3]
        def leaf(qq):
            if k == 'lt': return c_lt0(psub(qq, const(th)), real)
            if k == 'gt': return c_lt0(psub(const(th), qq), real)
            return c_eq0(psub(qq, const(th)), real)
        return vapply(leaf, q)
    nd = tuple(_subst(y, mp, memo) for y in data)
    if k in REBUILD: return REBUILD[k](nd)
    idx = [i for i, y in enumerate(nd) if isinstance(y, Node) and not k.startswith('B')]
    if idx:
        return vapply(lambda *ys: bvar(*_repl(nd, idx, ys)), *[nd[i] for i in idx])
    return bvar(*nd)

# ---------------------------------------------------------------- semantic comparison
class Env:
    """knowledge about linear parts: q -> (lo, lo_strict, hi, hi_strict, integer)"""
    def __init__(s, iv=None, bools=None): s.iv = dict(iv or {}); s.b = dict(bools or {})
    def copy(s): return Env(s.iv, s.b)
    def decide(s, c):
        if c in s.b: return s.b[c]
        d = _adata[c]
        if d[0] == 'Bexists' and isinstance(d[1], Poly):      # something exists below a bound only if the bound is positive
            q, k = _split(d[1]); 
            if q.t:
                f = q.t[0][1]; q2 = pscale(q, 1 / f); lo, ls, hi, hs = s._get(q2)
                top_ = hi if f > 0 else lo
                if top_ is not None and f * top_ + k <= 0: return False
            return None
        if d[0] not in ('lt', 'gt', 'eq'): return None
        q, th, real = d[1], d[2], d[3]
        for h in DECIDE_HOOK:
            r = h(d)
            if r is not None: return r
        lo, ls, hi, hs = s._get(q)
        if d[0] == 'lt':       # q < th ?
            if hi is not None and (hi < th or (hi == th and hs)): return True
            if lo is not None and lo >= th: return False
        elif d[0] == 'gt':
            if lo is not None and (lo > th or (lo == th and ls)): return True
            if hi is not None and hi <= th: return False
        else:
            if lo is not None and lo == hi and not ls and not hs: return lo == th
            if lo is not None and (th < lo or (th == lo and ls)): return False
            if hi is not None and (th > hi or (th == hi and hs)): return False
        return None
    def _get(s, q):
        r = s.iv.get(q)
        if r is None:
            r = self_interval(q)
        return r
    def assume(s, c, val):
        """return Env or None if contradictory"""
        k = s.decide(c)
        if k is not None: return s if k == val else None
        n = s.copy(); n.b[c] = val
        d = _adata[c]
        if d[0] == 'Bexists' and val and isinstance(d[1], Poly) and not d[1].isconst():
            for x, w in ((c_lt0(psub(d[1], ONE), False), False), (c_eq0(d[1], False), False)):
                while isinstance(x, Node) and isinstance(x.hi, bool) and isinstance(x.lo, bool):
                    n = n.assume(x.c, w if x.hi else not w)
                    break
                if n is None: return None
            return n
        if d[0] in ('lt', 'gt', 'eq'):
            q, th, real = d[1], d[2], d[3]
            lo, ls, hi, hs = n._get(q)
            op = d[0]
            if op == 'lt' and val:
                if real: nh, nhs = th, True
                else: nh, nhs = th - 1, False
                if hi is None or nh < hi or (nh == hi and nhs): hi, hs = nh, nhs
            elif op == 'lt':
                if lo is None or th > lo: lo, ls = th, False
            elif op == 'gt' and val:
                if real: nl, nls = th, True
                else: nl, nls = th + 1, False
                if lo is None or nl > lo or (nl == lo and nls): lo, ls = nl, nls
            elif op == 'gt':
                if hi is None or th < hi: hi, hs = th, False
            elif val: lo = hi = th; ls = hs = False
            else:
                if lo is not None and lo == th:
                    if real: ls = True
                    else: lo = lo + 1
                if hi is not None and hi == th:
                    if real: hs = True
                    else: hi = hi - 1
            if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))): return None
            n.iv[q] = (lo, ls, hi, hs)
        return n
    def points(s):
        """atoms fixed to a constant"""
        mp = {}
        for q, (lo, ls, hi, hs) in s.iv.items():
            if lo is not None and lo == hi and len(q.t) >= 1:
                # solve for a monomial that is a single atom, degree 1
                for m, c in q.t:
                    if len(m) == 1 and m[0][1] == 1 and _adata[m[0][0]][0] not in ('P',):
                        a = m[0][0]
                        rest = psub(q, _mk({m: c}))
                        if a in fv(rest): continue
                        mp.setdefault(a, pscale(psub(const(lo), rest), 1 / c)); break
        return mp

INTERVAL_HOOK = []
DECIDE_HOOK = []
def self_interval(q):
    """a-priori interval of a linear part (hooks supply e.g. exp(x) > 0, dims >= 0)"""
    lo = hi = None; ls = hs = False
    for h in INTERVAL_HOOK:
        r = h(q)
        if r is not None: return r
    return (lo, ls, hi, hs)

class Budget(Exception): pass

def differ(a, b, env=None, leafeq=None, budget=None):
    """None if a == b for every consistent assignment, else (env, leaf_a, leaf_b)"""
    if env is None: env = Env()
    if budget is None: budget = [200000]
    leafeq = leafeq or default_leafeq
    memo = set()
    def rec(a, b, env):
        budget[0] -= 1
        if budget[0] < 0: raise Budget()
        if a == b: return None
        while isinstance(a, Node):
            d = env.decide(a.c)
            if d is None: break
            a = a.hi if d else a.lo
        while isinstance(b, Node):
            d = env.decide(b.c)
            if d is None: break
            b = b.hi if d else b.lo
        if a == b: return None
        tops = [t for t in (top(a), top(b)) if t is not None]
        if not tops:
            if leafeq(a, b, env): return None
            return (env, a, b)
        c = min(tops)
        for val in (True, False):
            e = env.assume(c, val)
            if e is None: continue
            r = rec(cof(a, c, val), cof(b, c, val), e)
            if r is not None: return r
        return None
    return rec(a, b, env)

def default_leafeq(a, b, env):
    if isinstance(a, Poly) and isinstance(b, Poly):
        if poly_equal(a, b): return True
        mp = env.points()
        if mp:
            for _ in range(3):
                a2 = subst(a, mp); b2 = subst(b, mp)
                if a2 == b2: return True
                if isinstance(a2, Poly) and isinstance(b2, Poly):
                    if poly_equal(a2, b2): return True
                else:
                    return differ(a2, b2, env) is None
                if a2 == a and b2 == b: break
                a, b = a2, b2
        return False
    return a == b

# ---------------------------------------------------------------- printing
def pstr(p):
    if not p.t: return '0'
    out = []
    for m, c in p.t:
        f = '*'.join(astr(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if c == int(c): cs = str(int(c))
        else: cs = '%.9g' % float(c)
        if not f: out.append(cs)
        elif c == 1: out.append(f)
        elif c == -1: out.append('-' + f)
        else: out.append(cs + '*' + f)
    return ' + '.join(out)
def xstr(y):
    if isinstance(y, Poly): return pstr(y)
    if isinstance(y, Node): return vstr(y)
    if isinstance(y, tuple): return '(' + ', '.join(xstr(z) for z in y) + ')'
    return str(y)
def astr(a):
    d = _adata[a]
    k = d[0]
    if k == 'arg': return str(d[1])
    if k == 'k': return 'i%s' % d[1]
    if k == 'b': return 'k%s' % d[1]
    if k == 'ld': return 'M[%s]%s' % (xstr(d[1]), '' if d[3] == 0 else "'%s" % xstr(d[3]))
    if k == 'fn': return '%s(%s)' % (d[1], ', '.join(xstr(z) for z in d[2:]))
    if k == 'P': return '(%s)' % xstr(d[1])
    if k == 'lt': return '[%s < %s]' % (xstr(d[1]), xstr(const(d[2])))
    if k == 'gt': return '[%s > %s]' % (xstr(d[1]), xstr(const(d[2])))
    if k == 'eq': return '[%s == %s]' % (xstr(d[1]), xstr(const(d[2])))
    return '%s(%s)' % (k, ', '.join(xstr(z) for z in d[1:]))
def vstr(v, n=[0]):
    if isinstance(v, Poly): return pstr(v)
    if isinstance(v, Node): return '{%s ? %s : %s}' % (astr(v.c), vstr(v.hi), vstr(v.lo))
    if isinstance(v, tuple): return xstr(v)
    return str(v)
