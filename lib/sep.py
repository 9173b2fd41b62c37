"""Separation of two normal forms.

The comparison in cmp.py is complete only up to the rewrite rules it knows.  Before a difference of normal forms is
reported, we look for a valuation of the free symbols under which the two *normal forms* (polynomials, gated values,
sums, recurrences over symbolic loads) denote different final states.  A difference that no valuation separates is
reported as undecided, never as a violation; the separating valuation is stored in the replay file.
Nothing of the analysed program is executed here: only its summary is read.
"""
import time, math, random, hashlib, struct
from fractions import Fraction
from sym import *
import sym, summ
from summ import tysz

class Skip(Exception): pass
class Undef(Skip): pass             # an uninitialised value is used
class Diverge(Exception): pass      # a loop that steps over its end

def _h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'little')

POOL = [0.0, 1.0, -1.0, 0.5, 2.0, -0.25, 0.75, 3.0, -2.0, 0.125, -0.5, 0.25]
INTPOOL = (0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 24)     # results of opaque integer functions
class Val:
    def __init__(s, seed, scale=1, special=False, maxdim=4, args=None, pool=POOL, ints=()):
        s.seed = seed; s.scale = scale; s.special = special; s.maxdim = maxdim; s.args = {}; s.bases = {}
        s.over = args or {}; s.pool = pool; s.ints = ints
        s.steps = 0; s.memo = {}; s.act = 0; s.force = {}; s.trace = None; s.fixed = set(); s.wrap = False
    def tick(s, n=1):
        s.steps += n
        if s.steps > 400000: raise Skip('budget')
    def real(s, *key):
        h = _h(s.seed, *key)
        if s.special or h % 5 == 0: return s.pool[(h >> 8) % len(s.pool)]
        v = ((h >> 8) % 100003) / 100003.0
        return round(0.05 + 1.9 * v, 6) * (-1 if (h >> 40) % 3 == 0 else 1)
    def near(s, h):
        """now and then an integer at or next to one the normal forms compare with"""
        if not s.ints or s.scale != 1 or (h >> 16) % 3: return None
        return s.ints[(h >> 24) % len(s.ints)]
    def unit(s, *key):
        h = _h(s.seed, 'u', *key); return round(0.02 + 0.96 * ((h >> 8) % 100003) / 100003.0, 6)
    def base(s, a):
        b = s.bases.get(a)
        if b is None: b = (len(s.bases) + 1) << 40; s.bases[a] = b
        return b
    def arg(s, d):
        nm, ty = d[1], d[2]
        if s.trace is not None: s.trace.append(('arg', nm))
        if nm in s.over: s.args[nm] = s.over[nm]; return s.over[nm]
        if ('arg', nm) in s.force: s.args[nm] = s.force[('arg', nm)]; return s.args[nm]
        if ty in ('float', 'double'):
            v = s.unit('arg', nm) if nm[:1] == 'p' else s.real('arg', nm)
        elif ty == 'i1': v = _h(s.seed, 'arg', nm) % 2 == 1
        else:
            h = _h(s.seed, 'arg', nm)
            near = s.near(h) if ty != 'i8' else None
            if near is not None and near >= (1 if nm[:1] in 'rcn' else 0): v = near
            elif nm[:1] in 'rcn': v = 1 + h % s.maxdim
            elif nm[:1] == 'z': v = h % s.maxdim
            else: v = h % (s.maxdim + 2) if ty == 'i8' else (h % (2 * s.maxdim)) - (1 if nm[:1] == 'x' else 0)
        s.args[nm] = v
        return v
    # ---- expressions; env: atom -> number (bound variables)
    def ev(s, x, env):
        if isinstance(x, bool): return x
        if isinstance(x, Poly): return s.poly(x, env)
        if isinstance(x, Node):
            while isinstance(x, Node): x = x.hi if s.cond(x.c, env) else x.lo
            return s.ev(x, env)
        if isinstance(x, tuple): return tuple(s.ev(y, env) for y in x)
        if isinstance(x, Fraction): return int(x) if x.denominator == 1 else float(x)
        return x
    def poly(s, p, env):
        s.tick()
        r = 0
        for m, c in p.t:
            t = int(c) if c.denominator == 1 else float(c)
            for a, e in m:
                v = s.at(a, env)
                if isinstance(v, bool): v = int(v)
                if isinstance(v, tuple): raise Skip('tuple')
                if e < 0:
                    if v == 0: raise Skip('div0')
                    t = t * (1.0 / float(v)) ** (-e)
                else: t = t * v ** e
            r = r + t
        if isinstance(r, float) and (r != r or (abs(r) > 1e150 and not (abs(r) == math.inf and any(adata(a)[0] == 'fpc' for m, c in p.t for a, e in m)))): raise Skip('range')
        return r
    def at(s, a, env):
        if a in env: return env[a]
        d = adata(a); k = d[0]
        closed = not env
        if closed and a in s.memo: return s.memo[a]
        v = s.at1(a, d, k, env)
        if closed: s.memo[a] = v
        return v
    def at1(s, a, d, k, env):
        if k == 'arg': return s.base(a) if d[2] == 'ptr' else s.arg(d)
        if k in ('alloca', 'global', 'func'): return s.base(a)
        if k == 'ld': return s.load(d, env)
        if k == 'P': return s.ev(d[1], env)
        if k == 'sum':
            tc = s.ev(d[1], env); r = 0
            if not isinstance(tc, int): raise Skip('tc')
            if tc > 3000: raise Skip('big')
            e = dict(env); tl = s.tiles(d[1], env) if summ.tiled(d[3]) else ()
            for j in range(max(0, tc)):
                e[d[2]] = j
                for g in tl: g(j, e)
                r = r + s.ev(d[3], e)
            return r
        if k == 'rec': return s.rec(d, env)
        if k == 'first': return s.first(d, env)[1]
        if k == 'Bexists': return s.first(d, env)[0]
        if k == 'fn': return s.fn(d[1], [s.ev(x, env) if not isinstance(x, str) else x for x in d[2:]])
        if k == 'div':
            n, m = s.ev(d[1], env), s.ev(d[2], env)
            if m == 0: raise Skip('div0')
            if isinstance(n, float) or isinstance(m, float): raise Skip('fdiv')
            q = abs(n) // abs(m); q = q if (n >= 0) == (m >= 0) else -q
            if d[3] == 'floor': return n // m
            if d[3] == 'exact' and n % m: raise Skip('inexact')
            return q
        if k == 't32':
            v = s.ev(d[1], env)
            # a value no 32-bit quantity holds has wrapped
            return v & 0xffffffff if s.wrap and isinstance(v, int) and not -(1 << 31) <= v < 1 << 32 else v
        if k == 'bit':
            x, y = s.ev(d[2], env), s.ev(d[3], env)
            if not isinstance(x, int) or not isinstance(y, int): raise Skip('bit')
            return {'and': x & y, 'or': x | y, 'xor': x ^ y}[d[1]]
        if k in ('shl', 'lshr', 'ashr'):
            x, y = s.ev(d[1], env), s.ev(d[2], env); return x << y if k == 'shl' else x >> y
        if k == 'fpc': return float(d[1].replace('-nan', 'nan')) if 'inf' in d[1] else self_nan()
        if k == 'call':
            if summ.tile_atom(a): raise Skip('part')
            xs = s.ev(d[2], env)
            if a in summ.PTR_ATOMS and d[1] in summ.ALLOCFN and s.seed[1] % 4 == 3 and _h(s.seed, 'nil', d[1], xs, d[3]) % 2: return 0
            if a in summ.PTR_ATOMS: return ((_h(s.seed, 'cp', d[1], xs, d[3]) % 1000003) + (1 << 21)) << 40
            ck = ('call', d[1], xs, d[3])
            if s.trace is not None: s.trace.append(ck)
            if ck in s.force: return s.force[ck]
            if d[1] in summ.INTCALL:
                h = _h(s.seed, 'call', d[1], xs, d[3]); nr = s.near(h)
                return INTPOOL[(h >> 8) % len(INTPOOL)] if nr is None else nr
            return s.real('call', d[1], xs, d[3])
        if k == 'inf': return 1 << 20
        if k == 'divzero': raise Skip('div0')
        if k == 'undef': raise Undef(k)
        if k in ('opaque', 'opq', 'ev', 'iv', 'ph', 'loopin'): raise Skip(k)
        if k in ('k', 'b', 'rk', 'rv'): raise Skip('unbound ' + k)
        raise Skip(k)
    def jobs(s, e, mem, calls):
        """an effect that depends on how the range was shared out, other than through the index of a loop over the range, happens once per part"""
        xs = (e.guard, e.addr if e.kind == 'store' else None) + (e.val if isinstance(e.val, tuple) else (e.val,)) + tuple(t for k, t in e.doms)
        at = {a for x in xs if not isinstance(x, (bool, str)) and x is not None for a in fv(x) if summ.tile_atom(a)}
        if not at or e.kind == 'call' or any(isinstance(t, Poly) and summ.pdivmod(t, N)[1] == summ.ZERO for k, t in e.doms for N in {adata(a)[2][0] for a in at}): return s.eff(e, 0, {}, mem, calls)
        Ns = {adata(a)[2][0] for a in at}
        if len(Ns) != 1: raise Skip('part')
        cut = s.cuts(s.ev(Ns.pop(), {}))
        for u, v in zip(cut, cut[1:]):
            if u < v: s.eff(e, 0, {a: u if adata(a)[1] == 'vp_po' else v - u for a in at}, mem, calls)
    def cuts(s, n):
        if not isinstance(n, int): raise Skip('part')
        return [0] + sorted(_h(s.seed, 'cut', x) % (n + 1) for x in range(2)) + [n]
    def tiles(s, t, env):
        """binders of the worker part that holds index j of a loop over t = q*N (parts of N as shared out among workers)"""
        out = []
        for a, N in summ.TILE.items():
            q, rest = summ.pdivmod(t, N)
            if rest != summ.ZERO or q == summ.ZERO: continue
            if a in env: raise Skip('nested parts')
            n = s.ev(N, env); qv = s.ev(q, env)
            if not isinstance(n, int) or not isinstance(qv, int) or qv < 1: raise Skip('part')
            cut = s.cuts(n)
            def g(j, e, a=a, cut=cut, qv=qv, po=adata(a)[1] == 'vp_po'):
                x = j // qv
                for u, v in zip(cut, cut[1:]):
                    if u <= x < v: e[a] = u if po else v - u; return
            out.append(g)
        return out
    def load(s, d, env):
        p = s.ev(d[1], env); ty = d[2]
        if not isinstance(p, int): raise Skip('addr')
        key = ('ld', p)
        if d[3] != 0:      # memory handed to an opaque call: its content afterwards is a function of the call and the address
            vt = d[3]; b = summ.base_of(d[1])
            if not (isinstance(vt, tuple) and len(vt) == 1 and isinstance(vt[0], tuple) and len(vt[0]) == 5 and vt[0][0] == 'call' and isinstance(vt[0][1], str) and vt[0][4] == ()): raise Skip('versioned load')
            if b is None or not any(b in fv(x) for x in vt[0][2]) or not s.ev(vt[0][3], env): raise Skip('versioned load')
            key = ('ldv', p, vt[0][1], s.ev(vt[0][2], env))
        if s.trace is not None and ty != 'ptr': s.trace.append(key)
        if key in s.force and ty != 'ptr': return s.force[key]
        if ty in ('float', 'double'): return s.real(*key)
        if ty == 'ptr':
            a = (d[1], )
            return ((_h(s.seed, 'lp', p) % 1000003) + (1 << 20)) << 40
        h = _h(s.seed, *key)
        if ty in ('i1',): return h % 2 == 1
        if ty == 'i8': return h % 2
        return h % (s.maxdim + 1)
    def rec(s, d, env):
        tc = s.ev(d[1], env)
        if not isinstance(tc, int): raise Skip('tc')
        if tc > 3000: raise Skip('big')
        st = [s.ev(x, env) for x in d[2]]
        e = dict(env); rk = atom('rk'); rv = [atom('rv', n) for n in range(len(st))]
        tl = s.tiles(d[1], env) if summ.tiled(*d[3]) else ()
        for j in range(max(0, tc)):
            e[rk] = j
            for g in tl: g(j, e)
            for n, v in enumerate(st): e[rv[n]] = v
            st = [s.ev(x, e) for x in d[3]]
        return st[0]
    def first(s, d, env):
        tc = s.ev(d[1], env)
        e = dict(env)
        for j in range(min(max(0, tc), 3000)):
            e[d[2]] = j
            if s.ev(d[3], e): return (True, j)
        if tc > 3000: raise Skip('big')
        return (False, tc)
    def fn(s, n, a):
        try:
            if n == 'bitcast': raise Skip('bitcast')
            if n in ('exp', 'log', 'sqrt', 'tanh', 'sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'log2', 'log10', 'erf', 'pow', 'fmod'): return getattr(math, n)(*[float(x) for x in a])
            if n == 'exp2': return 2.0 ** a[0]
            if n == 'cbrt': return math.copysign(abs(a[0]) ** (1 / 3), a[0])
            if n == 'trunc': return int(a[0])
            if n in ('floor', 'ceil'): return getattr(math, n)(a[0])
            if n in ('round', 'lround', 'llround'): return int(math.floor(abs(a[0]) + 0.5)) * (1 if a[0] >= 0 else -1)
            if n in ('rint', 'nearbyint', 'lrint', 'llrint'): return round(a[0])
            if n == 'splat': return 0.0 if a[0] == 0 else s.real('splat', a[0], a[1])
            if n == 'ctpop': return bin(a[0]).count('1')
        except (ValueError, OverflowError, ZeroDivisionError, TypeError): raise Skip('domain')
        raise Skip(n)
    def cond(s, c, env):
        if c in env: return bool(env[c])
        d = adata(c); k = d[0]
        if k in ('lt', 'gt', 'eq'):
            v = s.ev(d[1], env); th = d[2]
            if not d[3] and k != 'eq' and 50 < abs(th) < (1 << 30) and isinstance(v, int) and s.scale != 1 and summ.isint(d[1]): th = th / s.scale
            if isinstance(v, float) and k != 'eq' and abs(v - float(th)) < 1e-9 * max(1.0, abs(v)) and v != float(th): raise Skip('tie')
            if k == 'lt': return v < th
            if k == 'gt': return v > th
            return v == th or (isinstance(v, float) and abs(v - float(th)) < 1e-12 * max(1.0, abs(v)))
        if k == 'ult':
            x, y = s.ev(d[1], env), s.ev(d[2], env)
            if not isinstance(x, int) or not isinstance(y, int): raise Skip('ult')
            return (x & (2**64 - 1)) < (y & (2**64 - 1))
        if k == 'arg': return s.arg(d)
        if k == 'ld': return s.load(d, env)
        if k == 'nan':      # an uninterpreted predicate of the cell it is about; only asked for in the valuations meant for it
            if s.seed[1] % 8 != 5: return False
            q = d[1]; at = list({a for m, c in q.t for a, e in m}) if isinstance(q, Poly) else []
            if len(at) != 1 or adata(at[0])[0] not in ('ld', 'arg', 'call'): return False
            x = adata(at[0]); w = s.ev(x[1], env) if x[0] == 'ld' else ((x[1], s.ev(x[2], env)) if x[0] == 'call' else x[1])
            return _h(s.seed, 'nan', w) % 7 == 0
        if k == 'rec': return s.rec(d, env)
        if k == 'Bexists': return s.first(d, env)[0]
        if k == 'call':
            ck = ('call', d[1], s.ev(d[2], env), d[3])
            if s.trace is not None: s.trace.append(ck)
            return s.force[ck] if ck in s.force else _h(s.seed, *ck) % 2 == 1
        raise Skip(k)
    # ---- guidance: make the conditions on the way to one effect true, so that rare paths are evaluated too
    def guide(s, S, targets, rnd):
        try:
            e = rnd.choice(targets); env = {}
            if e is None: s.descend(S['ret'], env, rnd); return
            for k, t in e.doms:
                j = rnd.choice((0, 0, 1, 1, 2))
                if isinstance(t, Poly) and not any(adata(a)[0] == 'inf' for a in fv(t)): s.solve('gt', t, j, True, env)
                env[k] = j
            s.descend(e.guard, env, rnd)
            for x in ((e.addr, ) if e.kind == 'store' else ()) + (e.val if isinstance(e.val, tuple) else (e.val, )): s.descend(x, env, rnd)
        except (Skip, OverflowError, TypeError, ZeroDivisionError): pass
        finally: s.trace = None; s.memo.clear()
    def descend(s, x, env, rnd):
        n = 0
        while isinstance(x, Node) and n < 400:
            n += 1
            w = True if x.lo is False else False if x.hi is False else rnd.random() < .5
            d = adata(x.c); v = None
            try:
                if d[0] in ('lt', 'gt', 'eq') and isinstance(d[1], Poly): v = s.solve(d[0], d[1], d[2], w, env)
                elif d[0] in ('call', 'ld', 'arg'):
                    s.trace = []; v = s.cond(x.c, env)
                    if s.trace:
                        key = s.trace[-1]
                        if v != w and key not in s.fixed and not (key[0] == 'arg' and key[1] in s.over): s.force[key] = w; s.memo.clear(); v = w
                        s.fixed.update(s.trace)
                else: v = s.cond(x.c, env)
            except Skip: v = w
            x = x.hi if v else x.lo
    def solve(s, rel, p, th, want, env):
        def truth():
            s.trace = []; v = s.ev(p, env)
            return v, {'lt': v < th, 'gt': v > th, 'eq': v == th}[rel]
        v, now = truth(); keys = list(s.trace)
        if now != want:
            isint = isinstance(v, int) and th == int(th)
            goal = {('lt', True): th - 1, ('lt', False): th, ('gt', True): th + 1, ('gt', False): th, ('eq', True): th, ('eq', False): th + 1}[rel, want]
            for m, c in p.t:
                if len(m) != 1 or m[0][1] != 1 or abs(c) != 1: continue
                a = m[0][0]
                if a in env or adata(a)[0] not in ('arg', 'call', 'ld'): continue
                s.trace = []; x = s.at(a, env)
                if not s.trace or isinstance(x, tuple): s.memo.clear(); s.at(a, env)
                if not s.trace: continue
                key = s.trace[-1]
                if key in s.fixed or isinstance(x, bool): continue
                y = x + (goal - v) * int(c)
                if isint:
                    y = int(y)
                    if y > 40 or y < (1 if key[0] == 'arg' and key[1][:1] in 'rcn' else 0): continue
                else: y = float(y)
                if key[0] == 'arg' and key[1] in s.over: continue
                old = s.force.get(key); s.force[key] = y; s.memo.clear()
                v2, n2 = truth()
                if n2 == want: keys = list(s.trace); now = n2; break
                if old is None: del s.force[key]
                else: s.force[key] = old
                s.memo.clear()
        s.fixed.update(keys)
        return now
    # ---- whole summary
    def run(s, S, keep):
        # the three observables (memory, calls, result) are evaluated independently: one that cannot be evaluated under this valuation is None
        mem = {}; calls = []; why = None; undef = None
        for kind in ('store', 'call'):
            for g in groups([e for e in S['eff'] if (e.kind == 'call') == (kind == 'call') and not summ.unseen(e)], 0):
                try:
                    if len(g) == 1: s.jobs(g[0], mem, calls)
                    else: s.group(g, 0, {}, mem, calls)
                except (Skip, OverflowError, TypeError, ZeroDivisionError) as ex:
                    why = why or ex
                    if kind == 'call': calls = None
                    else: mem = None
                    if isinstance(ex, Undef) and not any(loopy((e.guard, e.addr, e.val, tuple(d[1] for d in e.doms))) for e in g): undef = undef or (g[0].kind, g[0].loc)
                    break
        if mem is not None: mem = {a: v for a, v in mem.items() if v[0] is not None}
        try: ret = s.ev(S['ret'], {}) if S['ret'] is not None else None
        except (Skip, OverflowError, TypeError, ZeroDivisionError) as ex: 
            why = why or ex; ret = NOVAL
            if isinstance(ex, Undef) and not loopy(S['ret']): undef = undef or ('ret', None)
        s.undef = undef
        return mem, calls, ret, why
    def group(s, g, n, env, mem, calls):
        """effects of one loop: iteration by iteration"""
        if len(g) == 1: return s.eff(g[0], n, env, mem, calls)
        k, t = g[0].doms[n]; tc = s.ev(t, env)
        if tc == INF and all(bounded(e, k) for e in g):
            sub = groups(g, n + 1)
            return s.until(lambda j: [s.group(h, n + 1, {**env, k: j}, mem, calls) for h in sub], mem, calls)
        if not isinstance(tc, int) or tc > 3000: 
            for e in g: s.eff(e, n, env, mem, calls)
            return
        sub = groups(g, n + 1)
        for j in range(max(0, tc)):
            env2 = dict(env); env2[k] = j
            for h in sub: s.group(h, n + 1, env2, mem, calls)
    def until(s, f, mem, calls):
        """a loop left from inside: its guard says when; over once nothing happens for long (an activity that goes on, or comes back late, is not evaluated)"""
        last = -1
        for j in range(120):
            n0 = s.act; f(j)
            if s.act != n0: last = j
            if j >= max(2*last + 12, 40): return
        raise Skip('tc')
    def eff(s, e, n, env, mem, calls):
        if n < len(e.doms):
            k, t = e.doms[n]; tc = s.ev(t, env)
            if (isinstance(tc, float) and not float(tc).is_integer()) or tc == 1 << 20:
                if isinstance(e.guard, bool) or not any(adata(a)[0] in ('k', 'first', 'Bexists', 'rec') or a == k for a in fv(e.guard)): raise Diverge()
                if tc != INF or not bounded(e, k): raise Skip('tc')
                return s.until(lambda j: s.eff(e, n + 1, {**env, k: j}, mem, calls), mem, calls)
            if not isinstance(tc, int) or tc > 3000: raise Skip('tc %r' % (tc,))
            tl = s.tiles(t, env) if isinstance(t, Poly) and summ.tiled(e.guard, e.addr if e.kind == 'store' else None, *(e.val if isinstance(e.val, tuple) else (e.val,))) else ()
            for j in range(max(0, tc)):
                env2 = dict(env); env2[k] = j
                for g in tl: g(j, env2)
                s.eff(e, n + 1, env2, mem, calls)
            return
        s.tick()
        if not s.ev(e.guard, env): return
        s.act += 1
        if e.kind == 'call':
            nm = e.addr
            calls.append((nm if isinstance(nm, str) else ('ind', s.ev(nm[1], env)), () if nm in summ.CTLWORD else tuple(s.ev(x, env) for x in e.val), e.loc)); return
        a = s.ev(e.addr, env)
        if not isinstance(a, int): raise Skip('addr')
        mem[a] = (s.ev(e.val, env), tysz(e.ty), e.loc)
GUIDED = 160
NOVAL = ('no value',); INF = 1 << 20
def bounded(e, k):
    """the guard of e depends on the iteration"""
    return not isinstance(e.guard, bool) and (k in fv(e.guard) or any(adata(a)[0] in ('rec', 'first', 'Bexists') for a in fv(e.guard)))
def groups(l, n):
    """neighbouring effects of one loop (the same counter at depth n), unless it runs over a range shared out among workers"""
    out = []
    for e in l:
        tl = any(summ.tile_atom(a) for x in (e.guard, e.addr if e.kind == 'store' else None) + (e.val if isinstance(e.val, tuple) else (e.val,)) + tuple(t for k, t in e.doms) if not isinstance(x, (bool, str)) and x is not None for a in fv(x))
        if out and n < len(e.doms) and not tl and not out[-1][1] and n < len(out[-1][0][0].doms) and out[-1][0][0].doms[n] == e.doms[n]: out[-1][0].append(e)
        else: out.append(([e], tl))
    return [g for g, tl in out]
def commute(p, q):
    """two neighbouring opaque steps that touch different objects (each writes at most what its pointer arguments point to) may come in either order"""
    if not all(isinstance(c[0], str) and (c[0].startswith('vp_ao_') or 'free' in c[0]) and c[1] and isinstance(c[1][0], int) and c[1][0] >> 40 for c in (p, q)): return False
    a, b = ([x for x in c[1] if isinstance(x, int) and not isinstance(x, bool) and x >> 40] for c in (p, q))
    return a[0] not in b and b[0] not in a
def canon(cs):
    cs = list(cs); n = len(cs)
    if n > 400: return cs
    for i in range(1, n):
        j = i
        while j and commute(cs[j - 1], cs[j]) and (str(cs[j][0]), str(cs[j][1])) < (str(cs[j - 1][0]), str(cs[j - 1][1])): cs[j - 1], cs[j] = cs[j], cs[j - 1]; j -= 1
    return cs
def loopy(x, seen=None):
    """does x depend on where an early-exit loop stops?  (an uninitialised component there may belong to a path that is not taken)"""
    seen = set() if seen is None else seen
    if isinstance(x, (Node, Poly)):
        if x in seen: return False
        seen.add(x)
    if isinstance(x, Node): return loopa(x.c, seen) or loopy(x.hi, seen) or loopy(x.lo, seen)
    if isinstance(x, Poly): return any(loopa(a, seen) for m, c in x.t for a, e in m)
    if isinstance(x, tuple): return any(loopy(y, seen) for y in x)
    return False
def loopa(a, seen):
    if a in seen: return False
    seen.add(a); d = adata(a)
    return d[0] in ('first', 'Bexists', 'rec', 'inf') or any(loopy(y, seen) for y in d[1:])
def self_nan(): raise Skip('nan')

def close(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
    if isinstance(x, (bool, int)) and isinstance(y, (bool, int)): return int(x) == int(y)
    if isinstance(x, (int, float, bool)) and isinstance(y, (int, float, bool)):
        if x == y: return True
        x, y = float(x), float(y)
        if x != x or y != y: return x != x and y != y
        return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))
    return x == y

def thresholds(*SS, ints=False):
    """constants the two normal forms compare against: values at and next to them belong among the valuations"""
    seen = set(); out = set()
    def walk(x, depth=0):
        if depth > 60 or len(seen) > 20000: return
        if isinstance(x, Node):
            if x in seen: return
            seen.add(x); atom_(x.c, depth); walk(x.hi, depth + 1); walk(x.lo, depth + 1)
        elif isinstance(x, Poly):
            for m, c in x.t:
                for a, e in m: atom_(a, depth)
        elif isinstance(x, tuple):
            for y in x: walk(y, depth + 1)
    def atom_(a, depth):
        if a in seen: return
        seen.add(a); d = adata(a)
        if ints and d[0] in ('lt', 'gt', 'eq') and isinstance(d[1], Poly) and summ.isint(d[1]) and 7 < abs(d[2]) <= 1200: out.add(int(abs(d[2])))
        if not ints and d[0] in ('lt', 'gt', 'eq') and isinstance(d[1], Poly) and not summ.isint(d[1]):
            try:
                th = float(d[2])
                if abs(th) < 1e6: out.add(th)
            except (TypeError, ValueError, OverflowError): pass
        for y in d[1:]:
            if isinstance(y, (Node, Poly, tuple)): walk(y, depth + 1)
    for S in SS:
        for e in S['eff']:
            for x in (e.guard, e.val, e.addr): walk(x)
        walk(S['ret'])
    if ints: return sorted(v for th in sorted(out)[:6] for v in (th - 1, th, th + 1))
    out -= {0.0}
    return sorted(v for th in list(out)[:6] for v in (th, th, th + 1, th - 1))

BIG = 24; BIGS = (46340, 65535, 92681, 100000, 131071, 1000000, 2000000)    # counts whose products leave 32 bits: functions without effects only
def separate(I, S, tries=160, seed=0, overrides=None):
    """-> (text, location) of a separating valuation, or None; second result: number of valuations evaluated"""
    done = 0; skipped = {}; pool = POOL + thresholds(I, S); ints = thresholds(I, S, ints=True)
    def ident(e): return (e.kind, e.guard, e.addr, e.val, tuple(e.doms))
    both = [{ident(e) for e in X['eff'] if not summ.unseen(e)} for X in (I, S)]
    targets = [(X, [e for e in X['eff'] if not summ.unseen(e) and ident(e) not in both[1 - n]] + ([None] if isinstance(X['ret'], Node) and I['ret'] != S['ret'] else [])) for n, X in enumerate((I, S))]
    targets = [x for x in targets if x[1]]; began = time.time()
    big = BIG if not I['eff'] and not S['eff'] and 't32' in repr(I['ret']) else 0; seen = {}
    for t in range(tries + (GUIDED if targets else 0) + big):
        last = t >= tries + (GUIDED if targets else 0)
        if t >= tries and not last and time.time() - began > 40: continue
        rnd = random.Random(seed * 7919 + t)
        scale = [1, 1, 10 ** 6, rnd.choice([30, 100, 300, 1000, 3000, 10000, 30000])][t % 4] if t < tries else 1
        V = Val((seed, t), scale, pool=pool, ints=ints if t % 2 else (), special=(t % 3 == 2), maxdim=[3, 2, 5, 7][(t // 4) % 4], args=(overrides[t % len(overrides)] if overrides else None))
        if last: V.wrap = True; V.over = {**V.over, **{nm: rnd.choice(BIGS) + rnd.randrange(9) for nm in seen}}
        elif t >= tries: V.guide(*rnd.choice(targets), rnd)
        try:
            wi = None; div = False
            try: mi, ci, ri, wi = V.run(I, True)
            except Diverge: div = True
            ui = getattr(V, 'undef', None)
            try: ms, cs, rs, ws = V.run(S, True)
            except Diverge: raise Skip('reference')
            if div: return ('with ' + ', '.join('%s=%s' % kv for kv in sorted(V.args.items(), key=lambda z: z[0])) + ': a loop steps over its end, reference ends', None), done
            why = ws or wi
            seen.update({k: 1 for k, v in V.args.items() if k[:1] in 'rcn' and isinstance(v, int) and not isinstance(v, bool)})
            if why is None: done += 1
            where = 'with ' + ', '.join('%s=%s' % kv for kv in sorted(V.args.items(), key=lambda z: z[0]))
            if scale != 1: where += ' (size thresholds divided by %d)' % scale
            inv = {b: summ.astr(a) for a, b in V.bases.items()}
            def an(a):
                b = (a >> 40) << 40
                return '%s+%d' % (inv.get(b, hex(a >> 40)), a - b)
            for a in sorted(set(mi) | set(ms)) if mi is not None and ms is not None else ():
                if a in mi and a in ms:
                    if mi[a][1] != ms[a][1] or not close(mi[a][0], ms[a][0]): return ('%s: location %s receives %r, reference %r' % (where, an(a), mi[a][0], ms[a][0]), mi[a][2]), done
                    continue
                have = mi.get(a) or ms.get(a)
                # a store of the value already present is not a difference
                ty = {4: 'float', 8: 'double', 1: 'i8'}.get(have[1])
                if isinstance(have[0], float):
                    try:
                        if close(have[0], V.real('ld', a)): continue
                    except Skip: pass
                if a in mi: return ('%s: writes %s, which the reference does not' % (where, an(a)), mi[a][2]), done
                return ('%s: does not write %s' % (where, an(a)), None), done
            if ci is not None and cs is not None: ci = canon(ci); cs = canon(cs)
            for n in range(max(len(ci), len(cs))) if ci is not None and cs is not None else ():
                if n >= len(ci): return ('%s: misses call %s' % (where, cs[n][0]), None), done
                if n >= len(cs): return ('%s: extra call %s' % (where, ci[n][0]), ci[n][2]), done
                if ci[n][0] != cs[n][0] or not close(ci[n][1], cs[n][1]): return ('%s: call %s%r, reference %s%r' % (where, ci[n][0], ci[n][1], cs[n][0], cs[n][1]), ci[n][2]), done
            if ri is not NOVAL and rs is not NOVAL and not close(ri, rs): return ('%s: returns %r, reference %r' % (where, ri, rs), None), done
            if ui is not None and ws is None: return ('%s: %s uses an uninitialised value' % (where, {'ret': 'the result', 'call': 'a call', 'store': 'a store'}.get(ui[0], ui[0])), ui[1]), done
            if why is not None: raise why
        except Skip as ex: skipped[str(ex)] = skipped.get(str(ex), 0) + 1; continue
        except (OverflowError, TypeError, ZeroDivisionError, RecursionError) as ex:
            skipped[type(ex).__name__] = skipped.get(type(ex).__name__, 0) + 1; continue
    return None, (done, skipped)
