"""Comparison of two function summaries: final memory state, ordered opaque calls and the returned value."""
from sym import *
import sym, summ
from fractions import Fraction
from summ import Eff, base_of, tysz, LOOPBOUND, _mk_coeff, prove_ge0, simp, injective, isint, fv, subst

class Undecided(Exception): pass

# ------------------------------------------------------------ leaf equality under an environment
def env_simp(x, env, depth=0):
    """resolve, inside atoms, the conditions the environment decides; drop empty sums/recurrences"""
    if isinstance(x, Node):
        d = env.decide(x.c)
        if d is not None: return env_simp(x.hi if d else x.lo, env, depth)
        hi = env_simp(x.hi, env, depth); lo = env_simp(x.lo, env, depth)
        return vite(node(x.c, True, False), hi, lo)
    if isinstance(x, tuple): return tuple(env_simp(y, env, depth) for y in x)
    if not isinstance(x, Poly) or depth > 6: return x
    mp = {}
    for a in {a for m, c in x.t for a, e in m}:
        d = adata(a)
        if d[0] in ('sum', 'rec'):
            tc = d[1]
            if isinstance(tc, Poly):
                z = c_lt0(psub(tc, ONE), False)
                if isinstance(z, Node):
                    dz = decide_v(z, env)
                else: dz = z
                if dz is True:
                    mp[a] = ZERO if d[0] == 'sum' else d[2][0]; continue
        if any(isinstance(y, (Node, tuple, Poly)) for y in d[1:]) and d[0] in ('sum', 'rec', 'fn', 'ld', 'P', 'div', 't32', 'call'):
            nd = tuple([d[0]] + [env_simp(y, env, depth + 1) if isinstance(y, (Node, Poly)) or (isinstance(y, tuple) and d[0] == 'rec') else y for y in d[1:]])
            if nd != d: mp[a] = rebuild_data(nd, a)
    if not mp: return x
    r = subst(x, mp)
    return r
def rebuild_data(nd, a):
    if nd[0] == 'rec': return summ.mkrec(nd[1], nd[2], nd[3], False, a in summ.PTR_ATOMS)
    if nd[0] == 'sum': return summ.vsum(nd[1], nd[2], nd[3])
    return sym.rebuild(nd)
def decide_v(z, env):
    while isinstance(z, Node):
        d = env.decide(z.c)
        if d is None: return None
        z = z.hi if d else z.lo
    return z

def merge_sums(p):
    """f(-1) + sum_{k<n} f(k)  ->  sum_{k<n+1} f(k-1);   sum_{k<n} f(k) + f(n) -> sum_{k<n+1} f(k);  adjacent sums"""
    for _ in range(12):
        ch = False
        d = dict(p.t)
        for m, c in p.t:
            sa = [(a, e) for a, e in m if adata(a)[0] == 'sum']
            if len(sa) != 1 or sa[0][1] != 1: continue
            a = sa[0][0]; _, tc, kv, body = adata(a)
            if not isinstance(tc, Poly) or not isinstance(body, (Poly, Node)): continue
            if not prove_ge0(tc): continue
            cof = pscale(sym._mk({tuple(x for x in m if x != sa[0]): Fraction(1)}), c)
            def has(x):
                """is x (a polynomial) contained in p term by term?"""
                return all(d.get(mm) == cc for mm, cc in x.t) and x.t
            lo = subst(body, {kv: const(-1)}); hi = subst(body, {kv: tc})
            if isinstance(lo, Poly) and has(pmul(cof, lo)):
                p = padd(psub(psub(p, pmul(cof, lo)), pmul(cof, avar(a))), pmul(cof, summ.vsum(padd(tc, ONE), kv, subst(body, {kv: psub(avar(kv), ONE)})))); ch = True; break
            if isinstance(hi, Poly) and has(pmul(cof, hi)):
                p = padd(psub(psub(p, pmul(cof, hi)), pmul(cof, avar(a))), pmul(cof, summ.vsum(padd(tc, ONE), kv, body))); ch = True; break
            # adjacent sum with the same cofactor
            for m2, c2 in p.t:
                s2 = [(x, e) for x, e in m2 if adata(x)[0] == 'sum']
                if m2 == m or c2 != c or len(s2) != 1 or s2[0][1] != 1: continue
                if tuple(x for x in m2 if x != s2[0]) != tuple(x for x in m if x != sa[0]): continue
                _, tc2, kv2, body2 = adata(s2[0][0])
                sh = subst(body, {kv: padd(avar(kv2), tc)})
                if sh == body2:
                    p = padd(psub(psub(p, pmul(cof, avar(a))), pmul(cof, avar(s2[0][0]))), pmul(cof, summ.vsum(padd(tc, tc2), kv, body))); ch = True; break
            if ch: break
        if not ch or not isinstance(p, Poly): break
    return p
def infeasible(env, mp):
    for q, (lo, ls, hi, hs) in env.iv.items():
        if not any(a in mp for a in fv(q)): continue
        x = subst(q, mp)
        for a in list(fv(x)):
            d = adata(a)
            if d[0] == 'div' and d[3] == 'q' and isinstance(d[1], Poly) and d[1] == d[2] and prove_ge0(psub(d[1], ONE)): x = subst(x, {a: ONE})
        if not isinstance(x, Poly): continue
        if lo is not None and (prove_ge0(psub(const(lo), x)) if ls else prove_ge0(psub(const(lo - 1), x)) if isint(x) else False): return True
        if hi is not None and (prove_ge0(psub(x, const(hi))) if hs else prove_ge0(psub(x, const(hi + 1))) if isint(x) else False): return True
    return False
def leafeq(a, b, env, depth=0):
    if not (isinstance(a, Poly) and isinstance(b, Poly)): return a == b
    if poly_equal(a, b): return True
    if depth <= 3:
        a1, b1 = merge_sums(a), merge_sums(b)
        if (a1, b1) != (a, b) and isinstance(a1, Poly) and isinstance(b1, Poly):
            if poly_equal(a1, b1): return True
            a, b = a1, b1
    if depth > 3: return False
    a2, b2 = env_simp(a, env), env_simp(b, env)
    if (a2, b2) != (a, b):
        if a2 == b2: return True
        if isinstance(a2, Node) or isinstance(b2, Node): return differ(a2, b2, env, lambda x, y, e: leafeq(x, y, e, depth + 1)) is None
        a, b = a2, b2
        if poly_equal(a, b): return True
    mp = env.points()
    if mp:
        x, y = subst(a, mp), subst(b, mp)
        if (x, y) != (a, b):
            if isinstance(x, Node) or isinstance(y, Node): return differ(x, y, env, lambda p, q, e: leafeq(p, q, e, depth + 1)) is None
            if x == y or poly_equal(x, y): return True
            if depth < 3 and leafeq(x, y, env, depth + 1): return True
        # the equalities contradict another bound of this path: it cannot be taken
        if depth == 0 and infeasible(env, mp): return True
    # align structurally similar atoms
    aa = {z for m, c in a.t for z, e in m}; bb = {z for m, c in b.t for z, e in m}
    oa = [z for z in aa - bb if adata(z)[0] in ('sum', 'rec', 'fn', 'ld', 'div', 'P')]; ob = [z for z in bb - aa if adata(z)[0] in ('sum', 'rec', 'fn', 'ld', 'div', 'P')]
    if not oa or not ob or len(oa) * len(ob) > 100: return False
    ren = {}
    for z in oa:
        for w in ob:
            if w in ren.values(): continue
            if atom_eq(z, w, env, depth + 1): ren[z] = w; break
    if not ren: return False
    a2 = subst(a, {z: avar(w) for z, w in ren.items()})
    return isinstance(a2, Poly) and poly_equal(a2, b)
def atom_eq(z, w, env, depth):
    d, e = adata(z), adata(w)
    if len(d) != len(e) or d[0] != e[0]: return False
    for x, y in zip(d[1:], e[1:]):
        if x == y: continue
        if not comp_eq(x, y, env, depth): return False
    return True
def comp_eq(x, y, env, depth):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(p == q or comp_eq(p, q, env, depth) for p, q in zip(x, y))
    if isinstance(x, (Poly, Node, bool)) and isinstance(y, (Poly, Node, bool)):
        if depth > 4: return False
        try: return differ(x, y, env, lambda p, q, e: leafeq(p, q, e, depth + 1), [20000]) is None
        except Budget: return False
    return False

def vdiffer(a, b, env=None):
    try: return differ(a, b, env, leafeq, [200000])
    except Budget: raise Undecided('comparison budget exhausted')

# ------------------------------------------------------------ regions
def norm_eff(e):
    """positive strides, domains sorted by stride, unit domains dropped, canonical variable names"""
    addr, val, guard = e.addr, e.val, e.guard
    doms = []
    for k, t in e.doms:
        if t == ONE:
            mp = {k: ZERO}; addr = subst(addr, mp); val = subst(val, mp); guard = subst(guard, mp)
        else: doms.append((k, t))
    for n, (k, t) in enumerate(doms):
        co = _mk_coeff(addr, k)
        if co.t and isinstance(t, Poly) and prove_ge0(pneg(co)):
            mp = {k: psub(psub(t, ONE), avar(k))}
            addr = subst(addr, mp); val = subst(val, mp); guard = subst(guard, mp)
    # sort: stride a before b if b - a >= 0
    import functools
    def cmpd(x, y):
        cx, cy = _mk_coeff(addr, x[0]), _mk_coeff(addr, y[0])
        if cx == cy: return 0
        if prove_ge0(psub(cy, cx)): return -1
        if prove_ge0(psub(cx, cy)): return 1
        return -1 if xstr(cx) < xstr(cy) else 1
    doms.sort(key=functools.cmp_to_key(cmpd))
    return Eff(e.kind, tuple(doms), guard, addr, val, e.ty, e.loc, e.extra)
def rename(e, names):
    mp = {k: avar(n) for (k, t), n in zip(e.doms, names)}
    nd = tuple((n, subst(t, mp)) for (k, t), n in zip(e.doms, names))
    for k, t in nd: LOOPBOUND[k] = t
    return Eff(e.kind, nd, subst(e.guard, mp), subst(e.addr, mp), subst(e.val, mp), e.ty, e.loc, e.extra)
def canon(e):
    e = norm_eff(e)
    # names depend on the trip counts so that bounds stay attached to the variable
    mp = {}
    names = []
    for n, (k, t) in enumerate(e.doms):
        t2 = simp(subst(t, mp))
        a = atom('k', 'c%d<%s' % (n, xstr(t2))); mp[k] = avar(a); names.append(a)
    return rename(e, names)
def dims(e): return tuple(t for k, t in e.doms)

def coalesce_addr(e):
    """(base address, stride, total count) when the region is contiguous (mixed radix without gaps)"""
    if not e.doms: return (e.addr, None, ONE)
    lo = subst(e.addr, {k: ZERO for k, t in e.doms})
    s0 = _mk_coeff(e.addr, e.doms[0][0]); tot = ONE
    st = s0
    for k, t in e.doms:
        if not isinstance(t, Poly): return None
        co = _mk_coeff(e.addr, k)
        if co != st: return None
        st = pmul(st, t); tot = pmul(tot, t)
    return (lo, s0, tot)
def refine(e, ref):
    """view the one dimensional contiguous region e with the dimensions of ref"""
    ce, cr = coalesce_addr(e), coalesce_addr(ref)
    if ce is None or cr is None or len(e.doms) != 1: return None
    if ce[0] != cr[0] or ce[1] != cr[1] or ce[2] != cr[2]: return None
    k = e.doms[0][0]; idx = ZERO; w = ONE
    for kk, t in ref.doms: idx = padd(idx, pmul(w, avar(kk))); w = pmul(w, t)
    mp = {k: idx}
    return Eff(e.kind, ref.doms, subst(e.guard, mp), subst(e.addr, mp), subst(e.val, mp), e.ty, e.loc, e.extra)
def window(e): return summ.window(e)
def disjoint(a, b):
    la, ha = window(a); lb, hb = window(b)
    if la is None or lb is None: return False
    return prove_ge0(psub(psub(lb, ha), const(tysz(a.ty)))) or prove_ge0(psub(psub(la, hb), const(tysz(b.ty))))

def drop_local(effs, summ_):
    """stores to non-escaping stack objects are not observable"""
    return [e for e in effs if not summ.unseen(e)]
def possible(g):
    try: return differ(g, False, None, leafeq, [3000]) is not None
    except Budget: return True
def given(v, g):
    """v simplified by what the guard g implies"""
    if not isinstance(v, Node) or not isinstance(g, Node): return v
    for c in summ._conds(v):
        if not isinstance(v, Node): break
        b = node(c, True, False)
        if not possible(band(g, b)): v = summ.restrict(v, c, False)
        elif not possible(band(g, bnot(b))): v = summ.restrict(v, c, True)
    return v
def state(effs, opts=None):
    """fold the ordered effect list into disjoint regions per base (as far as provable) and the call sequence"""
    regs = []      # list of Eff (canon)
    calls = []
    for e in effs:
        if e.kind == 'call':
            calls.append(e); regs.append(e) if False else None
            continue
        g = simp(e.guard)
        if g is False or (isinstance(g, Node) and not possible(g)): continue
        if isinstance(e.addr, Node): e = Eff(e.kind, e.doms, e.guard, given(e.addr, g), e.val, e.ty, e.loc, e.extra)
        if isinstance(e.addr, Node): raise Undecided('conditional address')
        if any(isinstance(t, Node) for k, t in e.doms): e = Eff(e.kind, tuple((k, given(t, g)) for k, t in e.doms), e.guard, e.addr, e.val, e.ty, e.loc, e.extra)
        e = canon(Eff(e.kind, e.doms, g, e.addr, simp(e.val), e.ty, e.loc, e.extra))
        regs = [o for o in regs if not overwritten(o, e)]
        again = True
        while again and e is not None:
          again = False
          b = base_of(e.addr)
          for n in range(len(regs) - 1, -1, -1):
              o = regs[n]
              if base_of(o.addr) != b and b is not None and base_of(o.addr) is not None: continue
              m = None
              if o.addr == e.addr and o.doms == e.doms and tysz(o.ty) == tysz(e.ty): m = (o, e)
              else:
                  r = refine(e, o)
                  if r is not None and tysz(o.ty) == tysz(e.ty): m = (o, r)
                  else:
                      r = refine(o, e)
                      if r is not None and tysz(o.ty) == tysz(e.ty): m = (r, e)
              if m:
                  x, y = m
                  regs[n] = Eff('store', x.doms, bor(x.guard, y.guard), x.addr, vite(y.guard, y.val, x.val), x.ty, y.loc, y.extra); e = None; break
              j = join(o, e)
              if j is not None: del regs[n]; e = canon(j); again = True; break
              if disjoint(o, e): continue
              if band(o.guard, e.guard) is False: continue
              break
        if e is not None: regs.append(e)
    return regs, calls

def overwritten(o, e):
    """every location o writes is written again by the contiguous store e"""
    if len(e.doms) != 1 or tysz(o.ty) != tysz(e.ty): return False
    k, t = e.doms[0]
    if not isinstance(t, Poly) or summ._mk_coeff(e.addr, k) != const(tysz(e.ty)): return False
    b = base_of(e.addr)
    if b is None or base_of(o.addr) != b or (isinstance(e.guard, Node) and k in fv(e.guard)): return False
    if o.addr == e.addr and o.doms == e.doms: return False
    if e.guard is not True and band(o.guard, bnot(e.guard)) is not False: return False
    lo, ho = window(o); le, he = window(e)
    if lo is None or le is None: return False
    return prove_ge0(psub(lo, le)) and prove_ge0(psub(he, ho))
def join(o, e):
    """two stores covering adjacent stretches of one index range with the same element function"""
    if tysz(o.ty) != tysz(e.ty): return None
    for x, y in ((o, e), (e, o)):
        if len(y.doms) - len(x.doms) not in (0, 1): continue
        for j, (k, t) in enumerate(y.doms):
            if not isinstance(t, Poly) or any(k in fv(tt) for kk, tt in y.doms if kk != k): continue
            rest = [d for n, d in enumerate(y.doms) if n != j]
            if len(x.doms) < len(y.doms): xs = list(x.doms); kx, tx = None, ONE; cands = [(xs, None, ONE)]
            else: cands = [([d for m, d in enumerate(x.doms) if m != n], x.doms[n][0], x.doms[n][1]) for n in range(len(x.doms))]
            for xs, kx, tx in cands:
                if not isinstance(tx, Poly) or not prove_ge0(tx) or not prove_ge0(t): continue
                if kx is not None and any(kx in fv(tt) for kk, tt in xs): continue
                nk = atom('k', 'j%d' % summ.uid()); LOOPBOUND[nk] = padd(t, tx)
                mp = {a: avar(b) for (a, _), (b, _) in zip(xs, rest)}
                if any(subst(ta, mp) != tb for (a, ta), (b, tb) in zip(xs, rest)): continue
                # x first, y next:  x(k) = y(k - tx)   |   y first, x next:  x(k) = y(k + t)
                for yoff in (psub(avar(nk), tx), avar(nk)):
                    ymp = {k: yoff}
                    if kx is None: at = ZERO if yoff != avar(nk) else t; xx = {nk: at}
                    else: xx = {}
                    ok = True
                    for fx, fy in ((x.addr, y.addr), (x.val, y.val), (x.guard, y.guard)):
                        fx = subst(fx, mp) if isinstance(fx, (Poly, Node)) else fx
                        gy = subst(fy, ymp) if isinstance(fy, (Poly, Node)) else fy
                        if kx is not None:
                            fx = subst(fx, {kx: avar(nk) if yoff != avar(nk) else psub(avar(nk), t)}) if isinstance(fx, (Poly, Node)) else fx
                        else: gy = subst(gy, xx) if isinstance(gy, (Poly, Node)) else gy
                        if not (fx == gy or simp(fx) == simp(gy)): ok = False; break
                    if ok:
                        nd = tuple((nk, padd(t, tx)) if n == j else d for n, d in enumerate(y.doms))
                        sb = lambda z: subst(z, ymp) if isinstance(z, (Poly, Node)) else z
                        return Eff('store', nd, sb(y.guard), sb(y.addr), sb(y.val), y.ty, y.loc, y.extra)
    return None

def noop(e):
    return e.val == A('ld', e.addr, e.ty, 0)

def compare(I, S):
    """list of mismatches (text, location); raises Undecided"""
    out = []
    ie, ic = state(drop_local(I['eff'], I)); se, sc = state(drop_local(S['eff'], S))
    # calls
    def ckey(c): return (c.addr, c.val, c.guard, c.doms)
    ic = canon_calls(ic); sc = canon_calls(sc)
    # allocation, release and other calls without effect on the compared state: order is immaterial
    iu = [c for c in ic if (c.extra or {}).get('ro')]; su = [c for c in sc if (c.extra or {}).get('ro')]
    ic = [c for c in ic if not (c.extra or {}).get('ro')]; sc = [c for c in sc if not (c.extra or {}).get('ro')]
    iu, su = unite(iu), unite(su)
    for c in iu:
        m = next((n for n, t in enumerate(su) if t.addr == c.addr and t.doms == c.doms and all(x == y or not vdiffer(given(x, c.guard), given(y, t.guard)) for x, y in zip(c.val, t.val)) and (t.guard == c.guard or not vdiffer(t.guard, c.guard))), None)
        if m is None: out.append(('call %s has no counterpart in the reference' % c, c.loc))
        else: del su[m]
    for c in su: out.append(('missing call %s' % c, None))
    bad = cmp_calls(ic, sc)
    if bad: bad = split_calls(ic, sc, bad)
    out += bad
    # memory
    used = set(); order = []
    for e in ie:
        m = None
        for n, t in enumerate(se):
            if n in used: continue
            if tysz(t.ty) != tysz(e.ty): continue
            if t.addr == e.addr and t.doms == e.doms: m = (n, e, t); break
            r = refine(e, t)
            if r is not None: m = (n, r, t); break
            r = refine(t, e)
            if r is not None: m = (n, e, r); break
        if m is None:
            if not noop(e): out.append(('writes %s, which the reference does not' % e, e.loc))
            continue
        n, x, y = m; used.add(n)
        for n2, e2 in order:
            if n2 > n and not disjoint(e2, e) and band(e2.guard, e.guard) is not False and (base_of(e2.addr) == base_of(e.addr)) and band(se[n2].guard, se[n].guard) is not False:
                out.append(('writes %s after %s, which overlaps it; the reference writes them in the opposite order' % (e, e2), e.loc))
        order.append((n, e))
        gx, gy = simp(x.guard), simp(y.guard)
        ld = A('ld', x.addr, x.ty, 0)
        vx = x.val if gx is True else vite(gx, x.val, ld); vy = y.val if gy is True else vite(gy, y.val, ld)
        vx, vy = simp(vx), simp(vy)
        if vx == vy: continue
        w = vdiffer(vx, vy)
        if w: out.append(('at %s (loops %s) stores %s, reference %s%s' % (xstr(x.addr), ', '.join(xstr(t) for t in dims(x)), short(w[1]), short(w[2]), envstr(w[0])), x.loc))
    for n, t in enumerate(se):
        if n not in used and not noop(t): out.append(('does not write %s' % t, None))
    # return value
    a, b = I['ret'], S['ret']
    if a != b:
        a, b = summ.exsimp(simp(a)), summ.exsimp(simp(b))
        w = vdiffer(a, b) if a is not None and b is not None else (Env(), a, b)
        if w: out.append(('returns %s, reference %s%s' % (short(w[1]), short(w[2]), envstr(w[0])), None))
    return out
def cmp_calls(ic, sc):
    out = []
    for n in range(max(len(ic), len(sc))):
        a = ic[n] if n < len(ic) else None; b = sc[n] if n < len(sc) else None
        if a is None: out.append(('missing call %s' % b, None)); break
        if b is None: out.append(('extra call %s' % a, a.loc)); break
        if a.addr != b.addr: out.append(('call %s where the reference has %s' % (a, b), a.loc)); break
        if a.doms != b.doms or vdiffer(a.guard, b.guard): out.append(('call %s happens under different conditions than %s' % (a, b), a.loc)); break
        for x, y in zip(a.val, b.val):
            if x != y and vdiffer(given(x, a.guard), given(y, b.guard)): out.append(('call argument differs: %s vs %s' % (a, b), a.loc)); break
    return out
def split_calls(ic, sc, bad):
    """the two sequences under every valuation of the (loop-independent) conditions guarding their calls: exclusive calls have no order"""
    bound = {k for c in ic + sc for k, t in c.doms}
    conds = []
    for c in ic + sc:
        for g in summ._conds(c.guard):
            if g not in conds and not (fv(avar(g)) & bound): conds.append(g)
    if not conds or len(conds) > 16: return bad
    budget = [1500]
    def go(i, s, l, g):
        if not possible(g): return []
        budget[0] -= 1
        if budget[0] < 0: return bad
        if len(l) < len(conds) - 1 or not l:
            w = cmp_calls(i, s)
            if not w or not l: return w
            left = {g for c in i + s for g in summ._conds(c.guard)}; l = [x for x in l if x in left]
            if not l: return w
        for val in (True, False):
            d = sym._adata[l[0]]; mp = None
            if val and d[0] == 'eq' and not d[3] and len(d[1].t) == 1 and d[1].t[0][1] == 1 and len(d[1].t[0][0]) == 1 and d[1].t[0][0][0][1] == 1: mp = {d[1].t[0][0][0][0]: const(d[2])}
            def arg(x):
                x = summ.restrict(x, l[0], val)
                return subst(x, mp) if mp and isinstance(x, (Poly, Node)) else x
            def cut(cs): return [Eff(c.kind, c.doms, gg, c.addr, tuple(arg(x) for x in c.val), c.ty, c.loc, c.extra) for c in cs for gg in (summ.restrict(c.guard, l[0], val),) if gg is not False]
            w = go(cut(i), cut(s), l[1:], band(g, node(l[0], val, not val)))
            if w: return w
        return []
    w = go(ic, sc, conds, True)
    return bad if w else []
def unite(l):
    """the same call under exclusive conditions is one call"""
    out = []
    for c in l:
        for n, o in enumerate(out):
            if not c.doms and not o.doms and o.addr == c.addr and o.val == c.val and band(o.guard, c.guard) is False:
                out[n] = Eff(o.kind, o.doms, bor(o.guard, c.guard), o.addr, o.val, o.ty, o.loc, o.extra); break
        else: out.append(c)
    return out
def canon_calls(l):
    """each call by itself, first iterations split off a loop put back, and calls of different loops over the same range kept apart"""
    l = [once(c) for c in l if simp(c.guard) is not False]
    for dep in range(max([len(c.doms) for c in l], default=0) - 1, -1, -1): l = rejoin(l, dep)
    out = []; prev = None; alt = False
    for c in l:
        if (c.extra or {}).get('ro'): out.append(canon_call(c)); continue
        d = c.doms[0] if c.doms else None
        if d is not None and prev is not None and d[1] == prev[1]: alt = alt if d[0] == prev[0] else not alt
        else: alt = False
        out.append(canon_call(c, '+' if alt else '')); prev = d
    return out
def once(c):
    """a loop run exactly once is no loop"""
    mp = {k: sym.ZERO for k, t in c.doms if isinstance(t, Poly) and t == const(1)}
    if not mp or (c.extra or {}).get('ro'): return c
    f = lambda x: subst(x, mp) if isinstance(x, (Poly, Node)) else x
    return Eff(c.kind, tuple((k, f(t)) for k, t in c.doms if k not in mp), f(c.guard), c.addr, tuple(f(x) for x in c.val), c.ty, c.loc, c.extra)
def under_guard(x, g, y):
    return isinstance(x, (Poly, Node)) and isinstance(y, (Poly, Node)) and simp(vite(g, x, y)) == y
def rejoin(l, dep):
    """f(0); for k in 0..t: f(k+1)  is  for k in 0..t+1: f(k)  when f(0) happens exactly if t+1 > 0"""
    i = 0
    while i < len(l):
        if len(l[i].doms) <= dep: i += 1; continue
        k, t = l[i].doms[dep]; j = i; pre = l[i].doms[:dep]
        while j < len(l) and len(l[j].doms) > dep and l[j].doms[:dep + 1] == pre + ((k, t),): j += 1
        m = j - i
        if i >= m and isinstance(t, Poly) and k not in fv(t):
            new = []; t1 = padd(t, const(1)); K = avar(k); h = i - 1; extra = 0
            none = summ.c_lt0(psub(t1, const(1)), False)
            mp = {k: const(-1)}; mk = {k: psub(K, const(1))}
            def f(x, q): return subst(x, q) if isinstance(x, (Poly, Node)) else x
            def inside(g): return summ.restrict(g, none.c, none.hi is False) if isinstance(none, Node) and isinstance(g, Node) and none.hi in (True, False) else g
            def same(p, c):
                if p.addr != c.addr or len(p.doms) != len(c.doms) - 1 or p.doms[:dep] != pre or len(p.val) != len(c.val) or (p.extra or {}).get('ro'): return False
                nd = dict(mp)
                for (pk, pt), (ck, ct) in zip(p.doms[dep:], c.doms[dep + 1:]):
                    if f(ct, nd) != pt: return False
                    nd[ck] = avar(pk)
                if not all(f(x, nd) == y or under_guard(y, p.guard, f(x, nd)) for x, y in zip(c.val, p.val)): return False
                g0 = simp(band(bnot(none), f(c.guard, nd)))
                return g0 == simp(p.guard) or not vdiffer(g0, p.guard)
            for c in reversed(l[i:j]):
                # steps of the first iteration only
                while h >= 0 and extra < 4 and not same(l[h], c) and l[h].doms == pre and not (l[h].extra or {}).get('ro') and band(none, l[h].guard) is False:
                    e = l[h]; new.append(Eff(e.kind, pre + ((k, t1),), simp(band(inside(e.guard), summ.c_lt0(psub(K, const(1)), False))), e.addr, e.val, e.ty, e.loc, e.extra)); h -= 1; extra += 1
                if h < 0 or not same(l[h], c): break
                new.append(Eff(c.kind, pre + ((k, t1),) + tuple((ck, f(ct, mk)) for ck, ct in c.doms[dep + 1:]), inside(f(c.guard, mk)), c.addr, tuple(f(x, mk) for x in c.val), c.ty, c.loc, c.extra)); h -= 1
            if len(new) == m + extra: l[h + 1:j] = new[::-1]; i = h + 1; continue
        i = j
    return l
def canon_call(c, alt=''):
    mp = {}; nd = []
    if c.addr in summ.CTLWORD:
        c = Eff(c.kind, c.doms, c.guard, c.addr, tuple(sym.ZERO if isinstance(x, Poly) and base_of(x) is not None and sym._adata[base_of(x)][0] == 'alloca' else x for x in c.val), c.ty, c.loc, c.extra)
    for n, (k, t) in enumerate(c.doms):
        t2 = subst(t, mp); a = atom('k', 'c%d%s<%s' % (n, alt, xstr(t2))); mp[k] = avar(a); nd.append((a, t2)); LOOPBOUND[a] = t2
    g = summ.exsimp(simp(subst(c.guard, mp)))
    return Eff('call', tuple(nd), g, c.addr, tuple(summ.exsimp(simp(given(subst(x, mp), g))) if isinstance(x, (Poly, Node)) else x for x in c.val), c.ty, c.loc, c.extra)
def short(x, n=160):
    t = xstr(x); return t if len(t) <= n else t[:n] + '...'
def envstr(env):
    l = ['%s%s' % ('' if v else 'not ', astr(c)) for c, v in list(env.b.items())[:6]]
    return (' when ' + ' and '.join(l)) if l else ''
