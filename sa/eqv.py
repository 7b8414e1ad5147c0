"""Equality of terms under a path condition.

verdict(a, b) is
  'eq'       canonical forms coincide after rewriting with the affine equalities entailed by the
             path condition (this is the proof),
  ('ne', w)  a valuation of the symbols that satisfies the path condition separates the two terms
             (this is what an alarm requires),
  'unk'      neither."""
import random
from . import terms as tm
from .terms import T, const, full, sgn
from .aff import E, V, ZERO, Store
from .mem import *
from .template import Template, cv, unify
from .loops import _allE, termvars, seqE, upd

def allvars(x, out):
    if isinstance(x, T): out |= termvars(x)
    elif isinstance(x, Seq):
        s = set(); seqE(x, s)
        for e in s: out |= set(e.vars())
    elif isinstance(x, E): out |= set(x.vars())
    elif isinstance(x, (list, tuple)):
        for y in x: allvars(y, out)
def saturate(store, vs):
    """make entailed equalities  x = y + c,  x = c  explicit"""
    for rnd in range(12):
        done = True
        for c, d in store.cons:
            if len(d) > 1 and store.upper(E(c, d)) == 0:
                s = store.add_eq0(E(c, d))
                if s is None: return None
                if s is not store: store = s; done = False; break
        if not done: continue
        s = pairsums(store)
        if s is None: return None
        if s is not store: store = s; continue
        vl = sorted({v for u in vs for v in store.norm(V(u)).vars()})
        for i, x in enumerate(vl):
            e = V(x); lo = store.lower(e)
            if lo is not None and store.upper(e) == lo:
                s = store.add_eq0(e-lo)
                if s is None: return None
                store = s; done = False; break
            for y in vl[:i]:
                e = V(x)-V(y); lo = store.lower(e)
                if lo is not None and store.upper(e) == lo:
                    s = store.add_eq0(e-lo)
                    if s is None: return None
                    store = s; done = False; break
            if not done: break
        if done: return store
    return store
def pairsums(store):
    """equalities from sums of two constraints whose coefficients have a common factor"""
    from math import gcd
    tight = {}
    cs = store.cons
    for i in range(len(cs)):
        for j in range(i):
            d = dict(cs[i][1])
            for v, k in cs[j][1]:
                n = d.get(v, 0)+k
                if n: d[v] = n
                else: d.pop(v, None)
            if not d or len(d) > 4: continue
            g = 0
            for k in d.values(): g = gcd(g, k)
            if g < 2: continue
            c = (cs[i][0]+cs[j][0])//g
            key = tuple(sorted((v, k//g) for v, k in d.items()))
            if key not in tight or c < tight[key]: tight[key] = c
    for c, d in cs:
        if d not in tight or c < tight[d]: tight[d] = c
    for d, c in tight.items():
        nd = tuple((v, -k) for v, k in d)
        o = tight.get(nd)
        if o is not None and o == -c: return store.add_eq0(E(c, d))
        if o is not None and o < -c: return None
    return store
def fact_subst(facts, fvals=None):
    m = {}
    for a, v in facts.items():
        if isinstance(a, T) and a.k == 'a' and a.a[0] == 'eq' and v is True:
            x, y = a.a[1], a.a[2]
            if y.k != 'c': continue
            if x.k == 'a' and x.a[0] == 'sym': m[x] = y
            elif x.k == 'b' and len(x.a) == 1 and len(x.a[0][0]) == 1 and x.a[0][0][0][0].k == 'a' and x.a[0][0][0][0].a[0] in ('sym',):
                mono, mask = x.a[0]; l, off = mono[0]
                if y.a & ~mask: continue
                lm = (mask << off if off >= 0 else mask >> -off) & full(l.w)
                val = (y.a << off if off >= 0 else y.a >> -off) & full(l.w)
                cur = m.get(l, l)
                m[l] = tm.xor(tm.and_(cur, const(l.w, full(l.w) & ~lm)), const(l.w, val))
    return m
def seqcanon(q, store, m, memo):
    b = SeqB(store)
    sm = {'vars': store.eqs} if store.eqs else None
    q2 = q.subst(lambda x: absorbed(ucv(ctlnorm(tm.subst(x, m, sm, memo), store, memo)), store), sm)
    for p in q2.p: b.add(p)
    return absorb_rep(b.seq(), store)
def canon(t, store, m, memo=None):
    if memo is None: memo = {}
    sm = {'vars': store.eqs}
    if isinstance(t, Seq): return seqcanon(t, store, m, memo)
    return absorbed(ucv(ctlnorm(tm.subst(t, m, sm, memo), store, memo)), store)
# repetitions and sums with their first or last instances written out
def normpiece(p, store):
    if p[0] == 's': return ('s', p[1], store.norm(p[2]), store.norm(p[3]))
    if p[0] == 'b' and p[1].k == 'a' and p[1].a[0] == 'sb': return ('s', p[1].a[1], store.norm(p[1].a[2]), E(1))
    if p[0] == 'f': return ('f', p[1], store.norm(p[2]))
    return p
def bodyat(p, e, store):
    from .loops import substE
    return [normpiece(x, store) for x in substE(p[3], p[1], e).p]
def match_suffix(out, body, store):
    out = [normpiece(x, store) for x in out]; body = list(body)
    while body:
        if not out: return None
        x, y = out[-1], body[-1]
        if x == y: out.pop(); body.pop(); continue
        if x[0] == 's' and y[0] == 's' and x[1] == y[1] and store.norm(x[2]+x[3]-y[2]-y[3]) == 0:
            d = store.norm(x[3]-y[3])
            if d.const is None: return None
            if d.const > 0: out[-1] = ('s', x[1], x[2], d); body.pop(); continue
            out.pop(); body[-1] = ('s', y[1], y[2], -d); continue
        return None
    return out
def match_prefix(rest, body, store):
    rest = [normpiece(x, store) for x in rest]; body = list(body)
    while body:
        if not rest: return None
        x, y = rest[0], body[0]
        if x == y: rest.pop(0); body.pop(0); continue
        if x[0] == 's' and y[0] == 's' and x[1] == y[1] and store.norm(x[2]-y[2]) == 0:
            d = store.norm(x[3]-y[3])
            if d.const is None: return None
            if d.const > 0: rest[0] = ('s', x[1], store.norm(x[2]+y[3]), d); body.pop(0); continue
            rest.pop(0); body[0] = ('s', y[1], store.norm(y[2]+x[3]), -d); continue
        return None
    return rest
def absorb_rep(q, store):
    if not any(p[0] == 'r' for p in q.p): return q
    from .loops import substE
    out = []; rest = list(q.p); ch = False
    while rest:
        p = rest.pop(0)
        if p[0] != 'r': out.append(p); continue
        for _ in range(4):
            o2 = match_suffix(out, bodyat(p, E(-1), store), store)
            if o2 is None: break
            out = o2; p = ('r', p[1], store.norm(p[2]+1), substE(p[3], p[1], V(p[1])-1)); ch = True
        for _ in range(4):
            r2 = match_prefix(rest, bodyat(p, p[2], store), store)
            if r2 is None: break
            rest = r2; p = ('r', p[1], store.norm(p[2]+1), p[3]); ch = True
        out.append(p)
    if not ch: return q
    b = SeqB(store)
    for p in out: b.add(p)
    return b.seq()
_hassum = {}
def hassum(t):
    r = _hassum.get(t)
    if r is None:
        r = (t.k == 'a' and t.a[0] in ('sum', 'upd')) or any(hassum(c) for c in tm.children(t))
        _hassum[t] = r
    return r
def absorbed(t, store):
    """peeled sums folded back, in every linear combination below t"""
    if not hassum(t): return t
    memo = {}
    def rw(t):
        if t in memo: return memo[t]
        if not hassum(t): return t
        m = {c: rw(c) for c in tm.children(t)}
        m = {c: d for c, d in m.items() if c is not d}
        r = tm.subst(t, m) if m else t
        if r.k == 'a' and r.a[0] == 'upd':
            q = absorb_rep(r.a[2], store)
            if q != r.a[2]: r = tm.REBUILD['upd'](r.w, ('upd', r.a[1], q))
        if r.k == 'l': r = sums(r, store)
        memo[t] = r
        return r
    return rw(t)
def sums(t, store):
    from .loops import substE
    for _ in range(4):
        c0, d = t.a[0], dict(t.a[1]); hit = False
        for x, c in list(d.items()):
            if not (x.k == 'a' and x.a[0] == 'sum'): continue
            for e, sh in ((E(-1), True), (x.a[2], False)):
                g = substE(x.a[3], x.a[1], e)
                g = tm.subst(g, {}, {'vars': store.eqs}) if store.eqs else g
                if g in d and d[g] == c:
                    del d[g]; del d[x]
                    body = substE(x.a[3], x.a[1], V(x.a[1])-1) if sh else x.a[3]
                    y = atom(t.w, 'sum', x.a[1], store.norm(x.a[2]+1), body)
                    d[y] = c; hit = True; break
            if hit: break
        if not hit: return t
        t = tm.from_lin(t.w, c0, d)
        if t.k != 'l': return t
    return t
_hasdiv = {}
def hasdiv(t):
    r = _hasdiv.get(t)
    if r is None:
        r = (t.k == 'a' and t.a[0] in ('udiv', 'urem', 'sdiv', 'srem')) or any(hasdiv(c) for c in tm.children(t))
        _hasdiv[t] = r
    return r
def ctlterms(t, out, seen):
    """maximal control quantities below t that contain a division"""
    if t in seen or not hasdiv(t): return
    seen.add(t)
    from .interp import isctl
    if isctl(t): out.append(t); return
    for c in tm.children(t): ctlterms(c, out, seen)
def ctlnorm(t, store, memo):
    """divisions of lengths resolved with the path condition"""
    if not hasdiv(t): return t
    from .interp import State
    key = ('ctl', store)
    cell = memo.get(key)
    if cell is None:
        st = State(); st.store = store; cell = memo[key] = (st, {})
    st, m = cell
    out = []; ctlterms(t, out, set())
    for q in out:
        if q in m: continue
        m[q] = q
        try: e = st.view(q)
        except (NeedFork, NeedForkConst, NeedForkBool, Unknown): e = None
        if e is not None:
            e = st.store.norm(e); k = st.store.constval(e)
            m[q] = const(q.w, k) if k is not None else iv(e, q.w)
    return tm.subst(t, m)
_ucv = {}
def ucv(t):
    """block applications rewritten to representatives"""
    r = _ucv.get(t)
    if r is not None: return r
    ls = leaves_cv(t)
    if not ls: r = t
    else:
        m = {l: ucv_atom(l) for l in ls}
        r = tm.subst(t, m) if any(v is not k for k, v in m.items()) else t
    _ucv[t] = r
    return r
_ucva = {}
def ucv_atom(l):
    r = _ucva.get(l)
    if r is None:
        op, Tp, i, X, seq = l.a
        r = unify(Tp, i, tuple(ucv(x) for x in X), seq.subst(ucv, None))
        _ucva[l] = r
    return r
_ivm = {}
def ivatoms(t):
    """narrow affine atoms below t"""
    r = _ivm.get(t)
    if r is None:
        r = frozenset()
        if isinstance(t, T):
            if t.k == 'a' and t.a[0] == 'iv': r = frozenset([t]) if t.w < 64 else r
            else:
                s = set()
                for c in tm.children(t): s |= ivatoms(c)
                r = frozenset(s)
        elif isinstance(t, Seq):
            s = set()
            for c in t.terms(): s |= ivatoms(c)
            r = frozenset(s)
        _ivm[t] = r
    return r
def prep(store, facts, *xs):
    vs = set()
    for x in xs: allvars(x, vs)
    s = saturate(store, vs)
    m = fact_subst(facts)
    if s is not None:
        for x in xs:
            for a in ivatoms(x): m[a] = tm.trunc(iv(s.norm(a.a[1]), 64), a.w)
    return s, m

def verdict(a, b, store, facts, tries=12, seed=1, extra=None):
    if a is b or a == b: return 'eq'
    s, m = prep(store, facts, a, b)
    if s is None: return 'eq'     # infeasible
    memo = {}
    x, y = canon(a, s, m, memo), canon(b, s, m, memo)
    if x is y or x == y: return 'eq'
    if isinstance(x, T) and isinstance(y, T) and structural(x, y, s): return 'eq'
    if isinstance(x, Seq) and isinstance(y, Seq) and (seqeq(x, y, s) or seqstructural(x, y, s)): return 'eq'
    if ctl2(x, y, s): return 'eq'
    w = refute(x, y, s, facts, tries, seed)
    if w is not None: return ('ne', w)
    return 'unk'
def ctlall(t, out, seen):
    if t in seen: return
    seen.add(t)
    from .interp import isctl
    if t.k == 'c': return
    if isctl(t):
        if t.w >= 16:
            if not (t.k == 'a' and t.a[0] == 'iv'): out.append(t)
            return
    for c in tm.children(t): ctlall(c, out, seen)
def ctl2(x, y, store):
    """compare again with every length expression replaced by its numeric view"""
    from .interp import State
    st = State(); st.store = store
    out = []; seen = set()
    for q in (x, y):
        for t in (q.terms() if isinstance(q, Seq) else [q]): ctlall(t, out, seen)
    if not out or len(out) > 200: return False
    vw = {}
    for q in out:
        try: e = st.view(q)
        except (NeedFork, NeedForkConst, NeedForkBool, Unknown): e = None
        if e is not None: vw[q] = e
    vs = set()
    for e in vw.values(): vs |= set(e.vars())
    s = saturate(st.store, vs)
    if s is None: return True
    m = {q: iv(s.norm(e), q.w) for q, e in vw.items()}
    f = lambda z: z.subst(lambda t: tm.subst(t, m, {'vars': s.eqs}), {'vars': s.eqs}) if isinstance(z, Seq) else tm.subst(z, m, {'vars': s.eqs})
    a, b = f(x), f(y)
    if a is b or a == b: return True
    if isinstance(a, T): return structural(a, b, s)
    return seqeq(a, b, s) or seqstructural(a, b, s)
def seqstructural(x, y, s):
    n = s.constval(x.length())
    if n is None or n > 4096 or s.constval(y.length()) != n: return False
    try: a, b = x.bytes(n, s), y.bytes(n, s)
    except (Unknown, NeedFork, NeedForkConst): return False
    k = 8 if n % 8 == 0 else (4 if n % 4 == 0 else 1)
    for i in range(0, n, k):
        p, q = tm.concat_le(a[i:i+k]), tm.concat_le(b[i:i+k])
        if p is not q and not structural(p, q, s): return False
    return True
def structural(x, y, s):
    """cv terms that differ in how many leading blocks are folded"""
    if x.k == 'a' and y.k == 'a' and x.a[0] == 'cv' and y.a[0] == 'cv' and x.a[1] is y.a[1] and x.a[2] == y.a[2]:
        if x.a[3] == y.a[3]: return seqeq(x.a[4], y.a[4], s)
    if x.w != y.w: return False
    lx = [l for l in leaves_cv(x)]; ly = [l for l in leaves_cv(y)]
    fm = foldmap(lx, ly, s)
    if fm:
        x2, y2 = tm.subst(x, fm), tm.subst(y, fm)
        if x2 is y2: return True
        if x2 is not x or y2 is not y: x, y = x2, y2; lx = list(leaves_cv(x)); ly = list(leaves_cv(y))
    if len(lx) == len(ly) and lx:
        m = {}
        for l in ly:
            for q in lx:
                if q is l or (q.a[1] is l.a[1] and q.a[2] == l.a[2] and q.a[3] == l.a[3] and seqeq(q.a[4], l.a[4], s)):
                    m[l] = q; break
            else: return expandeq(x, y, s)
        if x is not y and not (x.k == 'a' and x.a[0] == 'cv'):
            if tm.subst(y, m) is x: return True
    return expandeq(x, y, s)
def foldmap(lx, ly, s):
    """folds that have their first blocks applied already, rewritten to the whole fold"""
    m = {}
    groups = {}
    for l in set(lx) | set(ly): groups.setdefault((id(l.a[1]), l.a[2]), []).append(l)
    heads = {}
    for g in groups.values():
        if len(g) < 2: continue
        for a in g:
            if a in m: continue
            N = a.a[1].N
            la = a.a[4].length()
            for b in g:
                if b is a or b in m or b.a[3] == a.a[3]: continue
                d = s.constval(la-b.a[4].length())
                if d is None or d <= 0 or d % N or d > 4*N: continue
                try:
                    if not seqeq(a.a[4].slice(E(d), la-d, s), b.a[4], s): continue
                    key = (id(a.a[1]), a.a[3], a.a[4], d)
                    h = heads.get(key)
                    if h is None: h = heads[key] = a.a[1].expand(a.a[3], a.a[4].slice(ZERO, E(d), s), s)
                except (Unknown, NeedFork, NeedForkConst, NeedForkBool): continue
                if h is not None and len(h) == len(b.a[3]) and all(p is q for p, q in zip(h, b.a[3])): m[b] = a
    return m
def leaves_cv(t, memo={}):
    r = memo.get(t)
    if r is not None: return r
    if t.k == 'a' and t.a[0] == 'cv': r = frozenset([t])
    else:
        s = set()
        for c in tm.children(t): s |= leaves_cv(c)
        r = frozenset(s)
    memo[t] = r
    return r
def expandeq(x, y, s):
    """unfold block applications whose length is fixed"""
    m = {}
    for l in leaves_cv(x) | leaves_cv(y):
        r = None
        try: r = l.a[1].expand(l.a[3], l.a[4], s)
        except Exception: r = None
        if r is not None and s.constval(l.a[4].length()) <= 8*l.a[1].N: m[l] = r[l.a[2]]
    if not m: return False
    x2, y2 = tm.subst(x, m), tm.subst(y, m)
    if x2 is y2: return True
    return False
def seqeq(p, q, s):
    a = list(p.p); b = list(q.p)
    while a and b:
        u, v = a[0], b[0]
        la, lb = plen(u), plen(v)
        if s.eq0(la): a.pop(0); continue
        if s.eq0(lb): b.pop(0); continue
        if u[0] == 'r' or v[0] == 'r':
            if u[0] == v[0] == 'r' and u[3] == v[3] and s.eq0(u[2]-v[2]) and u[1] == v[1]: a.pop(0); b.pop(0); continue
            return False
        if s.eq0(la-lb): n = la
        elif s.ge0(lb-la): n = la
        elif s.ge0(la-lb): n = lb
        else: return False
        k1 = u[0]; k2 = v[0]
        if k1 == 's' and k2 == 's':
            if u[1] != v[1] or not s.eq0(u[2]-v[2]): return False
        elif k1 != 's' and k2 != 's':
            if u[1] is not v[1]: return False
        else: return False
        def rest(p, ln):
            r = ln-n
            if s.eq0(r): return None
            if p[0] == 's': return ('s', p[1], p[2]+n, r)
            if p[0] == 'f': return ('f', p[1], r)
            return None
        ra, rb = rest(u, la), rest(v, lb)
        if ra: a[0] = ra
        else: a.pop(0)
        if rb: b[0] = rb
        else: b.pop(0)
    return all(s.eq0(plen(x)) for x in a+b)

# ---------------------------------------------------------------------- valuations
class NoEval(Exception): pass
BOOLS = {}     # stream: (period, offsets that hold a bool)
class Val:
    def __init__(self, store, facts, rnd, small=True):
        self.rnd = rnd; self.env = {}; self.sy = {}; self.streams = {}; self.memo = {}
        self.store = store; self.large = False; self.ufs = set(); self.back = {}; self.extreme = 0; self.salt = 1
    def choose(self, vs):
        """integer values for the control variables"""
        s = self.store; r = self.rnd
        allv = set(vs)
        for c, d in s.cons: allv |= {v for v, _ in d}
        for v, e in s.eqs.items(): allv |= {v} | set(e.vars())
        order = sorted(v for v in allv if v not in s.eqs)
        r.shuffle(order)
        # quotient-like variables last keeps values small: pick small values near a bound
        for v in order:
            e = s.norm(V(v))
            lo, hi = s.lower(e), s.upper(e)
            if lo is None and hi is None: lo, hi = 0, 40
            elif lo is None: lo = max(hi-40, -40) if hi > 40 else hi-40
            elif hi is None: hi = lo+300
            if hi < lo: raise NoEval('empty')
            if self.large:
                b = 1 << r.choice([20, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 40, 50, 53, 56])
                b = min(hi, lo+b)
                lo, hi2 = r.choice([(max(lo, b-3), b), (b//2 if b//2 >= lo else lo, b), (lo, min(hi, lo+5))])
            else: hi2 = min(hi, lo + r.choice([0, 0, 1, 1, 2, 3, 5, 9, 17, 40]))
            for _ in range(6):
                x = r.randint(lo, hi2)
                s2 = s.add_eq0(e-x)
                if s2 is not None: s = s2; break
            else: raise NoEval('no integer value for %s' % v)
        for v in allv:
            k = s.norm(V(v)).const
            if k is None: raise NoEval('open variable')
            self.env[v] = k
    def ev_e(self, e):
        n = e.c
        for v, k in e.d:
            if v not in self.env: raise NoEval('unbound %s' % v)
            n += k*self.env[v]
        return n
    def byte(self, stream, o):
        st = self.streams.setdefault(stream, {})
        if o not in st and self.extreme in (4, 8): st[o] = 0x80 if o % self.extreme == self.extreme-1 else 0
        if o not in st: st[o] = self.rnd.randrange(256) if self.extreme != 1 else self.rnd.choice([0, 255, 128, 127])
        if stream in BOOLS and o % BOOLS[stream][0] in BOOLS[stream][1]: st[o] &= 1
        return st[o]
    def bytes(self, q):
        out = bytearray()
        for p in q.p:
            if p[0] == 's':
                o = self.ev_e(p[2]); n = self.ev_e(p[3])
                if n > 1 << 13: raise NoEval('long')
                for i in range(n): out.append(self.byte(p[1], o+i))
            elif p[0] == 'b': out.append(self.t(p[1]))
            elif p[0] == 'f':
                n = self.ev_e(p[2])
                if n > 1 << 13: raise NoEval('long')
                out.extend([self.t(p[1])]*n)
            else:
                n = self.ev_e(p[2])
                if n > 4096: raise NoEval('long')
                for i in range(n): out.extend(self.sub({p[1]: i}).bytes(p[3]))
        return bytes(out)
    salt = 0
    def pieces(self, q):
        out = []
        for p in q.p:
            if p[0] == 's':
                o = self.ev_e(p[2]); n = self.ev_e(p[3])
                if n == 0: continue
                if out and out[-1][0] == 's' and out[-1][1] == p[1] and out[-1][2]+out[-1][3] == o: out[-1] = ('s', p[1], out[-1][2], out[-1][3]+n)
                else: out.append(('s', p[1], o, n))
            elif p[0] == 'b':
                if p[1].k == 'a' and p[1].a[0] == 'sb':
                    o = self.ev_e(p[1].a[2]); x = ('s', p[1].a[1], o, 1)
                    if out and out[-1][0] == 's' and out[-1][1] == x[1] and out[-1][2]+out[-1][3] == o: out[-1] = ('s', x[1], out[-1][2], out[-1][3]+1)
                    else: out.append(x)
                else: out.append(('b', self.t(p[1])))
            elif p[0] == 'f':
                n = self.ev_e(p[2])
                if n > 4096: raise NoEval('long')
                out += [('b', self.t(p[1]))]*n
            else: raise NoEval('long repetition')
        return tuple(out)
    def sub(self, m):
        v = Val.__new__(Val); v.large = self.large; v.ufs = self.ufs; v.back = self.back; v.salt = self.salt; v.extreme = self.extreme; v.rnd = self.rnd; v.env = dict(self.env); v.env.update(m); v.sy = self.sy; v.streams = self.streams; v.memo = {}; v.store = self.store
        return v
    def t(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        r = self._t(t) & full(t.w)
        self.memo[t] = r
        return r
    def _t(self, t):
        k = t.k; w = t.w
        if k == 'c': return t.a
        if k == 'l': return t.a[0] + sum(c*self.t(x) for x, c in t.a[1])
        if k == 'b':
            acc = 0
            for m, mask in t.a:
                v = mask
                for x, off in m:
                    y = self.t(x)
                    v &= (y >> off) if off >= 0 else (y << -off)
                acc ^= v
            return acc
        op = t.a[0]; a = t.a
        if op in ('sym', 'ph', 'undef', 'addr'):
            key = t
            if key not in self.sy and self.extreme == 1: self.sy[key] = self.rnd.choice([0, full(w), 1 << (w-1), full(w) >> 1])
            if key not in self.sy: self.sy[key] = self.rnd.choice([self.rnd.getrandbits(w), self.rnd.getrandbits(w), self.rnd.randrange(4) & full(w)])
            return self.sy[key]
        if op == 'sb': return self.byte(a[1], self.ev_e(a[2]))
        if op == 'iv': return self.ev_e(a[1])
        if op == 'mul': return self.t(a[1])*self.t(a[2])
        if op == 'sext': return sgn(self.t(a[1]), a[1].w)
        if op == 'ite': return self.t(a[2]) if self.t(a[1]) else self.t(a[3])
        if op == 'eq': return int(self.t(a[1]) == self.t(a[2]))
        if op == 'ult': return int(self.t(a[1]) < self.t(a[2]))
        if op == 'slt': return int(sgn(self.t(a[1]), a[1].w) < sgn(self.t(a[2]), a[2].w))
        if op == 'xor': return self.t(a[1]) ^ self.t(a[2])
        if op == 'and': return self.t(a[1]) & self.t(a[2])
        if op in ('shl', 'lshr', 'ashr'):
            x, n = self.t(a[1]), self.t(a[2])
            if n >= w: raise NoEval('shift')
            return x << n if op == 'shl' else (x >> n if op == 'lshr' else sgn(x, w) >> n)
        if op == 'udiv':
            d = self.t(a[2])
            if not d: raise NoEval('div')
            return self.t(a[1])//d
        if op == 'urem':
            d = self.t(a[2])
            if not d: raise NoEval('div')
            return self.t(a[1]) % d
        if op == 'cv':
            Tp = a[1]; X = [self.t(x) for x in a[3]]
            if self.large:
                # too long to evaluate: an arbitrary function of its operands
                ps = list(self.pieces(a[4]))
                ck = ('cvl', Tp, tuple(X), tuple(ps))
                r = self.memo.get(ck)
                if r is None:
                    if ps and ps[0][0] == 's' and ps[0][3] >= 4*Tp.N:
                        n = ps[0][3]//Tp.N*Tp.N
                        X0 = tuple(X); of = ps[0][2]; nn = n
                        prev = self.back.get((Tp.id, X0))
                        if prev and prev[1] == ps[0][1] and prev[2]+prev[3] == of: X0, of, nn = prev[0], prev[2], prev[3]+n; self.ufs.discard(prev[4])
                        key = ('cv', Tp.id, X0, ('s', ps[0][1], of, nn)); self.ufs.add(key)
                        import hashlib
                        X = [int.from_bytes(hashlib.blake2b(repr((key, j, self.salt)).encode()).digest()[:8], 'little') & full(w) for j, w in enumerate(Tp.widths)]
                        self.back[(Tp.id, tuple(X))] = (X0, ps[0][1], of, nn, key)
                        if n == ps[0][3]: ps.pop(0)
                        else: ps[0] = ('s', ps[0][1], ps[0][2]+n, ps[0][3]-n)
                    bs = bytearray()
                    for q in ps:
                        if q[0] == 'b': bs.append(q[1])
                        elif q[3] > 4096: raise NoEval('long')
                        else: bs.extend(self.byte(q[1], q[2]+j) for j in range(q[3]))
                    if len(bs) % Tp.N: raise NoEval('partial block')
                    for o in range(0, len(bs), Tp.N): X = step_val(Tp, X, bytes(bs[o:o+Tp.N]))
                    r = self.memo[ck] = X
                return r[a[2]]
            bs = self.bytes(a[4])
            key = ('cv', Tp, tuple(X), bs)
            r = self.memo.get(key)
            if r is None:
                if len(bs) % Tp.N: raise NoEval('partial block')
                for o in range(0, len(bs), Tp.N): X = step_val(Tp, X, bs[o:o+Tp.N])
                r = self.memo[key] = X
            return r[a[2]]
        if op == 'upd':
            x = self.t(a[1]); bs = self.bytes(a[2])
            import hashlib
            return int.from_bytes(hashlib.blake2b(x.to_bytes(16, 'little')+bs).digest()[:8], 'little') if bs else x
        if op == 'sum' or op == 'xorsum':
            n = self.ev_e(a[2]); acc = 0
            if n > 2000: raise NoEval('long')
            for i in range(n):
                v = self.sub({a[1]: i}).t(a[3])
                acc = acc+v if op == 'sum' else acc ^ v
            return acc
        if op == 'fz':
            x = self.t(a[1])
            return 0 if x == 1 << (w-1) else x
        if op == 'fcmp': return fcmp_val(a[1], self.t(a[2]), self.t(a[3]), a[2].w)
        if op in ('sdiv', 'srem'):
            n = a[1].w; x, y = self.t(a[1]), self.t(a[2])
            x -= x >> (n-1) << n; y -= y >> (n-1) << n
            if y == 0: raise NoEval('division by zero')
            q = abs(x)//abs(y); q = -q if (x < 0) != (y < 0) else q
            return (q if op == 'sdiv' else x-q*y) & full(w)
        if op in UF:
            import hashlib
            parts = []
            for x in a[1:]:
                if isinstance(x, T): parts.append(self.t(x).to_bytes(16, 'little'))
                elif isinstance(x, Seq): parts.append(self.bytes(x))
                elif isinstance(x, E): parts.append(str(self.ev_e(x)).encode())
                else: parts.append(str(x).encode())
            return int.from_bytes(hashlib.blake2b(op.encode()+b'|'.join(parts)).digest()[:16], 'little')
        raise NoEval('operator %s' % op)
UF = {'fin', 'finst', 'memcmp', 'res', 'val'}
def fcmp_val(p, x, y, w):
    import struct
    f = '<f' if w == 32 else '<d'
    a = struct.unpack(f, x.to_bytes(w//8, 'little'))[0]; b = struct.unpack(f, y.to_bytes(w//8, 'little'))[0]
    nan = a != a or b != b
    r = {'eq': a == b, 'ne': a != b and not nan, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}.get(p[1:3])
    if r is None: raise NoEval('fcmp '+p)
    return int(nan or r) if p[0] == 'u' else int(r and not nan)
def step_val(Tp, X, blk):
    v = Val(Store(), {}, random.Random(0))
    for x, k in zip(Tp.xs, X): v.sy[x] = k
    v.streams['B'] = dict(enumerate(blk))
    return [v.t(t) for t in Tp.terms]

def intpoint(store, facts, e=ZERO, tries=40, seed=7):
    """integer values of the control variables that satisfy the path condition, or None"""
    vs = set(e.vars())
    fs = list(facts.items())
    for a, v in fs:
        a2 = a[1] if isinstance(a, tuple) else a
        if isinstance(a2, T): vs |= termvars(a2)
    m = fact_subst(facts)
    for k in range(tries):
        v = Val(store, facts, random.Random(seed*7919+k))
        try:
            v.choose(vs)
            for s, val in m.items():
                if s not in v.sy: v.sy[s] = v.t(val) if val is not s else 0
            v.memo = {}
            if all((v.t(a[1]) != 0) if isinstance(a, tuple) and isinstance(a[1], T) else (isinstance(a, tuple) or v.t(a) == int(bool(val))) for a, val in fs): return dict(v.env)
        except (NoEval, RecursionError, OverflowError): continue
    return None
def uf_differ(v, x, y):
    """the two sides differ whatever the values of their block applications: the same data absorbed, or amounts of it that differ by many blocks"""
    for salt in (1, 2, 3):
        v.salt = salt; sets = []; vals = []
        for z in (x, y):
            v.memo = {}; v.ufs = set(); v.back = {}
            vals.append(v.bytes(z) if isinstance(z, Seq) else v.t(z)); sets.append({k[:2]+k[3:] for k in v.ufs})
        if vals[0] == vals[1]: return False
        if sets[0] != sets[1]:
            a, b = sets[0]-sets[1], sets[1]-sets[0]
            # per function and start of the data (lanes of one message absorb the same data)
            ga, gb = {}, {}
            for g, z in ((ga, a), (gb, b)):
                for k in z: g.setdefault((k[:2], k[2][:3]), []).append(k[2][3])
            if len({k[1] for k in list(ga)+list(gb)}) > 1: return False
            if ga and gb and set(ga) != set(gb): return False
            for k in set(ga) | set(gb):
                na, nb = ga.get(k, [0]), gb.get(k, [0])
                if len(na) > 1 or len(nb) > 1 or abs(na[0]-nb[0]) < 1 << 14: return False
    return True
def find(terms, pred, store, facts, tries=150, seed=11):
    """values of the symbols satisfying the path condition for which pred(values of terms) holds, or None"""
    vs = set()
    for t in terms: allvars(t, vs)
    fs = list(facts.items())
    for a, v in fs:
        a2 = a[1] if isinstance(a, tuple) else a
        if isinstance(a2, T): vs |= termvars(a2)
    m = fact_subst(facts)
    for k in range(tries):
        rnd = random.Random(seed*1000003+k)
        v = Val(store, facts, rnd); v.extreme = k % 3
        v.large = k % 4 == 3
        try:
            v.choose(vs)
            for s, val in m.items():
                if s not in v.sy: v.sy[s] = v.t(val) if val is not s else 0
            v.memo = {}
            if not all((v.t(a[1]) != 0) if isinstance(a, tuple) and isinstance(a[1], T) else (isinstance(a, tuple) or v.t(a) == int(bool(val))) for a, val in fs): continue
            xs = [v.t(t) for t in terms]
            if pred(*xs): return ', '.join(['%s=%d' % kv for kv in sorted(v.env.items()) if '#' not in kv[0]]+['%s=%#x' % (tm.show(t, 2), x) for t, x in zip(terms, xs)])
        except (NoEval, RecursionError, OverflowError): continue
    return None
def strip_common(x, y, s):
    """the middle of two byte sequences, without the pieces they visibly share at both ends"""
    a = list(x.p); b = list(y.p)
    same = lambda u, v: u[0] == v[0] and seqeq(Seq((u,)), Seq((v,)), s)
    while a and b and same(a[0], b[0]): a.pop(0); b.pop(0)
    while a and b and same(a[-1], b[-1]): a.pop(); b.pop()
    return Seq(tuple(a)), Seq(tuple(b))
def refute(x, y, store, facts, tries=12, seed=1):
    """a valuation satisfying the path condition under which x and y differ, or None"""
    if isinstance(x, T) and isinstance(y, T) and x.k == y.k == 'a' and x.a[0] == y.a[0] == 'upd' and x.a[1] is y.a[1]:
        p, q = strip_common(x.a[2], y.a[2], store)
        if (len(p.p), len(q.p)) != (len(x.a[2].p), len(y.a[2].p)):
            w = refute(p, q, store, facts, tries, seed)
            if w is not None: return w
    vs = set(); allvars(x, vs); allvars(y, vs)
    fs = [(a, v) for a, v in facts.items()]
    for a, v in fs:
        a2 = a[1] if isinstance(a, tuple) else a
        if isinstance(a2, T): vs |= termvars(a2)
    m = fact_subst(facts)
    ok = 0
    for k in range(tries*12):
        large = k >= tries*6
        if k == tries*6: ok = 0
        if ok >= tries:
            if large: break
            continue
        rnd = random.Random(seed*1000003+k)
        v = Val(store, facts, rnd)
        v.large = large
        if k % 8 in (3, 6): v.extreme = 4 if k % 8 == 3 else 8
        try:
            v.choose(vs)
            for s, val in m.items():
                if s not in v.sy: v.sy[s] = v.t(val) if val is not s else 0
            v.memo = {}
            good = True
            for a, val in fs:
                if isinstance(a, tuple):
                    if isinstance(a[1], T) and v.t(a[1]) == 0: good = False; break
                elif v.t(a) != int(bool(val)): good = False; break
            if not good: continue
            if isinstance(x, Seq): p, q = v.bytes(x), v.bytes(y)
            else: p, q = v.t(x), v.t(y)
            ok += 1
            if p != q and large and not uf_differ(v, x, y): continue
            if p != q:
                return {'variables': {n: c for n, c in v.env.items() if not n.startswith(('t#', 'q#'))}, 'left': p.hex() if isinstance(p, bytes) else hex(p), 'right': q.hex() if isinstance(q, bytes) else hex(q),
                        'symbols': {tm.show(s, 3): hex(c) for s, c in list(v.sy.items())[:12]}, 'streams': {n: bytes(d.get(i, 0) for i in range(0, min(max(d)+1, 64))).hex() if d and min(d) >= 0 else '' for n, d in v.streams.items()}}
        except NoEval: continue
        except (RecursionError, OverflowError): continue
    return None
