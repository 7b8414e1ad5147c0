"""Inductive loop summaries.

A loop whose trip count is undetermined is replaced by the state after t iterations, t a fresh
variable: control quantities become v0 + d*t, data cells become folds (cv / upd / sum), written
array segments become slices.  The candidate is checked to be inductive by analysing one iteration
from the state at t; only then are the loop exits continued from it."""
from . import terms as tm
from .terms import T, atom, sym, const
from .aff import E, V, ZERO, fresh, Store
from .mem import *
from .template import Template, cv, IntTy

class Fail(Exception): pass

def upd(X, seq):
    if not seq.p: return X
    if X.k == 'a' and X.a[0] == 'upd':
        b = SeqB(None); b.addseq(X.a[2]); b.addseq(seq)
        return atom(X.w, 'upd', X.a[1], b.seq())
    return atom(X.w, 'upd', X, seq)
tm.REBUILD['upd'] = lambda w, a: upd(a[1], a[2])

def bound_names(x, out):
    if isinstance(x, T):
        for l in _allE(x): out.update(v for v in l.vars() if v.startswith('$'))
def _allE(t, memo={}):
    r = memo.get(t)
    if r is not None: return r
    s = set()
    for c in tm.children(t): s |= _allE(c)
    if t.k == 'a': _eargs(t.a, s)
    r = frozenset(s); memo[t] = r
    return r
def _eargs(a, s):
    for x in a:
        if isinstance(x, E): s.add(x)
        elif isinstance(x, tuple): _eargs(x, s)
        elif isinstance(x, Seq): seqE(x, s)
        elif isinstance(x, Ptr): s.add(x.off)
def seqE(q, s):
    for p in q.p:
        for x in p[1:]:
            if isinstance(x, E): s.add(x)
            elif isinstance(x, T): s |= _allE(x)
            elif isinstance(x, Seq): seqE(x, s)
def termvars(t):
    return {v for e in _allE(t) for v in e.vars()}
def leaves(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen: return []
    seen.add(t)
    if t.k == 'a' and t.a[0] in ('eq', 'ult', 'slt', 'sext', 'not', 'udiv', 'urem'):
        return [y for x in t.a[1:] if isinstance(x, T) for y in leaves(x, seen)]
    if t.k == 'l': return [y for x, c in t.a[1] for y in leaves(x, seen)]
    if t.k == 'b': return [y for m, mask in t.a for x, off in m for y in leaves(x, seen)]
    return [t]
def bvar(ts):
    used = set()
    for t in ts:
        if isinstance(t, T): used |= {v for v in termvars(t) if v.startswith('$')}
        elif isinstance(t, Seq):
            s = set(); seqE(t, s); used |= {v for e in s for v in e.vars() if v.startswith('$')}
    k = 0
    while '$%d' % k in used: k += 1
    return '$%d' % k
def mksum(g, tn, n):
    """g[tn:=0] + ... + g[tn:=n-1]"""
    c0, d = tm.to_lin(g)
    s = tm.mul(const(g.w, c0), iv(n, g.w))
    for x, c in d.items():
        v = bvar([x]); y = atom(g.w, 'sum', v, n, substE(x, tn, V(v)))
        s = tm.add(s, tm.mul(const(g.w, c), y))
    return s
def rep(seq, t, n):
    """seq[t:=0] ++ ... ++ seq[t:=n-1]"""
    if n == 0: return EMPTYSEQ
    v = bvar([seq])
    q = seq.subst(lambda x: tm.subst(x, {}, {'vars': {tname(t): V(v)}}), {'vars': {tname(t): V(v)}})
    b = SeqB(None)
    b.add(('r', v, n, q))
    return b.seq()
def tname(t): return t.d[0][0]
def substE(t, var, val):
    if isinstance(t, T): return tm.subst(t, {}, {'vars': {var: val}})
    if isinstance(t, Seq): return t.subst(lambda x: substE(x, var, val), {'vars': {var: val}})
    if isinstance(t, Ptr): return t.subst(None, {'vars': {var: val}})
    return t.sub({var: val})
def depends(x, var):
    if isinstance(x, T): return var in termvars(x)
    if isinstance(x, Seq):
        s = set(); seqE(x, s); return any(var in e.vars() for e in s)
    if isinstance(x, Ptr): return var in x.off.vars()
    return var in x.vars()

class Item: pass

def summarise(I, fn, L, snap, st, env, ins, work, outs, stop):
    key = (fn.name, L)
    if key in I.nosum:
        I.exit_atoms.setdefault(key, [])
        return False
    st0, env0, _ = snap
    st0 = st0.clone(); st0.store = st.store; st0.facts = dict(st.facts); st0.views.update(st.views); st0.trace = st.trace
    env0 = {k: v for k, v in env0.items() if k != ('H', L)}; env0['allocas'] = list(env0['allocas'])
    loc = fn.blocks[L].instrs[0].loc() if fn.blocks[L].instrs else '?'
    if not loc or loc.startswith('?'): loc = ins.loc()
    I.nosum.add(key)
    try:
        last = None
        for peel in range(3):
            try:
                LoopSummary(I, fn, L, st0, env0, ins).go(work, outs, stop)
                I.stats['loops'].add('%s' % loc)
                return True
            except Fail as e:
                last = e
                r = step(I, fn, L, st0, env0, quiet=False)
                back, exits, rets = r
                emit(I, fn, L, exits, rets, work, outs, stop, st0.wlog)
                if len(back) == 0: return True
                if len(back) > 1: break
                _, s, e, bb, prev = back[0]
                s.wlog = (st0.wlog + s.wlog) if st0.wlog is not None else None
                e = dict(e); e['allocas'] = list(e['allocas']); e.pop(('H', L), None)
                vals = [(p.id, I.ev(e, p.x[prev], s)) for p in fn.blocks[L].phis]
                for k, v in vals: e[k] = v
                st0, env0 = s, e
        raise Unknown('loop at %s: %s' % (loc, last))
    finally:
        I.nosum.discard(key)

def step(I, fn, L, S, env, quiet=True):
    body = I.loops(fn)[0][L]
    s = S.clone(); s.wlog = []
    e = dict(env); e['allocas'] = list(env['allocas'])
    saved = I.alarms, I.effects
    if quiet: I.alarms = {}; I.effects = {}
    try:
        res = I.run(fn, [(s, e, L, None, 0)], stop=lambda a, b: a in body and (b == L or b not in body))
    finally:
        if quiet: I.alarms, I.effects = saved
    back = [r for r in res if r[0] == 'edge' and r[3] == L]
    exits = [r for r in res if r[0] == 'edge' and r[3] != L]
    rets = [r for r in res if r[0] == 'ret']
    return back, exits, rets
def emit(I, fn, L, exits, rets, work, outs, stop, wlog0, extra=()):
    for _, s, e, bb, prev in exits:
        s.wlog = (wlog0 + list(extra) + s.wlog) if wlog0 is not None else None
        e = dict(e); e.pop(('H', L), None)
        if stop is not None and stop(prev, bb): outs.append(('edge', s, e, bb, prev))
        else: work.append((s, e, bb, prev, 0))
    for r in rets:
        s = r[1]
        s.wlog = (wlog0 + list(extra) + s.wlog) if wlog0 is not None else None
        outs.append(r)

class LoopSummary:
    def __init__(self, I, fn, L, st0, env0, ins):
        self.I = I; self.fn = fn; self.L = L; self.st0 = st0; self.env0 = env0; self.ins = ins
        self.phis = fn.blocks[L].phis
        self.t = fresh('t'); self.tn = tname(self.t)
        self.items = {}; self.moving = {}; self.dropped = set(); self.extra_cands = []; self.ub = {}; self.wraps = set()
        # counters stepped by an addition whose overflow is undefined: kept in the signed range
        steps = {i.id for b in fn.blocks for i in b.instrs if i.op in ('add', 'sub') and i.flags & 1}
        self.nsw = {p.id for p in self.phis if any(o[0] == 'r' and o[1] in steps for o in p.x.values())}
    def newval(self, s, e, prev, k):
        I = self.I
        if k[0] == 'phi':
            p = next(p for p in self.phis if p.id == k[1])
            return I.ev(e, p.x[prev], s)
        return self.cell(s, k[1], k[2], k[3])
    def oldval(self, k):
        if k[0] == 'phi': return self.env0[k[1]]
        return self.cell(self.st0, k[1], k[2], k[3])
    def cell(self, s, rid, off, n):
        r = s.mem[rid]
        v = r.load(E(off), n, s.store)
        if isinstance(v, list):
            if any(isinstance(x, tuple) for x in v):
                if all(isinstance(x, tuple) and x[1] is v[0][1] and x[2] == j for j, x in enumerate(v)): return v[0][1]
                raise Fail('pointer bytes')
            v = tm.concat_le(v[::-1] if self.I.big() else v)
        return v
    def writes(self, s):
        """classify the writes of one iteration: fixed cells and moving intervals"""
        fixed = set(); moving = {}
        for rid, off, n in s.wlog:
            if rid not in self.st0.mem: continue
            o = s.store.norm(off); k = s.store.norm(n)
            if o.const is not None and k.const is not None:
                if k.const <= 8: fixed.add((rid, o.const, k.const))
                else:
                    c, m = o.const, k.const
                    while m > 0:
                        q = min(8, m); fixed.add((rid, c, q)); c += q; m -= q
            else: moving.setdefault(rid, []).append((o, k))
        return fixed, moving
    def classify(self, old, new, st, k=None):
        if isinstance(old, Ptr) and isinstance(new, Ptr):
            if old == new: return ('inv',)
            if old.r != new.r: raise Fail('pointer changes object')
            d = st.norm(new.off-old.off)
            if d.const is None: raise Fail('pointer step %s' % d)
            return ('aff', d.const, old.off, None)
        if isinstance(old, T) and isinstance(new, T):
            if old is new: return ('inv',)
            from .interp import isctl
            if isctl(old) and isctl(new):
                for sg in ((True, False) if k and k[0] == 'phi' and k[1] in self.nsw and old.w < 64 else (False, True)):
                    a, b = st.view(old, sg), st.view(new, sg)
                    if a is not None and b is not None:
                        d = st.norm(b-a)
                        if d.const is not None: return ('aff', d.const, a, sg)
            return ('data',)
        if old == new: return ('inv',)
        raise Fail('loop-carried value %r -> %r' % (old, new))
    def go(self, work, outs, stop):
        I = self.I
        back, exits, rets = step(I, self.fn, self.L, self.st0, self.env0)
        if not back:
            back, exits, rets = step(I, self.fn, self.L, self.st0, self.env0, quiet=False)
            emit(I, self.fn, self.L, exits, rets, work, outs, stop, self.st0.wlog); return
        b0 = back[0]
        for _, s, e, bb, prev in back:
            for p in self.phis:
                k = ('phi', p.id)
                c = self.classify(self.oldval(k), self.newval(s, e, prev, k), s, k)
                self.join(k, c)
            fx, mv = self.writes(s)
            for rid, o, n in fx:
                if rid in mv: raise Fail('mixed writes')
                k = ('mem', rid, o, n)
                self.join(k, self.classify(self.oldval(k), self.newval(s, e, prev, k), s, k))
            for rid, l in mv.items(): self.addmoving(rid, l, s)
        self.fixcells()
        for rnd in range(12):
            if self.attempt(work, outs, stop): return
        raise Fail('no inductive summary')
    def join(self, k, c):
        o = self.items.get(k)
        if o is None or o == c: self.items[k] = c
        elif o[0] == 'inv' and c[0] in ('aff', 'data') or c[0] == 'inv' and o[0] in ('aff', 'data'): self.items[k] = ('data',)
        else: self.items[k] = ('data',)
    def fixcells(self):
        # overlapping cells of different granularity are merged to bytes
        by = {}
        for k in list(self.items):
            if k[0] == 'mem': by.setdefault(k[1], []).append(k)
        for rid, ks in by.items():
            ks.sort(key=lambda k: (k[2], -k[3])); end = -1; keep = None
            for k in ks:
                if k[2] < end:
                    if keep[2] <= k[2] and k[2]+k[3] <= end: 
                        if self.items[k] != ('inv',) and self.items[keep] == ('inv',): self.items[keep] = ('data',)
                        if self.items[k] != self.items[keep] : self.items[keep] = ('data',) if self.items[k] != ('inv',) else self.items[keep]
                        del self.items[k]; continue
                    raise Fail('overlapping writes')
                end = k[2]+k[3]; keep = k
    def addmoving(self, rid, l, s):
        if len(l) > 1:
            # consecutive pieces of one moving interval
            l = sorted(l, key=lambda on: s.norm(on[0]-l[0][0]).const if s.norm(on[0]-l[0][0]).const is not None else 0)
            o = l[0][0]; n = l[0][1]
            for o2, n2 in l[1:]:
                if s.norm(o2-o-n) == 0: n = n+n2
                elif s.norm(o2-o).const is not None and s.norm(o+n-o2-n2).const is not None and s.norm(o+n-o2-n2).const >= 0: pass
                else: raise Fail('scattered writes')
            l = [(o, n)]
        o, n = l[0]
        c = s.norm(n).const
        if c is None: raise Fail('variable length write in loop')
        self.moving.setdefault(rid, []).append((o, c))
        if len(self.moving[rid]) > 1: raise Fail('two moving writes')
    def build(self, data):
        """state at t; data: key -> term for data cells"""
        S = self.st0.clone(); e = dict(self.env0); e['allocas'] = list(self.env0['allocas'])
        S.wlog = []
        s = S.store.add_ge0(self.t)
        cands = []
        t = self.t
        vals = {}
        for k, c in self.items.items():
            old = self.oldval(k)
            if c[0] == 'inv': continue
            if c[0] == 'aff':
                a = c[2]+t*c[1]
                if isinstance(old, Ptr):
                    vals[k] = Ptr(old.r, a)
                    r = self.st0.mem.get(old.r)
                    cands.append(a)
                    if r is not None: cands.append(r.size-a)
                else:
                    vals[k] = iv(a, old.w)
                    w = old.w
                    if c[3]: cands += [a+(1 << (w-1)), (1 << (w-1))-1-a, a]
                    else:
                        cands += [a, (1 << w)-1-a]
                        if k[0] == 'phi' and w < 64 and c[1] > 0 and c[1] & (c[1]-1) == 0 and self.st0.store.norm(c[2]).const is not None: self.ub[self.st0.store.norm((1 << w)-1-a)] = (w, self.st0.store.norm(c[2]).const)
            else: vals[k] = data[k]
        cands += self.extra_cands
        good = []
        for q in cands:
            q = self.st0.store.norm(q)
            if q in self.dropped or q in good: continue
            if not self.st0.store.ge0(q.sub({self.tn: ZERO})): self.dropped.add(q); continue
            good.append(q)
            s2 = s.add_ge0(q)
            if s2 is None: raise Fail('inconsistent invariant')
            s = s2
        S.store = s
        for k, v in vals.items():
            if k[0] == 'phi': e[k[1]] = v
            else:
                r = S.wregion(k[1])
                if self.I.big() and isinstance(v, T) and v.w > 8:
                    for j in range(v.w//8): r.store(E(k[2]+j), tm.extract(v, v.w-8-8*j, 8), None, S.store)
                else: r.store(E(k[2]), v, None, S.store)
        for rid, mv in self.moving.items():
            (o, c), = mv
            r = S.wregion(rid)
            cont = self.content.get(rid) if hasattr(self, 'content') else None
            if cont is not None:
                r.put(o, o+t*c, [(ZERO, t*c, cont)], None, S.store)
        return S, e, good
    def attempt(self, work, outs, stop):
        """one round; False = items changed, try again"""
        I = self.I; t = self.t
        data = {}
        X = {}
        if not hasattr(self, 'content'): self.content = {}
        for k, c in self.items.items():
            if c[0] == 'data':
                old = self.oldval(k)
                if not isinstance(old, T): raise Fail('data pointer')
                x = sym(old.w, ('loopX', self.tn, k)); X[x] = k; data[k] = x
        S, e, cands = self.build(data)
        I.exit_atoms.pop((self.fn.name, self.L), None)
        self.capture = []
        I.capture.append(((self.fn.name, self.L), self.capture))
        try: back, exits, rets = step(I, self.fn, self.L, S, e)
        finally: I.capture.pop()
        # candidate bounds from equality exits
        if self.newcands(S): return False
        if not back:
            raise Fail('no back edge from the generalised state')
        if len(back) > 1: raise Fail('%d paths through the body' % len(back))
        _, s, eb, bb, prev = back[0]
        nx = t+1
        # invariants preserved?
        bad = [q for q in cands if not s.store.ge0(q.sub({self.tn: nx}))]
        for q in bad:
            if q in self.ub and q not in self.wraps and self.wrapping(*self.ub[q]): self.wraps.add(q)
        if any(q not in self.wraps for q in bad):
            self.dropped.update(q for q in bad if q not in self.wraps); return False
        for q in self.wraps:
            # from here on: the rounds before the counter wraps around
            r = s.store.add_ge0(q.sub({self.tn: nx}))
            if r is None: raise Fail('counter wraps')
            s.store = r
        changed = False
        new = {}
        for k, c in list(self.items.items()):
            nv = self.newval(s, eb, prev, k); new[k] = nv
            if c[0] == 'inv':
                if nv is self.oldval(k) or nv == self.oldval(k): continue
                self.items[k] = ('data',) if isinstance(nv, T) else self._f('invariant pointer changes'); changed = True
            elif c[0] == 'aff':
                a = c[2]+nx*c[1]
                if isinstance(nv, Ptr):
                    if nv.r == self.oldval(k).r and s.store.eq0(nv.off-a): continue
                    raise Fail('pointer not affine')
                if nv is iv(s.norm(a), nv.w) or nv is iv(a, nv.w): continue
                v = s.view(nv, c[3])
                if v is not None and s.store.eq0(v-a): continue
                self.items[k] = ('data',); changed = True
        fx, mv = self.writes(s)
        for rid, o, n in fx:
            if rid in mv or rid in self.moving: raise Fail('mixed writes')
            k = ('mem', rid, o, n)
            if k not in self.items and not any(q[0] == 'mem' and q[1] == rid and q[2] <= o and o+n <= q[2]+q[3] for q in self.items):
                self.items[k] = ('data',); changed = True
        if changed: self.fixcells(); return False
        for rid in mv:
            if rid not in self.moving: raise Fail('new moving write')
        for rid, l in self.moving.items():
            (o, c), = l
            cur = [(oo, nn) for oo, nn in mv.get(rid, [])]
            if not cur: raise Fail('moving write vanished')
            self.moving2 = {}
            sv = self.moving; self.moving = {}
            self.addmoving(rid, cur, s); (o2, c2), = self.moving[rid]; self.moving = sv
            if c2 != c: raise Fail('moving width')
            if s.norm(o2 - (o+t*c)) != 0: raise Fail('moving write not contiguous')
            parts = s.mem[rid].read_parts(o2, E(c), s.store)
            cont = self.moving_content(parts, c, s)
            if self.content.get(rid) != cont:
                if rid in self.content and self.content[rid] is not None: raise Fail('moving content')
                self.content[rid] = cont; return False
        folded = self.fold(X, new, s)
        # final pass with the folded values
        S, e, _ = self.build(folded)
        I.nest.append((self.tn, self.fn))
        try: back, exits, rets = step(I, self.fn, self.L, S, e, quiet=False)
        finally: I.nest.pop()
        self.work(back, exits, rets)
        extra = [(k[1], E(k[2]), E(k[3])) for k in self.items if k[0] == 'mem'] + [(rid, o, t*c) for rid, l in self.moving.items() for o, c in l]
        if len(back) == 1:
            # every earlier iteration went round: what it had to satisfy
            F = tuple((a, b) for a, b in back[0][1].facts.items() if isinstance(a, T) and a not in self.st0.facts)
            for s in [r[1] for r in exits+rets]: s.extra['rounds'] = s.extra.get('rounds', ())+((self.tn, F),)
        emit(I, self.fn, self.L, exits, rets, work, outs, stop, self.st0.wlog, extra)
        return True
    def wrapping(self, w, a0):
        """the exits of the loop look at nothing that moves except a counter of w bits"""
        ok = False
        for a in self.capture:
            if a0 != 0 and not (a.k == 'a' and a.a[0] == 'ult' and self.tn not in termvars(a.a[2])): return False
            for x in leaves(a):
                if self.tn not in termvars(x): continue
                if x.k == 'a' and x.a[0] == 'iv' and x.w == w: ok = True
                else: return False
        return ok
    def work(self, back, exits, rets):
        """rounds that never end, and rounds that multiply"""
        I = self.I; ins = next((i for i in self.fn.blocks[self.L].instrs if i.loc() and not i.loc().startswith('?')), self.ins)
        for b in back:
            s = b[1]
            for q in self.wraps:
                r = s.store.add_ge0(-q.sub({self.tn: self.t+1})-1)
                if r is not None:
                    s2 = s.clone(); s2.store = r
                    I.suspect('diverges', ins, 'the loop never ends: its counter has %d bits and wraps around before the bound' % self.ub[q][0], s2, [], lambda: True)
        for s in [r[1] for r in exits+rets]:
            r = s.store.add_ge0(self.t-(1 << 16)) if getattr(I, 'const_work', False) else None
            if r is not None:
                s2 = s.clone(); s2.store = r
                I.suspect('unbounded', ins, 'the number of rounds of this loop is not bounded by a constant', s2, [], lambda: True)
            for tn, fn in I.nest:
                r = s.store.add_ge0(V(tn)-(1 << 16))
                if r is not None: r = r.add_ge0(self.t-(1 << 16))
                if r is not None:
                    s2 = s.clone(); s2.store = r
                    I.suspect('superlinear', ins, 'the rounds of this loop multiply with those of a loop around it', s2, [], lambda: True)
    def _f(self, m): raise Fail(m)
    def newcands(self, S):
        add = False
        for a in self.capture:
            if a.k == 'a' and a.a[0] in ('eq', 'ult', 'slt'):
                sg = a.a[0] == 'slt'
                x, y = S.view(a.a[1], sg), S.view(a.a[2], sg)
                if x is None or y is None: continue
                d = S.store.norm(x-y)
                for q in ((d, -d, d+1, 1-d) if a.a[0] == 'eq' and d.vars() == {self.tn} else (d, -d)):
                    if self.tn not in q.vars(): continue
                    if q in self.dropped or q in self.extra_cands: continue
                    if dict(q.d)[self.tn] > 0: continue
                    if not self.st0.store.ge0(q.sub({self.tn: ZERO})): continue
                    self.extra_cands.append(q); add = True
        return add
    def moving_content(self, parts, c, s):
        if len(parts) == 1:
            a, b, ct = parts[0]
            if ct[0] == 's':
                d = ct[2].sub({self.tn: self.t+1})-ct[2]
                if d.const == c: return ('s', ct[1], ct[2].sub({self.tn: ZERO}))
            if ct[0] == 'f' and not depends(ct[1], self.tn): return ct
            if ct[0] in ('w', 'f') and c == 1:
                b = tm.extract(ct[1], 8*ct[2], 8) if ct[0] == 'w' else ct[1]
                if b.k == 'a' and b.a[0] == 'sb':
                    d = b.a[2].sub({self.tn: self.t+1})-b.a[2]
                    if d.const == 1: return ('s', b.a[1], b.a[2].sub({self.tn: ZERO}))
                if not depends(b, self.tn): return ('f', b)
                v = bvar([b])
                return ('m', v, substE(b, self.tn, V(v)))
        raise Fail('moving content %r' % (parts,))
    # ------------------------------------------------------------------ folds
    def fold(self, X, new, s):
        keys = [k for k, c in self.items.items() if c[0] == 'data']
        if not keys: return {}
        xof = {k: x for x, k in X.items()}
        dep = {}
        for k in keys:
            if not isinstance(new[k], T): raise Fail('data became pointer')
            dep[k] = {X[l] for l in tm.support(new[k]) if isinstance(l, T) and l in X}
        # connected components
        comp = {}; comps = []
        for k in keys:
            if k in comp: continue
            c = [k]; comp[k] = c; todo = [k]
            while todo:
                a = todo.pop()
                for b in keys:
                    if b not in comp and (b in dep[a] or a in dep[b]): comp[b] = c; c.append(b); todo.append(b)
            comps.append(c)
        out = {}
        for c in comps: self.fold1(c, xof, new, dep, s, out)
        return out
    def fold1(self, c, xof, new, dep, s, out):
        t = self.t
        # no recurrence: last value
        if len(c) == 1 and not dep[c[0]]:
            k = c[0]; g = new[k]; old = self.oldval(k)
            gm = substE(g, self.tn, t-1)
            if substE(gm, self.tn, ZERO) is old: out[k] = gm; return
            raise Fail('value of the previous iteration')
        # cv fold
        f0 = new[c[0]]
        if f0.k == 'a' and f0.a[0] == 'cv':
            Tp, Xs, seq = f0.a[1], f0.a[3], f0.a[4]
            if all(new[k].k == 'a' and new[k].a[0] == 'cv' and new[k].a[1] is Tp and new[k].a[3] == Xs and new[k].a[4] == seq for k in c):
                pos = {new[k].a[2]: k for k in c}
                if all(i in pos and Xs[i] is xof[pos[i]] for i in range(len(Xs))) and len(pos) == len(c):
                    q = rep(seq, t, t)
                    olds = tuple(self.oldval(pos[i]) for i in range(len(Xs)))
                    r = cv(Tp, olds, q)
                    for i in range(len(Xs)): out[pos[i]] = r[i]
                    return
        # update of an archetype hash object
        if len(c) == 1 and f0.k == 'a' and f0.a[0] == 'upd' and f0.a[1] is xof[c[0]]:
            if all(x is not xof[c[0]] for p in f0.a[2].terms() for x in tm.support(p) if isinstance(x, T)):
                out[c[0]] = upd(self.oldval(c[0]), rep(f0.a[2], t, t)); return
        # sums
        if len(c) == 1:
            k = c[0]; x = xof[k]
            c0, d = tm.to_lin(new[k])
            if d.get(x) == 1:
                d = dict(d); del d[x]
                g = tm.from_lin(x.w, c0, d)
                if x not in tm.support(g):
                    old = self.oldval(k)
                    out[k] = tm.add(old, mksum(g, self.tn, t)); return
            b = dict(tm.to_bits(new[k]))
            if b.get(((x, 0),)) == tm.full(x.w):
                del b[((x, 0),)]
                g = tm.from_bits(x.w, b)
                if x not in tm.support(g):
                    v = bvar([g]); out[k] = tm.xor(self.oldval(k), atom(x.w, 'xorsum', v, t, substE(g, self.tn, V(v)))); return
        # raw block step
        leaves = set()
        def visit(u, seen):
            if u in seen: return
            seen.add(u)
            if u.k == 'a':
                if u.a[0] == 'sb': leaves.add(u); return
                if u in xs: return
                if u.a[0] == 'sym' or u.a[0] in ('iv', 'cv', 'upd', 'undef', 'sum', 'ph'): raise Fail('recurrence over %s' % tm.show(u, 2))
            for ch in tm.children(u): visit(ch, seen)
        xs = {xof[k] for k in c}; seen = set()
        for k in c: visit(new[k], seen)
        mv = [l for l in leaves if self.tn in l.a[2].vars()]
        if len(mv) != len(leaves) or not mv: raise Fail('recurrence without a message')
        if len({l.a[1] for l in mv}) != 1: raise Fail('recurrence over two streams')
        st = {l.a[2].sub({self.tn: t+1})-l.a[2] for l in mv}
        if len(st) != 1 or next(iter(st)).const is None: raise Fail('stride')
        N = next(iter(st)).const
        base = mv[0].a[2]; lo = 0
        offs = {}
        for l in mv:
            d = s.norm(l.a[2]-base).const
            if d is None: raise Fail('offsets')
            offs[l] = d
        lo = min(offs.values())
        if max(offs.values())-lo >= N: raise Fail('block wider than stride')
        # order the words by the place where they live, phis by their order
        c = sorted(c, key=lambda k: (k[0], k[1:]) if k[0] == 'mem' else ('a', [p.id for p in self.phis].index(k[1])))
        olds = tuple(self.oldval(k) for k in c)
        m = {xof[k]: sym(xof[k].w, ('X', i)) for i, k in enumerate(c)}
        for l, d in offs.items(): m[l] = sb('B', E(d-lo))
        memo = {}
        terms = tuple(tm.subst(new[k], m, None, memo) for k in c)
        Tp = canonical_template(N, tuple(xof[k].w for k in c), terms, olds)
        Tp, perm = Tp
        seq = Seq((('s', mv[0].a[1], base+lo, E(N)),))
        q = rep(seq, t, t)
        r = cv(Tp, tuple(olds[j] for j in perm), q)
        for i, j in enumerate(perm): out[c[j]] = r[i]

def canonical_template(N, widths, terms, olds):
    """match an already known template up to a permutation of the words when the current values
       are words of that template"""
    n = len(widths)
    for (N2, w2, t2), Tp in list(Template._tab.items()):
        if N2 != N or len(w2) != n: continue
        # guess the permutation from cv components / X symbols of the current values
        perm = [None]*n
        ok = True
        for j, o in enumerate(olds):
            i = comp_index(o, Tp)
            if i is None or i >= n or perm[i] is not None: ok = False; break
            perm[i] = j
        cands = ([perm] if ok else []) + [list(range(n))]
        for pm in cands:
            m = {sym(widths[j], ('X', j)): sym(widths[j], ('Y', i)) for i, j in enumerate(pm)}
            m2 = {sym(widths[j], ('Y', i)): sym(widths[j], ('X', i)) for i, j in enumerate(pm)}
            if tuple(tm.subst(tm.subst(terms[j], m), m2) for j in pm) == t2: return Tp, pm
    return Template(N, widths, terms), list(range(n))
def comp_index(o, Tp):
    if o.k == 'a' and o.a[0] == 'cv' and o.a[1] is Tp: return o.a[2]
    if o.k == 'a' and o.a[0] == 'sym' and isinstance(o.a[1], tuple) and o.a[1][0] == 'chain': return o.a[1][1]
    return None
