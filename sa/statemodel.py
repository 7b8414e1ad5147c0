"""Generalised states of a hash object.

The roles of the members are found by observation: members that ever depend on message bytes are
chaining words, members that change without depending on them are counters, storage that ever holds
message bytes verbatim is buffer, the rest is constant.  The general state G has arbitrary chaining
words, counters of an arbitrary number of whole blocks and arbitrary stale buffer contents."""
from .hashmodel import *

class Model:
    def __init__(self, hm, variants=True):
        self.hm = hm
        fix = hm.fix; self.conc = None
        try:
            hm.fix = {k: v for k, v in fix.items() if k != 'n'}
            self.build(None)
        except (Unknown, NeedFork, NeedForkConst, RecursionError):
            if 'n' not in fix: raise
            # members by observation at given lengths; counters as they are after so many blocks
            hm.fix = fix; self.build((7, 300))
            from .registry import block
            if self.N != block(hm.alg): raise Unknown('buffer size')
            self.conc = True
        finally: hm.fix = fix
    def build(self, lens):
        hm = self.hm
        st0, p0 = hm.default()[0]
        self.p = p0
        if lens is None:
            n = hm.var(st0, 'n')
            S = hm.update(st0, p0, 'Msg', ZERO, n)
        else: S = [x for n in lens for x in hm.update(st0.clone(), p0, 'Msg', ZERO, E(n))]
        P = []
        for s in S:
            r = hm.result(s, p0)
            P += [x for x, _ in r]
        self.D = st0
        self.images = [('D', st0)] + [('S', s) for s in S] + [('P', s) for s in P[:40]]
        self.roles()
    def layout(self, st):
        out = set()
        if self.hm.I.big():
            # words are kept byte by byte: the places that words were stored to
            for off, w in self.hm.I.objcells:
                bs = parts_to_seq(st.mem[self.p.r].read_parts(E(off), E(w//8), st.store), st.store).bytes(w//8, st.store)
                if not any(b.k == 'a' and b.a[0] in ('undef',) for b in bs): out.add((off, w))
            return out
        for s, e, ct, _ in self.hm.segs(st, self.p):
            if ct[0] == 'w' and ct[2] == 0 and isinstance(ct[1], T) and ct[1].w >= 16 and s.const is not None:
                n = st.store.constval(e-s)
                if n is not None and n*8 == ct[1].w: out.add((s.const, ct[1].w))
        return out
    def cell(self, st, off, w):
        bs = st.mem[self.p.r].read_parts(E(off), E(w//8), st.store)
        q = parts_to_seq(bs, st.store)
        bs = q.bytes(w//8, st.store)
        return concat_le(bs[::-1] if self.hm.I.big() else bs)
    def roles(self):
        hm = self.hm
        lay = set()
        for _, st in self.images: lay |= self.layout(st)
        cells = []
        pos = 0
        # storage that ever holds message bytes
        held = set()
        for _, st in self.images:
            for s, e, ct, _ in hm.segs(st, self.p):
                if ct[0] == 's' and ct[1] == 'Msg':
                    lo = st.store.lower(s); hi = st.store.upper(e)
                    held |= set(range(lo, hi))
        for off, w in sorted(lay):
            if any(b in held for b in range(off, off+w//8)): continue
            if off < pos:
                if cells and cells[-1] == (off, w): continue
                raise Unknown('overlapping members at offset %d' % off)
            cells.append((off, w)); pos = off+w//8
        self.held = held
        vals = {}
        for c in cells: vals[c] = [(k, st, self.cell(st, *c)) for k, st in self.images]
        self.chain = []; self.count = []; self.const = []
        from .interp import isctl
        for c in cells:
            vs = vals[c]
            if any(datadep(v) for _, _, v in vs): self.chain.append(c)
            elif all(v is vs[0][2] for _, _, v in vs) and vs[0][2].k == 'c': self.const.append((c, vs[0][2]))
            else: self.count.append(c)
        self.vals = vals
        # buffer extent: maximal run of non-member bytes around the message bytes
        cellb = {b for off, w in cells for b in range(off, off+w//8)}
        self.bufs = []
        if held:
            lo, hi = min(held), max(held)+1
            if any(b in cellb for b in range(lo, hi)): raise Unknown('buffer overlaps members')
            ext = hi
            while ext < hm.size and ext not in cellb: ext += 1
            while lo > 0 and lo-1 not in cellb: lo -= 1
            coefs = set()
            for k, st in self.images:
                for s, e, ct, _ in hm.segs(st, self.p):
                    if ct[0] == 's' and ct[1] == 'Msg':
                        coefs |= {abs(q) for v, q in ct[2].d if v != 'n'}
            cands = [b for b in range(ext, hi-1, -1) if all(q % (b-lo) == 0 for q in coefs)]
            if not cands: raise Unknown('buffer size')
            self.bufs.append((lo, cands[0]))
        self.N = self.bufs[0][1]-self.bufs[0][0] if self.bufs else 1
        # other storage (e.g. buffers of sub-objects that hold no message bytes): constant or undefined
        self.other = []
        rest = [b for b in range(hm.size) if b not in cellb and not any(lo <= b < hi for lo, hi in self.bufs)]
        self.rest = rest
    def general(self, K='K', stale=True):
        """state G, pointer"""
        hm = self.hm
        st, p = hm.start(self.p.r.split('.')[0])
        st = State(); st.mem[self.p.r] = self.D.mem[self.p.r].copy(st.uid); p = self.p
        k = V(K)
        C = k*self.N
        st.store = st.store.add_ge0(k).add_ge0(E(MAXLEN)-C)
        self.C = C
        if self.conc:
            B = 2
            if K != 'K': raise Unknown('two general states')
            st.store = st.store.add_eq0(k-B)
            at = hm.update(self.D.clone(), p, 'Msg', ZERO, E(B*self.N))
            if len(at) != 1: raise Unknown('state after whole blocks')
        for j, (off, w) in enumerate(self.chain): self.put(st, off, sym(w, ('chain', j)))
        self.kvars = []
        for c in self.count:
            off, w = c
            # value at a block boundary reached from the default state
            if self.conc:
                self.put(st, off, self.cell(at[0], off, w)); continue
            e = self.boundary(c, k)
            if e is None:
                kk = V('%s.%d' % (K, off)); st.store = st.store.add_ge0(kk).add_ge0(E(MAXLEN)-kk*self.N); e = kk*self.N; self.kvars.append(kk)
            self.put(st, off, iv(e, w))
        if stale:
            for lo, hi in self.bufs:
                st.wregion(p.r).put(E(lo), E(hi), [(ZERO, E(hi-lo), ('s', 'Stale', E(lo)))], None, st.store)
        return st, p
    def put(self, st, off, v):
        R = st.wregion(self.p.r)
        if self.hm.I.big():
            bs = [extract(v, 8*j, 8) for j in range(v.w//8)][::-1]
            if R.segs is None:
                for j, b in enumerate(bs): R.bm[off+j] = (b, 0)
            else: R.put(E(off), E(off+len(bs)), [(E(j), E(j+1), ('w', b, 0)) for j, b in enumerate(bs)], None, st.store)
        elif R.segs is None:
            for j in range(v.w//8): R.bm[off+j] = (v, j)
        else: R.put(E(off), E(off+v.w//8), [(ZERO, E(v.w//8), ('w', v, 0))], None, st.store)
    def boundary(self, c, k):
        """value of a counter after k whole blocks (E), None if it is not determined by them"""
        off, w = c
        d = None
        moved = False
        for kind, st, v in self.vals[c]:
            if kind == 'S' and v.k != 'c': moved = True
        if not moved:
            # not advanced by update: any whole number of blocks
            return None
        for kind, st, v in self.vals[c]:
            if kind != 'S': continue
            s = st.store.add_eq0(V('n')-V(k.vars()[0])*self.N)
            if s is None: continue
            st2 = st.clone(); st2.store = s
            if s.constval(V('n')) is None:
                for a in (0, self.N, -self.N, 1, -1):
                    if verdict(v, iv(k*self.N+a, w), s, {}) == 'eq': return k*self.N+(0 if a % self.N == 0 else a)
            e = st2.view(v)
            if e is None: raise Unknown('counter value')
            e = st2.store.norm(e)
            if st2.store.constval(V('n')) is not None: continue
            kc = st2.store.constval(e)
            if kc is not None: return E(kc)
            # express through k
            for a in (0, 1, -1, self.N, -self.N):
                if st2.store.eq0(e-k*self.N-a): return k*self.N if a % self.N == 0 else k*self.N+a
        raise Unknown('counter at a block boundary')
    # ---------------------------------------------------------------- images
    def widen(self, st, L):
        """buffer bytes that cannot be pending become Stale"""
        st = st.clone()
        for lo, hi in self.bufs:
            parts = st.mem[self.p.r].read_parts(E(lo), E(hi-lo), st.store)
            new = []
            for a, b, ct in parts:
                live = False
                if ct[0] == 's' and ct[1] == 'Msg' and st.store.eq0(a):
                    ln = b-a
                    if st.store.eq0(ct[2]+ln-L) and st.store.ge0(E(hi-lo-1)-ln): live = True
                if ct[0] == 'w':
                    live = any(True for x in [0] if datadep(ct[1])) and False
                new.append((a, b, ct if live else ('s', 'Stale', E(lo)+a)))
            st.wregion(self.p.r).put(E(lo), E(hi), new, None, st.store)
        return st
    def compare(self, A, B, store, facts, subB):
        """A (state) is an instance of B (state, to be renamed by subB); yields (what, verdict)"""
        out = []
        f = lambda x: tm.subst(x, {}, {'vars': subB})
        for name, lst in (('chaining word', self.chain), ('counter', self.count)):
            for off, w in lst:
                a = self.cell(A, off, w); b = f(self.cell(B, off, w))
                out.append(('%s at offset %d' % (name, off), verdict(a, b, store, facts)))
        for (off, w), v in self.const:
            a = self.cell(A, off, w)
            out.append(('member at offset %d' % off, verdict(a, v, store, facts)))
        for lo, hi in self.bufs:
            parts = B.mem[self.p.r].read_parts(E(lo), E(hi-lo), B.store)
            for a, b, ct in parts:
                if ct[0] == 's' and ct[1] == 'Stale': continue
                a2, b2 = a.sub(subB), b.sub(subB)
                if store.eq0(b2-a2): continue
                want = parts_to_seq([(a, b, ct)], B.store).subst(f, {'vars': subB})
                qa = parts_to_seq(A.mem[self.p.r].read_parts(E(lo)+a2, b2-a2, store), store)
                out.append(('buffer', verdict(qa, want, store, facts)))
        return out
_dd = {}
def datadep(t):
    r = _dd.get(t)
    if r is None:
        if t.k == 'c': r = False
        elif t.k == 'a' and t.a[0] in ('cv', 'sb', 'upd', 'sym', 'mul', 'fin'): r = True
        else: r = any(datadep(c) for c in tm.children(t))
        _dd[t] = r
    return r
def rename(st, keep):
    """variables of a state renamed apart: (mapping)"""
    vs = set()
    for c, d in st.store.cons: vs |= {v for v, _ in d}
    for v, e in st.store.eqs.items(): vs |= {v} | set(e.vars())
    for r in st.mem.values():
        if r.kind == 'obj':
            R = r.copy(None); R.to_segs()
            for s, e, ct, l in R.segs:
                vs |= set(s.vars()) | set(e.vars())
                for x in ct[1:]:
                    if isinstance(x, T): vs |= termvars(x)
                    elif isinstance(x, E): vs |= set(x.vars())
    return {v: fresh('r') for v in vs if v not in keep}
def conj_sub(store, other, sub):
    """store and other[sub]"""
    for v, e in other.eqs.items():
        store = store.add_eq0(V(v).sub(sub)-e.sub(sub))
        if store is None: return None
    for c, d in other.cons:
        store = store.add_ge0(E(c, d).sub(sub))
        if store is None: return None
    return store
