"""Byte sequences, pointers and array-segmentation memory."""
from . import terms as tm
from .terms import T, const, extract, concat_le, atom
from .aff import E, V, Ei, ZERO, Store

class NeedFork(Exception):
    """the analysis must be partitioned on  e >= 0"""
    def __init__(self, e): self.e = e
class NeedForkBool(Exception):
    def __init__(self, c): self.c = c
class Unknown(Exception):
    """the abstraction cannot represent this construct"""

class Ptr:
    __slots__ = ('r', 'off', '_h')
    def __init__(self, r, off=ZERO):
        self.r = r; self.off = off if isinstance(off, E) else E(off); self._h = None
    def __eq__(self, o): return isinstance(o, Ptr) and self.r == o.r and self.off == o.off
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.r, self.off))
    def __repr__(self): return '&%s[%s]' % (self.r, self.off)
    @property
    def w(self): return PTRBITS[0]
    def subst(self, f, sm):
        if sm and 'vars' in sm:
            o = self.off.sub(sm['vars'])
            return self if o is self.off else Ptr(self.r, o)
        return self
PTRBITS = [64]
NULL = Ptr(None, 0)
class FnPtr:
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn
    w = 64

def iv(e, w=64):
    """term of an affine expression (value mod 2^w)"""
    e = Ei(e)
    d = {}
    for v, k in e.d: d[atom(w, 'iv', V(v))] = k
    return tm.from_lin(w, e.c, d)
tm.REBUILD['iv'] = lambda w, a: iv(a[1], w)

class Seq(tm.Seq):
    """canonical byte sequence: tuple of pieces
       ('s', stream, off, len)   bytes stream[off, off+len)
       ('f', byte, len)          len copies of a byte
       ('b', byte)               one byte term
       ('r', var, count, Seq)    repetition: Seq[var:=0], ..., Seq[var:=count-1]"""
    __slots__ = ('p', '_h')
    def __init__(self, p): self.p = p; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash(self.p)
        return self._h
    def __eq__(self, o): return isinstance(o, Seq) and self.p == o.p
    def __ne__(self, o): return not self == o
    def __repr__(self):
        out = []
        for p in self.p:
            if p[0] == 's': out.append('%s[%s;+%s]' % (p[1], p[2], p[3]))
            elif p[0] == 'f': out.append('%s^%s' % (tm.show(p[1], 3), p[2]))
            elif p[0] == 'b': out.append(tm.show(p[1], 3))
            else: out.append('rep(%s<%s){%r}' % (p[1], p[2], p[3]))
        return '<' + ' | '.join(out) + '>'
    def terms(self):
        out = []
        for p in self.p:
            if p[0] in 'fb': out.append(p[1])
            elif p[0] == 'r': out.extend(p[3].terms())
        return out
    def support_into(self, s):
        for p in self.p:
            if p[0] == 's': s.add(p[1])
            elif p[0] == 'r': p[3].support_into(s)
    def length(self):
        n = ZERO
        for p in self.p: n = n + plen(p)
        return n
    def subst(self, f, sm):
        out = SeqB(None)
        ch = False
        vm = sm.get('vars') if sm else None
        stm = sm.get('streams') if sm else None
        for p in self.p:
            if p[0] == 's':
                if stm and p[1] in stm:
                    ch = True
                    o = p[2].sub(vm) if vm else p[2]
                    L = (p[3].sub(vm) if vm else p[3]).const
                    if L is None: raise Unknown('stream substitution')
                    for j in range(L): out.add(('b', stm[p[1]](o+j)))
                    continue
                q = ('s', p[1], p[2].sub(vm) if vm else p[2], p[3].sub(vm) if vm else p[3])
            elif p[0] == 'f': q = ('f', f(p[1]), p[2].sub(vm) if vm else p[2])
            elif p[0] == 'b': q = ('b', f(p[1]))
            else: q = ('r', p[1], p[2].sub(vm) if vm else p[2], p[3].subst(f, sm))
            if q != p: ch = True
            out.add(q)
        r = out.seq()
        return r if ch or r.p != self.p else self
    def slice(self, off, ln, store):
        """sub-sequence at provable positions (store None: constants / syntactic only)"""
        st = store or _EMPTY
        out = SeqB(store); pos = ZERO; end = off+ln
        for p in self.p:
            s = pos; e = pos+plen(p); pos = e
            if st.le(e, off) or st.le(end, s): continue
            if st.le(off, s): a = s
            elif st.le(s, off): a = off
            else: raise NeedFork(s-off)
            if st.le(e, end): b = e
            elif st.le(end, e): b = end
            else: raise NeedFork(end-e)
            if p[0] == 's': out.add(('s', p[1], p[2]+(a-s), b-a))
            elif p[0] == 'f': out.add(('f', p[1], b-a))
            elif p[0] == 'b': out.add(p)
            else:
                if a == s and b == e: out.add(p)
                else: raise Unknown('slice of a repetition')
        return out.seq()
    def byte(self, i, store):
        """byte term at constant index i"""
        q = self.slice(E(i), E(1), store).p
        if len(q) != 1: raise Unknown('byte of sequence')
        return piece_byte(q[0])
    def bytes(self, n, store):
        out = []
        L = store.constval(self.length())
        if L != n: raise Unknown('sequence length')
        for p in self.p:
            k = store.constval(plen(p))
            if k is None: raise NeedForkConst(plen(p))
            for j in range(k): out.append(piece_byte(p, j))
        return out
class NeedForkConst(Exception):
    """the analysis must be partitioned on the value of e"""
    def __init__(self, e): self.e = e
_EMPTY = Store()
def plen(p):
    if p[0] == 's': return p[3]
    if p[0] == 'f': return p[2]
    if p[0] == 'b': return E(1)
    return p[2]*p[3].length().const if p[3].length().const is not None else _bad()
def _bad(): raise Unknown('length of repetition')
def piece_byte(p, j=0):
    if p[0] == 's': return sb(p[1], p[2]+j)
    return p[1]
def sb(stream, off): return atom(8, 'sb', stream, off)
def _rebuild_sb(w, a): return atom(8, 'sb', a[1], a[2])
class SeqB:
    """builder that keeps pieces merged"""
    def __init__(self, store): self.p = []; self.st = store
    def n(self, e): return self.st.norm(e) if self.st else e
    def add(self, q):
        k = q[0]
        if k == 'b':
            t = q[1]
            if t.k == 'c': q = ('f', t, E(1)); k = 'f'
            elif t.k == 'a' and t.a[0] == 'sb': q = ('s', t.a[1], self.n(t.a[2]), E(1)); k = 's'
        if k == 's':
            q = ('s', q[1], self.n(q[2]), self.n(q[3]))
            if q[3] == 0: return
            if self.p:
                l = self.p[-1]
                if l[0] == 's' and l[1] == q[1] and l[2]+l[3] == q[2]:
                    self.p[-1] = ('s', l[1], l[2], l[3]+q[3]); return
        elif k == 'f':
            q = ('f', q[1], self.n(q[2]))
            if q[2] == 0: return
            if self.p:
                l = self.p[-1]
                if l[0] == 'f' and l[1] is q[1]:
                    self.p[-1] = ('f', l[1], l[2]+q[2]); return
        elif k == 'r':
            q = ('r', q[1], self.n(q[2]), q[3])
            if q[2] == 0: return
            r = _rep_to_slice(q)
            if r: return self.add(r)
        self.p.append(q)
    def addseq(self, s):
        for q in s.p: self.add(q)
    def seq(self): return Seq(tuple(self.p))
def _rep_to_slice(q):
    s = q[3]
    if len(s.p) == 1:
        p = s.p[0]
        if p[0] == 's' and p[3].const is not None:
            co = dict(p[2].d).get(q[1], 0)
            if co == p[3].const: return ('s', p[1], p[2].sub({q[1]: ZERO}), q[2]*co)
        if p[0] == 'f' and p[2].const is not None: return ('f', p[1], q[2]*p[2].const)
    return None
EMPTYSEQ = Seq(())

def val_bytes(v):
    return [extract(v, 8*i, 8) for i in range(v.w//8)]

class Region:
    """conc mode: bm maps byte offset -> (value, byte index); otherwise segs is an ordered list of
       (start, end, content, loc), content in ('w',val,k) ('f',byte) ('s',stream,off) ('u',)"""
    __slots__ = ('id', 'size', 'bm', 'segs', 'bg', 'kind', 'owner', 'name', 'loc', 'log')
    def __init__(self, id, size, bg=('u',), kind='stack', name=None):
        self.id = id; self.size = Ei(size); self.bm = {}; self.segs = None; self.bg = bg; self.kind = kind; self.owner = None
        self.name = name or id; self.loc = {}; self.log = None
    def copy(self, owner):
        r = Region.__new__(Region)
        r.id = self.id; r.size = self.size; r.bm = dict(self.bm) if self.bm is not None else None
        r.segs = list(self.segs) if self.segs is not None else None
        r.bg = self.bg; r.kind = self.kind; r.owner = owner; r.name = self.name; r.loc = self.loc; r.log = self.log
        return r
    def bgseg(self, s, e):
        b = self.bg
        if b[0] == 's': return (s, e, ('s', b[1], s+b[2]), None)
        return (s, e, b, None)
    def to_segs(self):
        if self.segs is not None: return
        out = []; pos = ZERO; ks = sorted(self.bm)
        i = 0; cur = 0
        while i < len(ks):
            o = ks[i]
            if o > cur: out.append(self.bgseg(E(cur), E(o)))
            v, k = self.bm[o]
            n = 1; W = v.w//8
            while k+n < W and self.bm.get(o+n) == (v, k+n): n += 1
            out.append((E(o), E(o+n), ('w', v, k), None))
            cur = o+n; i += n
        if not (self.size == cur): out.append(self.bgseg(E(cur), self.size))
        self.segs = merge(out, _EMPTY); self.bm = None
    # -- reads
    def load(self, off, n, st):
        """list of n byte terms, or a whole value"""
        c = off.const
        if self.segs is None:
            if c is None:
                self_ = self
                k = st.constval(off)
                if k is None:
                    # symbolic read of a concrete region
                    if self.bg[0] == 's' and not self.bm: return [self._bgbyte(off+j) for j in range(n)]
                    raise NeedForkConst(off)
                c = k
            bm = self.bm
            f = bm.get(c)
            if f is not None and f[1] == 0 and f[0].w == 8*n:
                v = f[0]
                for j in range(1, n):
                    g = bm.get(c+j)
                    if g is None or g[0] is not v or g[1] != j: break
                else: return v
            out = []
            for j in range(n):
                g = bm.get(c+j)
                if g is None: out.append(self._bgbyte(E(c+j)))
                else: out.append(_vb(g[0], g[1]))
            return out
        out = []; j = 0
        while j < n:
            o = off+j
            seg = self.find(o, st)
            s, e, ct, _ = seg
            if ct[0] == 'w':
                d = st.constval(o-s)
                if d is None: raise NeedForkConst(o-s)
                k = ct[2]+d
                if j == 0 and k == 0 and ct[1].w == 8*n and st.constval(e-s) >= n: return ct[1]
                out.append(_vb(ct[1], k))
            elif ct[0] == 'f': out.append(ct[1])
            elif ct[0] == 's': out.append(sb(ct[1], st.norm(ct[2]+(o-s))))
            elif ct[0] == 'm':   # ('m', var, term8) : byte at s+var
                out.append(tm.subst(ct[2], {}, {'vars': {ct[1]: st.norm(o-s)}}))
            else: out.append(undef8())
            j += 1
        return out
    def _bgbyte(self, o):
        b = self.bg
        if b[0] == 'u': return undef8()
        if b[0] == 'f': return b[1]
        if b[0] == 'w0': return const(8, 0)
        return sb(b[1], o+b[2])
    def find(self, o, st):
        for seg in self.segs:
            s, e = seg[0], seg[1]
            oc, ec = o.const, e.const
            if oc is not None and ec is not None:
                if oc < ec: return self._chk(seg, o, st)
                continue
            if st.ge0(o-e): continue
            if st.ge0(e-o-1): return self._chk(seg, o, st)
            raise NeedFork(e-o-1)
        raise Unknown('read outside of region %s at %s' % (self.name, o))
    def _chk(self, seg, o, st):
        return seg
    # -- writes
    def store(self, off, val, loc, st):
        n = val.w//8
        c = off.const
        if c is None: c = st.constval(off)
        if self.segs is None and c is not None:
            bm = self.bm
            if n == 1: bm[c] = (val, 0)
            else:
                for j in range(n): bm[c+j] = (val, j)
            self.loc[c] = loc
            return
        self.to_segs()
        self.put(off if c is None else E(c), (E(c) if c is not None else off)+n, [(ZERO, E(n), ('w', val, 0))], loc, st)
    def put(self, a, b, parts, loc, st):
        """replace [a,b) by parts given relative to a"""
        self.to_segs()
        out = []; done = False
        new = [(a+x, a+y, c, loc) for x, y, c in parts]
        for seg in self.segs:
            s, e, ct, l = seg
            if st.le(e, a):
                out.append(seg); continue
            if st.le(b, s):
                if not done: out.extend(new); done = True
                out.append(seg); continue
            if st.le(a, s): left = None
            elif st.le(s, a): left = cut(seg, s, a, st)
            else: raise NeedFork(s-a)
            if st.le(e, b): right = None
            elif st.le(b, e): right = cut(seg, b, e, st)
            else: raise NeedFork(e-b)
            if left: out.append(left)
            if not done: out.extend(new); done = True
            if right: out.append(right)
        if not done: out.extend(new)
        self.segs = merge(out, st)
    def read_parts(self, a, n, st):
        """content of [a, a+n) as parts relative to a"""
        if self.segs is None:
            ac, nc = st.constval(a), st.constval(n)
            if ac is not None and nc is not None:
                out = []; j = 0
                while j < nc:
                    g = self.bm.get(ac+j)
                    if g is None:
                        k = 1
                        while j+k < nc and (ac+j+k) not in self.bm: k += 1
                        s = self.bgseg(E(ac+j), E(ac+j+k)); out.append((E(j), E(j+k), s[2])); j += k
                    else:
                        k = 1
                        while j+k < nc and self.bm.get(ac+j+k) == (g[0], g[1]+k): k += 1
                        out.append((E(j), E(j+k), ('w', g[0], g[1]))); j += k
                return out
            r = self.copy(None); r.to_segs()
            return r.read_parts(a, n, st)
        b = a+n; out = []
        for seg in self.segs:
            s, e = seg[0], seg[1]
            if st.le(e, a) or st.le(b, s): continue
            if st.le(a, s): lo = s
            elif st.le(s, a): lo = a
            else: raise NeedFork(s-a)
            if st.le(e, b): hi = e
            elif st.le(b, e): hi = b
            else: raise NeedFork(b-e)
            c = cut(seg, lo, hi, st)
            if c: out.append((st.norm(lo-a), st.norm(hi-a), c[2]))
        return out

def _vb(v, k):
    if isinstance(v, (Ptr, FnPtr)): return ('pb', v, k)
    return extract(v, 8*k, 8)
_und = [0]
def undef8():
    _und[0] += 1
    return atom(8, 'undef', _und[0])
def cut(seg, lo, hi, st):
    s, e, ct, l = seg
    d = st.norm(lo-s)
    if ct[0] == 'w':
        k = st.constval(d); n = st.constval(hi-lo)
        if k is None: raise NeedForkConst(d)
        if n is None: raise NeedForkConst(hi-lo)
        if n == 0: return None
        return (lo, hi, ('w', ct[1], ct[2]+k), l)
    if ct[0] == 's': return (lo, hi, ('s', ct[1], ct[2]+d), l)
    if ct[0] == 'm':
        return (lo, hi, ('m', ct[1], tm.subst(ct[2], {}, {'vars': {ct[1]: V(ct[1])+d}})), l)
    return (lo, hi, ct, l)
def merge(segs, st):
    out = []
    for seg in segs:
        s, e, ct, l = seg
        if s == e or st.norm(e-s) == 0: continue
        # canonicalise byte words that are stream bytes or constants
        if ct[0] == 'w' and isinstance(ct[1], T):
            n = (e-s).const
            t = ct[1]
            if n == 1:
                bt = extract(t, 8*ct[2], 8)
                if bt.k == 'c': ct = ('f', bt)
                elif bt.k == 'a' and bt.a[0] == 'sb': ct = ('s', bt.a[1], bt.a[2])
            seg = (s, e, ct, l)
        if out:
            ps, pe, pc, pl = out[-1]
            if pe == s or st.norm(s-pe) == 0:
                if ct[0] == 'f' and pc[0] == 'f' and pc[1] is ct[1]:
                    out[-1] = (ps, e, pc, l); continue
                if ct[0] == 's' and pc[0] == 's' and pc[1] == ct[1] and st.norm(pc[2]+(pe-ps)-ct[2]) == 0:
                    out[-1] = (ps, e, pc, l); continue
                if ct[0] == 'u' and pc[0] == 'u':
                    out[-1] = (ps, e, pc, l); continue
        out.append(seg)
    return out
def parts_to_seq(parts, st):
    sbd = SeqB(st)
    for a, b, ct in parts:
        if ct[0] == 'w':
            n = st.constval(b-a)
            for j in range(n):
                x = _vb(ct[1], ct[2]+j)
                if isinstance(x, tuple) and isinstance(x[1], Ptr) and x[1].r is None and x[1].off.const is not None: x = const(8, (x[1].off.const >> (8*x[2])) & 255)
                elif isinstance(x, tuple): x = tm.extract(atom(64, 'addr', x[1].r if isinstance(x[1], Ptr) else 'fn', x[1].off if isinstance(x[1], Ptr) else 0), 8*x[2], 8)
                sbd.add(('b', x))
        elif ct[0] == 'f': sbd.add(('f', ct[1], b-a))
        elif ct[0] == 's': sbd.add(('s', ct[1], ct[2], b-a))
        elif ct[0] == 'u':
            n = st.constval(b-a)
            sbd.add(('s', 'undef', ZERO, b-a))
        elif ct[0] == 'm':
            v = ct[1]
            sbd.add(('r', v, b-a, Seq((('b', ct[2]),))))
    return sbd.seq()
