"""Published definitions of the algorithms, written over the term domain.

Each specification gives: block size N, word widths, initial words, block function, and the
finalisation as a function of (words after the whole blocks, remaining bytes, length).  They are
validated on constants against independent implementations / published vectors (tools/validate_specs.py)."""
import math
from . import terms as tm
from .terms import T, const, add, sub, xor, and_, or_, not_, rotl, rotr, shl, lshr, mul, scale, concat_le, zext, trunc, extract, sym
from .aff import E, V, ZERO, fresh
from .mem import *
from .template import Template, cv

def le(bs): return concat_le(bs)
def be(bs): return concat_le(bs[::-1])
def words(bs, n, f): return [f(bs[i:i+n]) for i in range(0, len(bs), n)]
def bytes_le(t): return [extract(t, 8*i, 8) for i in range(t.w//8)]
def bytes_be(t): return bytes_le(t)[::-1]
def low(t, w):
    """low bits of a length; on a target with 32-bit lengths as the affine term of that width"""
    if PTRBITS[0] == w:
        c0, d = tm.to_lin(t)
        if all(x.k == 'a' and x.a[0] == 'iv' for x in d): return tm.from_lin(w, c0, {iv(x.a[1], w): k for x, k in d.items()}) if all(iv(x.a[1], w).k == 'a' for x in d) else trunc(t, w)
    return trunc(t, w)
def k32(v): return const(32, v)
def k64(v): return const(64, v)

class Ctx:
    """path condition being refined while a specification is stated"""
    def __init__(self, store, facts, L, base=ZERO, stream='Msg', names=None):
        self.store = store; self.facts = facts; self.L = L; self.base = base; self.stream = stream
        self.names = names; self.k = 0
    def fresh(self, p):
        """the same variable for the same occurrence, over all cases of one refinement"""
        self.k += 1
        if self.names is None: return fresh(p)
        key = (p, self.k)
        if key not in self.names: self.names[key] = fresh(p)
        return self.names[key]
    def add(self, e):
        s = self.store.add_ge0(e)
        if s is None: raise Infeasible()
        self.store = s
    def eq(self, e):
        s = self.store.add_eq0(e)
        if s is None: raise Infeasible()
        self.store = s
    def divmod(self, e, N):
        """e = N q + r"""
        q = self.fresh('Q'); self.add(q)
        self.add(e-q*N); self.add(q*N+(N-1)-e)
        n = self.store.norm(q)
        lo, hi = self.store.lower(n), self.store.upper(n)
        if lo is not None and lo == hi: n = E(lo)
        return n, self.store.norm(e-n*N)
    def const(self, e):
        k = self.store.constval(e)
        if k is None:
            f = NeedForkConst(e); f.store = self.store; raise f
        return k
    def ge0(self, e):
        if self.store.ge0(e): return True
        if self.store.ge0(-e-1): return False
        f = NeedFork(e); f.store = self.store; raise f
    def msg(self, off, n):
        b = SeqB(self.store); b.add(('s', self.stream, self.base+off, Ei(n))); return b.seq()
    def byte(self, off): return sb(self.stream, self.base+off)
class Infeasible(Exception): pass
def refine(store, facts, fn):
    """all (store, value) of fn over the partition it asks for"""
    todo = [store]; out = []; n = 0
    while todo:
        s = todo.pop(); n += 1
        if n > 3000: raise Unknown('too many specification cases')
        try: out.append(fn(s))
        except Infeasible: pass
        except NeedForkConst as f:
            s = getattr(f, 'store', s); e = s.norm(f.e); lo, hi = s.lower(e), s.upper(e)
            if lo is None or hi is None or hi-lo > 600: raise Unknown('specification case split')
            for v in range(hi, lo-1, -1):
                s2 = s.add_eq0(e-v)
                if s2 is not None: todo.append(s2)
        except NeedFork as f:
            s = getattr(f, 'store', s)
            for e in (f.e, -f.e-1):
                s2 = s.add_ge0(e)
                if s2 is not None: todo.append(s2)
    return out

class Spec:
    _cache = {}
    out = None            # result bytes; None: integer words
    def template(self):
        t = Spec._cache.get(self.name)
        if t is None:
            X = [sym(w, ('X', i)) for i, w in enumerate(self.widths)]
            B = [sb('B', E(i)) for i in range(self.N)]
            t = Template(self.N, tuple(self.widths), tuple(self.block(X, B))); Spec._cache[self.name] = t
        return t
    def absorb(self, X, seq): return cv(self.template(), X, seq)

# -------------------------------------------------------------------------------- FNV-1a
class Fnv1a(Spec):
    N = 1
    def __init__(self, w):
        self.w = w; self.name = 'fnv1a_%d' % w; self.widths = (w,)
        self.basis, self.prime = {32: (0x811c9dc5, 0x01000193), 64: (0xcbf29ce484222325, 0x100000001b3)}[w]
    def init(self): return [const(self.w, self.basis)]
    def block(self, X, B): return [scale(xor(X[0], zext(B[0], self.w)), self.prime)]
    def final(self, c, X0):
        X = self.absorb(X0, c.msg(ZERO, c.L))
        return bytes_le(X[0])
    def advance(self, X): return self.block(X, [const(8, 255)])

# -------------------------------------------------------------------------------- SipHash
class Sip(Spec):
    def __init__(self, w):
        self.w = w; self.N = w//8; self.name = 'siphash_%d' % w; self.widths = (w,)*4
    def init(self, k0=0, k1=0):
        if self.w == 64: iv0 = [0x736f6d6570736575, 0x646f72616e646f6d, 0x6c7967656e657261, 0x7465646279746573]
        else: iv0 = [0, 0, 0x6c796765, 0x74656462]
        k = [k0, k1, k0, k1]
        return [xor(const(self.w, a), b if isinstance(b, T) else const(self.w, b)) for a, b in zip(iv0, k)]
    def round(self, v):
        v0, v1, v2, v3 = v
        r = (13, 32, 16, 21, 17, 32) if self.w == 64 else (5, 16, 8, 7, 13, 16)
        v0 = add(v0, v1); v1 = rotl(v1, r[0]); v1 = xor(v1, v0); v0 = rotl(v0, r[1])
        v2 = add(v2, v3); v3 = rotl(v3, r[2]); v3 = xor(v3, v2)
        v0 = add(v0, v3); v3 = rotl(v3, r[3]); v3 = xor(v3, v0)
        v2 = add(v2, v1); v1 = rotl(v1, r[4]); v1 = xor(v1, v2); v2 = rotl(v2, r[5])
        return [v0, v1, v2, v3]
    def block(self, X, B):
        m = le(B); v = list(X)
        v[3] = xor(v[3], m); v = self.round(self.round(v)); v[0] = xor(v[0], m)
        return v
    def last(self, c, X0):
        q, r = c.divmod(c.L, self.N)
        X = self.absorb(X0, c.msg(ZERO, q*self.N))
        b = SeqB(c.store); b.addseq(c.msg(q*self.N, r)); b.add(('f', const(8, 0), E(self.N-1)-r)); b.add(('b', trunc(c.total, 8)))
        X = self.absorb(X, b.seq())
        v = list(X); v[2] = xor(v[2], const(self.w, 0xff))
        for _ in range(4): v = self.round(v)
        return v
    def final(self, c, X0):
        v = self.last(c, X0)
        return bytes_le(xor(xor(v[0], v[1]), xor(v[2], v[3]))) if self.w == 64 else bytes_le(xor(v[1], v[3]))

# -------------------------------------------------------------------------------- xxHash
class XX(Spec):
    def __init__(self, w):
        self.w = w; self.N = w//2; self.name = 'xxhash_%d' % w; self.widths = (w,)*4
        self.P = {32: [2654435761, 2246822519, 3266489917, 668265263, 374761393],
                  64: [11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261]}[w]
    def k(self, v): return const(self.w, v)
    def init(self, seed=None):
        s = seed if seed is not None else self.k(0)
        P = self.P
        return [add(s, self.k(P[0]+P[1])), add(s, self.k(P[1])), s, sub(s, self.k(P[0]))]
    def round(self, a, x):
        P = self.P
        return scale(rotl(add(a, scale(x, P[1])), 13 if self.w == 32 else 31), P[0])
    def block(self, X, B):
        n = self.w//8
        return [self.round(X[i], le(B[n*i:n*i+n])) for i in range(4)]
    def pre(self, c, X0):
        """accumulator before the final avalanche"""
        P = self.P; w = self.w
        q, r = c.divmod(c.L, self.N)
        X = self.absorb(X0, c.msg(ZERO, q*self.N))
        if c.longmsg(self.N):
            h = add(add(rotl(X[0], 1), rotl(X[1], 7)), add(rotl(X[2], 12), rotl(X[3], 18)))
            if w == 64:
                for i in range(4):
                    h = xor(h, self.round(self.k(0), X[i])); h = add(scale(h, P[0]), self.k(P[3]))
        else: h = add(X[2], self.k(P[4]))
        h = add(h, trunc(c.total, w) if w < 64 else c.total)
        m = c.const(r); o = q*self.N
        B = [c.byte(o+i) for i in range(m)]; i = 0
        if w == 64:
            while m-i >= 8:
                h = xor(h, self.round(self.k(0), le(B[i:i+8]))); h = add(scale(rotl(h, 27), P[0]), self.k(P[3])); i += 8
            if m-i >= 4:
                h = xor(h, scale(zext(le(B[i:i+4]), 64), P[0])); h = add(scale(rotl(h, 23), P[1]), self.k(P[2])); i += 4
            while i < m:
                h = xor(h, scale(zext(B[i], 64), P[4])); h = scale(rotl(h, 11), P[0]); i += 1
        else:
            while m-i >= 4:
                h = add(h, scale(le(B[i:i+4]), P[2])); h = scale(rotl(h, 17), P[3]); i += 4
            while i < m:
                h = add(h, scale(zext(B[i], 32), P[4])); h = scale(rotl(h, 11), P[0]); i += 1
        return X, h
    def final(self, c, X0):
        P = self.P
        _, h = self.pre(c, X0)
        a, b, d = (15, 13, 16) if self.w == 32 else (33, 29, 32)
        h = xor(h, lshr(h, a)); h = scale(h, P[1]); h = xor(h, lshr(h, b)); h = scale(h, P[2]); h = xor(h, lshr(h, d))
        return bytes_le(h)

# -------------------------------------------------------------------------------- MD construction
class MD(Spec):
    lenbytes = 8; bigend = False
    def padded(self, c):
        """message ++ padding; c.total: 64-bit length in bytes"""
        N = self.N; lb = self.lenbytes
        z = c.fresh('Z'); q = c.fresh('Q'); c.add(q); c.add(z); c.add(E(N-1)-z)
        c.eq(c.tail_len + (1 + lb) + z - q*N)
        z = c.store.norm(z)
        bits = shl(c.total, 3)
        lenb = bytes_be(bits) if self.bigend else bytes_le(bits)
        b = SeqB(c.store); b.addseq(c.msg(ZERO, c.L)); b.add(('b', const(8, 0x80))); b.add(('f', const(8, 0), z + (lb-8 if self.bigend else 0)))
        for x in lenb: b.add(('b', x))
        return b.seq()
    def final(self, c, X0):
        X = self.absorb(X0, self.padded(c))
        out = []
        for x in X: out += bytes_be(x) if self.bigend else bytes_le(x)
        return out[:self.out]
class MD5(MD):
    name = 'md5_128'; N = 64; widths = (32,)*4; out = 16
    K = [int(abs(math.sin(i+1))*2**32) & 0xffffffff for i in range(64)]
    S = [7, 12, 17, 22]*4+[5, 9, 14, 20]*4+[4, 11, 16, 23]*4+[6, 10, 15, 21]*4
    def init(self): return [k32(v) for v in (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476)]
    def block(self, X, B):
        M = words(B, 4, le); a, b, c, d = X
        for i in range(64):
            if i < 16: f = or_(and_(b, c), and_(not_(b), d)); g = i
            elif i < 32: f = or_(and_(d, b), and_(not_(d), c)); g = (5*i+1) % 16
            elif i < 48: f = xor(xor(b, c), d); g = (3*i+5) % 16
            else: f = xor(c, or_(b, not_(d))); g = (7*i) % 16
            t = add(add(a, f), add(M[g], k32(self.K[i])))
            a, d, c, b = d, c, b, add(b, rotl(t, self.S[i]))
        return [add(x, y) for x, y in zip(X, (a, b, c, d))]
class SHA1(MD):
    name = 'sha1_160'; N = 64; widths = (32,)*5; out = 20; bigend = True
    def init(self): return [k32(v) for v in (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0)]
    def block(self, X, B):
        W = words(B, 4, be)
        for t in range(16, 80): W.append(rotl(xor(xor(W[t-3], W[t-8]), xor(W[t-14], W[t-16])), 1))
        a, b, c, d, e = X
        for t in range(80):
            if t < 20: f, k = or_(and_(b, c), and_(not_(b), d)), 0x5a827999
            elif t < 40: f, k = xor(xor(b, c), d), 0x6ed9eba1
            elif t < 60: f, k = or_(or_(and_(b, c), and_(b, d)), and_(c, d)), 0x8f1bbcdc
            else: f, k = xor(xor(b, c), d), 0xca62c1d6
            tmp = add(add(add(rotl(a, 5), f), add(e, k32(k))), W[t])
            e, d, c, b, a = d, c, rotl(b, 30), a, tmp
        return [add(x, y) for x, y in zip(X, (a, b, c, d, e))]
def primes(n):
    out = []; k = 2
    while len(out) < n:
        if all(k % p for p in out): out.append(k)
        k += 1
    return out
def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length()//k+2)
    while lo < hi:
        m = (lo+hi+1)//2
        if m**k <= n: lo = m
        else: hi = m-1
    return lo
def frac_root(p, k, bits): return iroot(p << (bits*k), k) & ((1 << bits)-1)
class SHA2(MD):
    bigend = True
    IVS = {'sha2_224': [0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4],
           'sha2_512_224': [0x8C3D37C819544DA2, 0x73E1996689DCD4D6, 0x1DFAB7AE32FF9C82, 0x679DD514582F9FCF, 0x0F6D2B697BD44DA8, 0x77E36F7304C48942, 0x3F9D85A86A1D36C8, 0x1112E6AD91D692A1],
           'sha2_512_256': [0x22312194FC2BF72C, 0x9F555FA3C84C64C2, 0x2393B86B6F53B151, 0x963877195940EABD, 0x96283EE875EAEB67 & 0, 0, 0, 0]}
    def __init__(self, name, w, out):
        self.name = name; self.w = w; self.N = w*2; self.widths = (w,)*8; self.out = out; self.lenbytes = w//4
        P = primes(80)
        self.K = [frac_root(p, 3, w) for p in P[:64 if w == 32 else 80]]
        if name == 'sha2_256': self.iv = [frac_root(p, 2, 32) for p in P[:8]]
        elif name == 'sha2_512': self.iv = [frac_root(p, 2, 64) for p in P[:8]]
        elif name == 'sha2_384': self.iv = [frac_root(p, 2, 64) for p in P[8:16]]
        elif name == 'sha2_224': self.iv = [frac_root(p, 2, 64) & 0xffffffff for p in P[8:16]]
        else: self.iv = None
    def init(self):
        if self.iv is None:
            # FIPS 180-4 5.3.6: SHA-512/t IV generation
            s = SHA2('sha2_512', 64, 64); s.iv = [v ^ 0xa5a5a5a5a5a5a5a5 for v in s.iv]
            m = ('SHA-512/%d' % (self.out*8)).encode()
            blk = m + b'\x80' + bytes(128-17-len(m)) + (8*len(m)).to_bytes(16, 'big')
            self.iv = [x.a for x in s.block([k64(v) for v in s.iv], [const(8, b) for b in blk])]
        return [const(self.w, v) for v in self.iv]
    def template(self):
        key = 'sha2_%d' % self.w
        t = Spec._cache.get(key)
        if t is None:
            n = self.name; self.name = key; t = Spec.template(self); self.name = n
        return t
    def block(self, X, B):
        w = self.w; n = w//8
        if w == 32: s0 = (7, 18, 3); s1 = (17, 19, 10); S0 = (2, 13, 22); S1 = (6, 11, 25)
        else: s0 = (1, 8, 7); s1 = (19, 61, 6); S0 = (28, 34, 39); S1 = (14, 18, 41)
        sg = lambda x, r: xor(xor(rotr(x, r[0]), rotr(x, r[1])), lshr(x, r[2]))
        SG = lambda x, r: xor(xor(rotr(x, r[0]), rotr(x, r[1])), rotr(x, r[2]))
        W = words(B, n, be)
        for t in range(16, len(self.K)): W.append(add(add(sg(W[t-2], s1), W[t-7]), add(sg(W[t-15], s0), W[t-16])))
        a, b, c, d, e, f, g, h = X
        for t in range(len(self.K)):
            ch = xor(and_(e, f), and_(not_(e), g)); maj = xor(xor(and_(a, b), and_(a, c)), and_(b, c))
            t1 = add(add(add(h, SG(e, S1)), add(ch, const(w, self.K[t]))), W[t]); t2 = add(SG(a, S0), maj)
            h, g, f, e, d, c, b, a = g, f, e, add(d, t1), c, b, a, add(t1, t2)
        return [add(x, y) for x, y in zip(X, (a, b, c, d, e, f, g, h))]
class RMD(MD):
    N = 64
    R = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8],
         [3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12], [1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2],
         [4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]]
    RP = [[5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12], [6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2],
          [15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13], [8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14],
          [12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]]
    S = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12],
         [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5], [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12],
         [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]]
    SP = [[8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6], [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11],
          [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5], [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8],
          [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]]
    KL = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
    def __init__(self, bits):
        self.bits = bits; self.name = 'ripemd_%d' % bits; self.out = bits//8; self.widths = (32,)*(bits//32)
    def init(self): return [k32(v) for v in (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0)[:self.bits//32]]
    def f(self, j, x, y, z):
        if j == 0: return xor(xor(x, y), z)
        if j == 1: return or_(and_(x, y), and_(not_(x), z))
        if j == 2: return xor(or_(x, not_(y)), z)
        if j == 3: return or_(and_(x, z), and_(y, not_(z)))
        return xor(x, or_(y, not_(z)))
    def block(self, X, B):
        M = words(B, 4, le)
        if self.bits == 160:
            KP = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
            L = list(X); Rr = list(X)
            for j in range(80):
                r, i = divmod(j, 16)
                A, Bb, C, D, Ee = L
                t = add(rotl(add(add(A, self.f(r, Bb, C, D)), add(M[self.R[r][i]], k32(self.KL[r]))), self.S[r][i]), Ee)
                L = [Ee, t, Bb, rotl(C, 10), D]
                A, Bb, C, D, Ee = Rr
                t = add(rotl(add(add(A, self.f(4-r, Bb, C, D)), add(M[self.RP[r][i]], k32(KP[r]))), self.SP[r][i]), Ee)
                Rr = [Ee, t, Bb, rotl(C, 10), D]
            return [add(add(X[1], L[2]), Rr[3]), add(add(X[2], L[3]), Rr[4]), add(add(X[3], L[4]), Rr[0]), add(add(X[4], L[0]), Rr[1]), add(add(X[0], L[1]), Rr[2])]
        KP = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0]
        L = list(X); Rr = list(X)
        for j in range(64):
            r, i = divmod(j, 16)
            A, Bb, C, D = L
            t = rotl(add(add(A, self.f(r, Bb, C, D)), add(M[self.R[r][i]], k32(self.KL[r]))), self.S[r][i])
            L = [D, t, Bb, C]
            A, Bb, C, D = Rr
            t = rotl(add(add(A, self.f(3-r, Bb, C, D)), add(M[self.RP[r][i]], k32(KP[r]))), self.SP[r][i])
            Rr = [D, t, Bb, C]
        return [add(add(X[1], L[2]), Rr[3]), add(add(X[2], L[3]), Rr[0]), add(add(X[3], L[0]), Rr[1]), add(add(X[0], L[1]), Rr[2])]

# -------------------------------------------------------------------------------- MurmurHash3
class Murmur32(Spec):
    name = 'murmur3_32'; N = 4; widths = (32,)
    def init(self, seed=None): return [seed if seed is not None else k32(0)]
    def k1(self, k): return scale(rotl(scale(k, 0xcc9e2d51), 15), 0x1b873593)
    def block(self, X, B): return [add(scale(rotl(xor(X[0], self.k1(le(B))), 13), 5), k32(0xe6546b64))]
    def final(self, c, X0):
        q, r = c.divmod(c.L, 4); h = self.absorb(X0, c.msg(ZERO, q*4))[0]
        m = c.const(r)
        if m: h = xor(h, self.k1(zext(le([c.byte(q*4+i) for i in range(m)]), 32)))
        h = xor(h, low(c.total, 32))
        h = xor(h, lshr(h, 16)); h = scale(h, 0x85ebca6b); h = xor(h, lshr(h, 13)); h = scale(h, 0xc2b2ae35); h = xor(h, lshr(h, 16))
        return bytes_le(h)
class Murmur128(Spec):
    name = 'murmur3_128'; N = 16; widths = (64, 64); C1 = 0x87c37b91114253d5; C2 = 0x4cf5ad432745937f
    def init(self, s1=None, s2=None): return [s1 if s1 is not None else k64(0), s2 if s2 is not None else (s1 if s1 is not None else k64(0))]
    def k1(self, k): return scale(rotl(scale(k, self.C1), 31), self.C2)
    def k2(self, k): return scale(rotl(scale(k, self.C2), 33), self.C1)
    def block(self, X, B):
        h1, h2 = X
        h1 = xor(h1, self.k1(le(B[:8]))); h1 = add(rotl(h1, 27), h2); h1 = add(scale(h1, 5), k64(0x52dce729))
        h2 = xor(h2, self.k2(le(B[8:]))); h2 = add(rotl(h2, 31), h1); h2 = add(scale(h2, 5), k64(0x38495ab5))
        return [h1, h2]
    def fmix(self, k):
        k = xor(k, lshr(k, 33)); k = scale(k, 0xff51afd7ed558ccd); k = xor(k, lshr(k, 33)); k = scale(k, 0xc4ceb9fe1a85ec53)
        return xor(k, lshr(k, 33))
    def final(self, c, X0):
        q, r = c.divmod(c.L, 16); h1, h2 = self.absorb(X0, c.msg(ZERO, q*16))
        m = c.const(r); B = [c.byte(q*16+i) for i in range(m)]
        if m > 8: h2 = xor(h2, self.k2(zext(le(B[8:]), 64)))
        if m > 0: h1 = xor(h1, self.k1(zext(le(B[:8]), 64)))
        h1 = xor(h1, c.total); h2 = xor(h2, c.total)
        h1 = add(h1, h2); h2 = add(h2, h1); h1 = self.fmix(h1); h2 = self.fmix(h2); h1 = add(h1, h2); h2 = add(h2, h1)
        return bytes_le(h1)+bytes_le(h2)

# -------------------------------------------------------------------------------- SpookyHash V2
class Spooky(Spec):
    name = 'spooky2_128'; N = 96; widths = (64,)*12; SC = 0xdeadbeefdeadbeef
    def init(self, s1=None, s2=None):
        a = s1 if s1 is not None else k64(0); b = s2 if s2 is not None else k64(0)
        return [a, b, k64(self.SC)]*4
    def block(self, X, B):
        s = list(X); R = [11, 32, 43, 31, 17, 28, 39, 57, 55, 54, 22, 46]
        for i in range(12):
            s[i] = add(s[i], le(B[8*i:8*i+8])); s[(i+2) % 12] = xor(s[(i+2) % 12], s[(i+10) % 12]); s[(i+11) % 12] = xor(s[(i+11) % 12], s[i])
            s[i] = rotl(s[i], R[i]); s[(i+11) % 12] = add(s[(i+11) % 12], s[(i+1) % 12])
        return s
    def endp(self, h):
        R = [44, 15, 34, 21, 38, 33, 10, 13, 38, 53, 42, 54]
        for i in range(12):
            a, b, c = (i+11) % 12, (i+1) % 12, (i+2) % 12
            h[a] = add(h[a], h[b]); h[c] = xor(h[c], h[a]); h[b] = rotl(h[b], R[i])
        return h
    def smix(self, h):
        R = [50, 52, 30, 41, 54, 48, 38, 37, 62, 34, 5, 36]
        for i in range(12):
            a, b, c = (i+2) % 4, (i+3) % 4, i % 4
            h[a] = add(rotl(h[a], R[i]), h[b]); h[c] = xor(h[c], h[a])
        return h
    def send(self, h):
        R = [15, 52, 26, 51, 28, 9, 47, 54, 32, 25, 63]
        for i in range(11):
            a, b = (i+3) % 4, (i+2) % 4
            h[a] = xor(h[a], h[b]); h[b] = rotl(h[b], R[i]); h[a] = add(h[a], h[b])
        return h
    def state(self, c, X0):
        """(h0, h1, all words or None)"""
        if not c.longmsg(192):
            n = c.const(c.L); B = [c.byte(E(i)) for i in range(n)]
            h = [X0[0], X0[1], k64(self.SC), k64(self.SC)]; i = 0
            while n-i >= 32:
                h[2] = add(h[2], le(B[i:i+8])); h[3] = add(h[3], le(B[i+8:i+16])); h = self.smix(h)
                h[0] = add(h[0], le(B[i+16:i+24])); h[1] = add(h[1], le(B[i+24:i+32])); i += 32
            if n-i >= 16:
                h[2] = add(h[2], le(B[i:i+8])); h[3] = add(h[3], le(B[i+8:i+16])); h = self.smix(h); i += 16
            h[3] = add(h[3], k64(n << 56))
            m = n-i
            if m == 0: h[2] = add(h[2], k64(self.SC)); h[3] = add(h[3], k64(self.SC))
            else:
                t = B[i:]+[const(8, 0)]*(16-m); h[2] = add(h[2], le(t[:8])); h[3] = add(h[3], le(t[8:]))
            h = self.send(h)
            return h[0], h[1], None
        q, r = c.divmod(c.L, 96); X = self.absorb(X0, c.msg(ZERO, q*96))
        m = c.const(r); B = [c.byte(q*96+i) for i in range(m)]+[const(8, 0)]*(95-m)+[const(8, m)]
        h = [add(x, le(B[8*i:8*i+8])) for i, x in enumerate(X)]
        for _ in range(3): h = self.endp(h)
        return h[0], h[1], h
    def final(self, c, X0):
        a, b, _ = self.state(c, X0)
        return bytes_le(a)+bytes_le(b)

SPECS = {s.name: s for s in [Fnv1a(32), Fnv1a(64), Sip(32), Sip(64), XX(32), XX(64), MD5(), SHA1(), SHA2('sha2_224', 32, 28), SHA2('sha2_256', 32, 32),
         SHA2('sha2_384', 64, 48), SHA2('sha2_512', 64, 64), SHA2('sha2_512_224', 64, 28), SHA2('sha2_512_256', 64, 32), RMD(128), RMD(160),
         Murmur32(), Murmur128(), Spooky()]}
SHA2.IVS = None
