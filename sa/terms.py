"""Hash-consed value-number domain over fixed-width words.

Canonical forms (all equality below is identity of the hash-consed object):
  'c'  constant
  'l'  linear combination  c0 + sum ci*ti   (mod 2^w)
  'b'  bitwise polynomial over GF(2): XOR of monomials, a monomial being an AND of leaves
       (t, off) whose bit i is bit i+off of t; each monomial carries the mask of bit positions
       at which it is present.  Rotations, shifts, truncations, byte (dis)assembly, boolean
       functions in any formulation all meet in the same form.
  'a'  opaque application (op, args): input symbols, non-linear products, comparisons, ...
"""
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('k', 'w', 'a', 'id', 'pm', 'sup', '_h')
    def __repr__(self): return show(self, 6)

_tab = {}
_n = [0]
def _mk(k, w, a, pm):
    key = (k, w, a)
    t = _tab.get(key)
    if t is None:
        t = T(); t.k = k; t.w = w; t.a = a; t.pm = pm; t.sup = None; t._h = None
        _n[0] += 1; t.id = _n[0]
        _tab[key] = t
    return t

_full = [(1 << i) - 1 for i in range(0, 520)]
def full(w): return _full[w] if w < 520 else (1 << w)-1

def const(w, v): return _mk('c', w, v & full(w), v & full(w))
def atom(w, *a, pm=None): return _mk('a', w, a, full(w) if pm is None else pm)
def sym(w, name, pm=None): return atom(w, 'sym', name, pm=pm)
def is_const(t): return t.k == 'c'

# ---- linear
def to_lin(t):
    k = t.k
    if k == 'l': return t.a[0], dict(t.a[1])
    if k == 'c': return t.a, {}
    if k == 'b':
        a = t.a
        if len(a) == 1:
            mono, mask = a[0]
            if len(mono) == 1:
                x, off = mono[0]
                if off < 0 and mask == (x.pm << -off) & full(t.w):
                    base = x if x.w == t.w else (zext(x, t.w) if x.w < t.w else (trunc(x, t.w) if t.w >= 16 else None))
                    if base is not None:
                        if base.k == 'l':
                            c0, d = to_lin(base); m = 1 << -off; f = full(t.w)
                            return (c0*m) & f, {y: (c*m) & f for y, c in d.items()}
                        return 0, {base: 1 << -off}
        elif a[0][0] == () and a[0][1] == full(t.w):
            y = from_bits(t.w, dict(a[1:]))
            c0, d = to_lin(y); f = full(t.w)
            return (-1 - c0) & f, {x: (-c) & f for x, c in d.items()}
    return 0, {t: 1}

def from_lin(w, c0, d):
    f = full(w)
    d = {t: c & f for t, c in d.items() if c & f}
    c0 &= f
    if not d: return const(w, c0)
    if len(d) == 1:
        (t, c), = d.items()
        if c == 1 and c0 == 0: return t
        if c == f and c0 == f:          # -1 - t
            b = dict(to_bits(t)); b[()] = b.get((), 0) ^ f
            return from_bits(w, b)
    # common power of two
    g = c0
    for c in d.values(): g |= c
    tz = (g & -g).bit_length() - 1
    if tz > 0:
        base = from_lin(w, c0 >> tz, {t: c >> tz for t, c in d.items()})
        return _shl_bits(base, tz)
    return _mk('l', w, (c0, tuple(sorted(d.items(), key=lambda kv: kv[0].id))), f)

def add(x, y):
    if x.k == 'c':
        if y.k == 'c': return const(x.w, x.a + y.a)
        if x.a == 0: return y
    elif y.k == 'c' and y.a == 0: return x
    if not (x.pm & y.pm): return xor(x, y)
    if x.k == 'b' and y.k == 'b' and len(x.a) <= 4 and len(y.a) <= 4 and and_(x, y).k == 'c': return xor(x, y)
    c1, d1 = to_lin(x); c2, d2 = to_lin(y)
    if len(d1) < len(d2): d1, d2 = d2, d1
    for t, c in d2.items(): d1[t] = d1.get(t, 0) + c
    return from_lin(x.w, c1+c2, d1)
def scale(x, c):
    c &= full(x.w)
    if c == 1: return x
    if x.k == 'c': return const(x.w, x.a*c)
    if c and c & (c-1) == 0 and x.k != 'l': return _shl_bits(x, c.bit_length()-1)
    c0, d = to_lin(x)
    return from_lin(x.w, c0*c, {t: k*c for t, k in d.items()})
def neg(x): return scale(x, -1)
def sub(x, y):
    if x is y: return const(x.w, 0)
    if y.k == 'c' and y.a == 0: return x
    c1, d1 = to_lin(x); c2, d2 = to_lin(y)
    for t, c in d2.items(): d1[t] = d1.get(t, 0) - c
    return from_lin(x.w, c1-c2, d1)
def mul(x, y):
    if x.k == 'c': return scale(y, x.a)
    if y.k == 'c': return scale(x, y.a)
    if x.id > y.id: x, y = y, x
    return atom(x.w, 'mul', x, y)

# ---- bits
def to_bits(t):
    if t.k == 'b': return t.a
    if t.k == 'c': return (((), t.a),) if t.a else ()
    if t.k == 'a' and t.a[0] == 'sext':
        x = t.a[1]; lo = full(x.w)
        return tuple(sorted(list(to_bits(x)) + [(((t, 0),), full(t.w) & ~lo)], key=_mkey))
    return ((((t, 0),), t.pm),)
def _mkey(mm): return tuple((t.id, o) for t, o in mm[0])
MAXMONO = 3000
def from_bits(w, d):
    if not isinstance(d, dict): d = dict(d)
    f = full(w)
    items = [(m, k & f) for m, k in d.items() if k & f]
    if not items: return const(w, 0)
    for m, k in items:
        for t, o in m:
            if o < 0 and t.k == 'l' and (t.w > w >= 16 or t.w == w and _lred(t, w+o) is not t): return _reduced(w, items)
    if len(items) == 1:
        m, k = items[0]
        if not m: return const(w, k)
        if len(m) == 1:
            t, off = m[0]
            if off == 0 and k == t.pm & f:
                if t.w == w: return t
                if t.w > w >= 16 and t.k == 'l': return trunc(t, w)
            if off < 0 and t.k == 'l' and t.w == w and k == (f << -off) & f:
                return scale(t, 1 << -off) if not _in_shl[0] else _mkbits(w, items)
    return _mkbits(w, items)
_lr = {}
def _lred(t, K):
    """linear term with coefficients modulo 2^K"""
    if K <= 0: return t
    key = (t, K)
    r = _lr.get(key)
    if r is None:
        f = full(K); c0, d = t.a
        if c0 <= f and all(c <= f for _, c in d): r = t
        else: r = from_lin(t.w, c0 & f, {x: c & f for x, c in d})
        _lr[key] = r
    return r
def _reduced(w, items):
    acc = {}; other = []
    nar = lambda t, o: trunc(t, w) if o < 0 and t.k == 'l' and t.w > w >= 16 else t
    for m, k in items:
        if any(nar(t, o) is not t for t, o in m):
            v = const(w, k)
            for t, o in m: v = and_(v, _shift(nar(t, o), o, w))
            other.append(v)
        elif any(o < 0 and t.k == 'l' and t.w == w and _lred(t, w+o) is not t for t, o in m):
            v = const(w, k)
            for t, o in m: v = and_(v, _shift(_lred(t, w+o) if o < 0 and t.k == 'l' and t.w == w else t, o, w))
            other.append(v)
        else: acc[m] = k
    r = from_bits(w, acc) if acc else const(w, 0)
    for v in other: r = xor(r, v)
    return r
_in_shl = [0]
def _mkbits(w, items):
    pm = 0
    for _, k in items: pm |= k
    return _mk('b', w, tuple(sorted(items, key=_mkey)), pm)
def _shl_bits(x, k):
    _in_shl[0] += 1
    try: return _shift(x, -k, x.w)
    finally: _in_shl[0] -= 1
def _shift(x, off, w):
    """result bit i = x bit i+off, width w"""
    out = {}
    f = full(w)
    for m, k in to_bits(x):
        nk = (k >> off if off >= 0 else k << -off) & f
        if nk: out[tuple((t, o+off) for t, o in m)] = nk
    return from_bits(w, out)
def shl(x, k):
    if k >= x.w: return const(x.w, 0)
    if k == 0: return x
    if x.k == 'l': return scale(x, 1 << k)
    return _shift(x, -k, x.w)
def lshr(x, k):
    if k >= x.w: return const(x.w, 0)
    if k == 0: return x
    return _shift(x, k, x.w)
def extract(x, lo, w):
    if lo == 0 and w == x.w: return x
    if lo == 0: return trunc(x, w)
    return _shift(x, lo, w)
def trunc(x, w):
    if w == x.w: return x
    if x.k == 'c': return const(w, x.a)
    if x.k == 'l' and w >= 16:    # bytes stay leaves so that words reassemble
        c0 = x.a[0]; c, d = c0, {}
        for t, k in x.a[1]:
            y = trunc(t, w); cc, dd = to_lin(y)
            c += cc*k
            for z, q in dd.items(): d[z] = d.get(z, 0) + q*k
        return from_lin(w, c, d)
    if x.k == 'a' and x.a[0] in ('sext',) and x.a[1].w >= w: return trunc(x.a[1], w)
    if x.k == 'a' and x.a[0] == 'mul' and w >= 16:
        return mul(trunc(x.a[1], w), trunc(x.a[2], w))
    return from_bits(w, to_bits(x))
def zext(x, w):
    if w == x.w: return x
    if x.k == 'c': return const(w, x.a)
    return from_bits(w, to_bits(x))
def sext(x, w):
    if w == x.w: return x
    if x.k == 'c':
        v = x.a
        if v >> (x.w-1): v -= 1 << x.w
        return const(w, v)
    if not x.pm >> (x.w-1): return zext(x, w)
    if x.k == 'a' and x.a[0] == 'sext': return atom(w, 'sext', x.a[1])
    return atom(w, 'sext', x)
def xor(x, y):
    if x is y: return const(x.w, 0)
    if x.k == 'c' and x.a == 0: return y
    if y.k == 'c' and y.a == 0: return x
    d = dict(to_bits(x))
    for m, k in to_bits(y):
        n = d.get(m, 0) ^ k
        if n: d[m] = n
        else: d.pop(m, None)
    if len(d) > MAXMONO: return atom(x.w, 'xor', *sorted((x, y), key=lambda t: t.id))
    return from_bits(x.w, d)
def and_(x, y):
    if x is y: return x
    if x.k == 'c' and y.k == 'c': return const(x.w, x.a & y.a)
    if x.k == 'c' and (x.a & y.pm) == y.pm: return y
    if y.k == 'c' and (y.a & x.pm) == x.pm: return x
    if not (x.pm & y.pm): return const(x.w, 0)
    bx, by = to_bits(x), to_bits(y)
    if len(bx)*len(by) > MAXMONO: return atom(x.w, 'and', *sorted((x, y), key=lambda t: t.id))
    d = {}
    for m1, k1 in bx:
        for m2, k2 in by:
            k = k1 & k2
            if k:
                if not m1: m = m2
                elif not m2: m = m1
                elif m1 == m2: m = m1
                else: m = tuple(sorted(set(m1) | set(m2), key=lambda lo: (lo[0].id, lo[1])))
                n = d.get(m, 0) ^ k
                if n: d[m] = n
                else: d.pop(m, None)
    return from_bits(x.w, d)
def not_(x): return xor(x, const(x.w, -1))
def or_(x, y):
    if x is y: return x
    if not (x.pm & y.pm): return xor(x, y)
    return xor(xor(x, y), and_(x, y))
def concat_le(parts):
    """little-endian concatenation, parts[0] least significant"""
    w = sum(p.w for p in parts); d = {}; sh = 0
    for p in parts:
        for m, k in to_bits(p):
            nm = tuple((t, o-sh) for t, o in m) if sh else m
            n = d.get(nm, 0) ^ (k << sh)
            if n: d[nm] = n
            else: d.pop(nm, None)
        sh += p.w
    return from_bits(w, d)
def bswap(x):
    n = x.w//8
    return concat_le([extract(x, 8*(n-1-i), 8) for i in range(n)])
def rotl(x, k):
    k %= x.w
    if k == 0: return x
    return xor(shl(x, k), lshr(x, x.w-k))
def rotr(x, k): return rotl(x, (x.w-k) % x.w)
def ite(c, a, b):
    if c.k == 'c': return a if c.a else b
    if a is b: return a
    if a.w == 1:   # boolean multiplexer
        return xor(b, and_(c, xor(a, b)))
    nc = not_(c)
    if nc.id < c.id: return atom(a.w, 'ite', nc, b, a, pm=a.pm | b.pm)
    return atom(a.w, 'ite', c, a, b, pm=a.pm | b.pm)
def eq(x, y):
    if x is y: return const(1, 1)
    if x.k == 'c' and y.k == 'c': return const(1, int(x.a == y.a))
    if x.k == 'c': x, y = y, x
    if y.k == 'c':
        if y.a & ~x.pm: return const(1, 0)
        if x.w == 1: return x if y.a else not_(x)
        if x.k == 'b' and y.a == 0:
            # zext(b) == 0 with a boolean b; or narrow fields
            lo = x.pm & -x.pm
            if x.pm == lo: return not_(extract(x, lo.bit_length()-1, 1))
        if x.k == 'a' and x.a[0] == 'ite':
            a, b = eq(x.a[2], y), eq(x.a[3], y)
            if a.k == 'c' or b.k == 'c': return ite(x.a[1], a, b)
        if x.k == 'l' and y.a == 0 and x.a[0] == 0:
            d = to_lin(x)[1]
            if len(d) == 2 and sorted(d.values()) == [1, (1 << x.w)-1]:
                p, q = d
                if p.w == q.w == x.w: return eq(p, q)
        if x.k == 'l' and x.a[0]:      # move the constant over
            z = add(x, const(x.w, -x.a[0])); c = const(x.w, y.a - x.a[0])
            return atom(1, 'eq', z, c)
    else:
        n = max(x.pm, y.pm).bit_length()
        if 0 < n < x.w: return eq(extract(x, 0, n), extract(y, 0, n))
        if x.id > y.id: x, y = y, x
    d = sub(x, y) if y.k != 'c' else None
    if d is not None and d.k == 'c': return const(1, int(d.a == 0))
    return atom(1, 'eq', x, y)
def ult(x, y):
    if x is y: return const(1, 0)
    if x.k == 'c' and y.k == 'c': return const(1, int(x.a < y.a))
    if y.k == 'c':
        if x.pm < y.a: return const(1, 1)
        if y.a == 0: return const(1, 0)
        if y.a == 1: return eq(x, const(x.w, 0))
    if x.k == 'c':
        if y.pm <= x.a: return const(1, 0)
        if x.a == 0: return not_(eq(y, const(y.w, 0)))
    return atom(1, 'ult', x, y)
def sgn(v, w): return v - (1 << w) if v >> (w-1) else v
def slt(x, y):
    if x is y: return const(1, 0)
    w = x.w
    if x.k == 'c' and y.k == 'c': return const(1, int(sgn(x.a, w) < sgn(y.a, w)))
    top = 1 << (w-1)
    if not x.pm & top and not y.pm & top: return ult(x, y)
    return atom(1, 'slt', x, y)

# ---- traversal
def children(t):
    k = t.k
    if k == 'l': return [x for x, _ in t.a[1]]
    if k == 'b':
        return list({x for m, _ in t.a for x, _ in m})
    if k == 'a':
        out = []
        _ch(t.a[1:], out); return out
    return []
def _ch(a, out):
    for x in a:
        if isinstance(x, T): out.append(x)
        elif isinstance(x, tuple): _ch(x, out)
        elif isinstance(x, Seq): out.extend(x.terms())

class Seq:
    """interned by aff.py / mem.py subclasses"""
    def terms(self): return []

def support(t):
    """set of atoms that have no term children (leaves) below t, plus stream names"""
    if t.sup is not None: return t.sup
    ch = children(t)
    if t.k == 'c': s = frozenset()
    else:
        s = set()
        for c in ch: s |= support(c)
        if t.k == 'a':
            _streams(t.a, s)
            if not ch: s.add(t)
        s = frozenset(s)
    t.sup = s
    return s
def _streams(a, s):
    for x in a:
        if isinstance(x, tuple): _streams(x, s)
        elif hasattr(x, 'support_into'): x.support_into(s)

_submemo = {}
def subst(t, m, seqmap=None, memo=None):
    """replace atoms according to m (dict T->T); seqmap maps embedded non-term arguments"""
    if memo is None: memo = {}
    return _subst(t, m, seqmap, memo)
def _subst(t, m, sm, memo):
    r = m.get(t)
    if r is not None: return r
    r = memo.get(t)
    if r is not None: return r
    k = t.k
    if k == 'c': r = t
    elif k == 'l':
        c, d = t.a[0], {}; ch = False
        subs = []
        for x, q in t.a[1]:
            y = _subst(x, m, sm, memo); subs.append((y, q))
            if y is not x: ch = True
        if not ch: r = t
        else:
            for y, q in subs:
                cc, dd = to_lin(y); c += cc*q
                for z, p in dd.items(): d[z] = d.get(z, 0) + p*q
            r = from_lin(t.w, c, d)
    elif k == 'b':
        leaves = {x for mono, _ in t.a for x, _ in mono}
        mp = {x: _subst(x, m, sm, memo) for x in leaves}
        if all(mp[x] is x for x in leaves): r = t
        else:
            acc = const(t.w, 0); d = {}
            for mono, mask in t.a:
                if not any(mp[x] is not x for x, _ in mono):
                    d[mono] = d.get(mono, 0) ^ mask; continue
                v = const(t.w, mask)
                for x, off in mono:
                    y = mp[x]
                    v = and_(v, shl(y, -off) if off < 0 and y.k == 'l' and y.w == t.w else _shift(y, off, t.w))
                acc = xor(acc, v)
            r = xor(acc, from_bits(t.w, d))
    elif sm and t.a[0] == 'sb' and t.a[1] in sm.get('streams', ()):
        o = t.a[2]
        if 'vars' in sm: o = o.sub(sm['vars'])
        r = sm['streams'][t.a[1]](o)
    else:
        na, ch = _suba(t.a, m, sm, memo)
        r = rebuild(t.w, na, t.pm) if ch else t
    memo[t] = r
    return r
def _suba(a, m, sm, memo):
    out = []; ch = False
    for x in a:
        if isinstance(x, T): y = _subst(x, m, sm, memo)
        elif isinstance(x, tuple):
            y, c = _suba(x, m, sm, memo)
            if not c: y = x
        elif hasattr(x, 'subst'): y = x.subst(lambda q: _subst(q, m, sm, memo), sm)
        else: y = x
        if y is not x and y != x: ch = True
        out.append(y)
    return tuple(out), ch
REBUILD = {}
def rebuild(w, a, pm=None):
    op = a[0]
    f = REBUILD.get(op)
    if f: return f(w, a)
    return atom(w, *a, pm=pm)
REBUILD['mul'] = lambda w, a: mul(a[1], a[2])
REBUILD['eq'] = lambda w, a: eq(a[1], a[2])
REBUILD['ult'] = lambda w, a: ult(a[1], a[2])
REBUILD['slt'] = lambda w, a: slt(a[1], a[2])
REBUILD['ite'] = lambda w, a: ite(a[1], a[2], a[3])
REBUILD['sext'] = lambda w, a: sext(a[1], w)
REBUILD['xor'] = lambda w, a: xor(a[1], a[2])
REBUILD['and'] = lambda w, a: and_(a[1], a[2])

def show(t, d=4):
    if not isinstance(t, T): return str(t)
    if t.k == 'c': return hex(t.a) if t.a > 9 else str(t.a)
    if d <= 0: return '..'
    if t.k == 'l':
        s = [('%s' % show(x, d-1)) if c == 1 else '%s*%s' % (hex(c) if c < (1 << (t.w-1)) else '-'+hex((1 << t.w)-c), show(x, d-1)) for x, c in t.a[1]]
        if t.a[0]: s.append(hex(t.a[0]))
        return '(' + '+'.join(s[:8]) + ('+..' if len(s) > 8 else '') + ')'
    if t.k == 'b':
        s = []
        for m, k in t.a[:6]:
            ms = '.'.join('%s%s' % (show(x, d-1), '' if o == 0 else ('>>%d' % o if o > 0 else '<<%d' % -o)) for x, o in m) or '1'
            s.append('%s&%x' % (ms, k))
        return '{' + '^'.join(s) + ('^..' if len(t.a) > 6 else '') + '}'
    op = t.a[0]
    if op in ('sym', 'iv'): return str(t.a[1])
    return '%s(%s)' % (op, ','.join(_sh(x, d-1) for x in t.a[1:]))
def _sh(x, d):
    if isinstance(x, tuple): return '(' + ','.join(_sh(y, d) for y in x[:4]) + ('..' if len(x) > 4 else '') + ')'
    return show(x, d) if isinstance(x, T) else str(x)
