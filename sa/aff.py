"""Affine integer expressions and a linear-constraint store (Fourier-Motzkin with integer
tightening) for the control quantities: lengths, fill levels, offsets, trip counts."""
from math import gcd

class E:
    __slots__ = ('c', 'd', '_h')
    def __init__(self, c=0, d=()):
        self.c = c; self.d = d; self._h = None
    def __hash__(self):
        h = self._h
        if h is None: h = self._h = hash((self.c, self.d))
        return h
    def __eq__(self, o):
        if isinstance(o, int): return not self.d and self.c == o
        return isinstance(o, E) and self.c == o.c and self.d == o.d
    def __ne__(self, o): return not self == o
    def __repr__(self):
        s = []
        for v, k in self.d: s.append(str(v) if k == 1 else '%d*%s' % (k, v))
        if self.c or not s: s.append(str(self.c))
        return '+'.join(s).replace('+-', '-')
    @property
    def const(self): return None if self.d else self.c
    def __add__(self, o):
        if isinstance(o, int): return E(self.c+o, self.d) if o else self
        if not o.d: return E(self.c+o.c, self.d) if o.c else self
        if not self.d: return E(self.c+o.c, o.d)
        m = dict(self.d)
        for v, k in o.d:
            n = m.get(v, 0)+k
            if n: m[v] = n
            else: m.pop(v, None)
        return E(self.c+o.c, tuple(sorted(m.items())))
    __radd__ = __add__
    def __mul__(self, k):
        if k == 1: return self
        if k == 0: return ZERO
        return E(self.c*k, tuple((v, q*k) for v, q in self.d))
    __rmul__ = __mul__
    def __neg__(self): return self*-1
    def __sub__(self, o): return self + (-o)
    def __rsub__(self, o): return (-self)+o
    def vars(self): return [v for v, _ in self.d]
    def sub(self, m):
        """substitute variables"""
        r = None
        for v, k in self.d:
            if v in m:
                r = 1; break
        if r is None: return self
        acc = E(self.c, tuple((v, k) for v, k in self.d if v not in m))
        for v, k in self.d:
            if v in m: acc = acc + m[v]*k
        return acc
    # when embedded in a term
    def subst(self, f, sm):
        return self.sub(sm['vars']) if sm and 'vars' in sm else self
ZERO = E(0); ONE = E(1)
def V(name): return E(0, ((name, 1),))
def Ei(n): return n if isinstance(n, E) else E(n)
_ctr = [0]
def fresh(prefix):
    _ctr[0] += 1
    return V('%s#%d' % (prefix, _ctr[0]))
def reset_fresh(): _ctr[0] = 0

def _norm(c, d):
    """constraint c + sum d >= 0, tightened; returns key or None if trivially true, False if false"""
    if not d: return None if c >= 0 else False
    g = 0
    for k in d.values(): g = gcd(g, k)
    if g > 1:
        d = {v: k//g for v, k in d.items()}; c = c//g      # floor
    return (c, tuple(sorted(d.items())))

class Store:
    """immutable set of constraints; add() returns a new store, or None when unsatisfiable"""
    __slots__ = ('cons', 'eqs', 'cache', 'tag')
    def __init__(self, cons=(), eqs=None):
        self.cons = cons; self.eqs = eqs or {}; self.cache = {}; self.tag = None
    def norm(self, e):
        if not self.eqs: return e
        while True:
            n = e.sub(self.eqs)
            if n is e or n == e: return n
            e = n
    def _with(self, newcons):
        seen = {}
        for c, d in newcons:
            o = seen.get(d)
            if o is None or c < o: seen[d] = c
        return tuple((c, d) for d, c in seen.items())
    def add_ge0(self, e):
        e = self.norm(e)
        k = _norm(e.c, dict(e.d))
        if k is None: return self
        if k is False: return None
        lo = self.lower(e)
        if lo is not None and lo >= 0: return self
        hi = self.upper(e)
        if hi is not None and hi < 0: return None
        s = Store(self._with(self.cons + (k,)), self.eqs)
        if hi == 0: return s.add_eq0(e)
        return s
    def add_eq0(self, e):
        e = self.norm(e)
        if not e.d: return self if e.c == 0 else None
        pick = None
        for v, k in e.d:
            if abs(k) == 1: pick = (v, k)
        if pick is None:
            g = 0
            for v, k in e.d: g = gcd(g, k)
            if e.c % g: return None
            e = E(e.c//g, tuple((v, k//g) for v, k in e.d))
            for v, k in e.d:
                if abs(k) == 1: pick = (v, k)
            if pick is None:
                s = Store(self._with(self.cons + (_norm(e.c, dict(e.d)), _norm(-e.c, {v: -k for v, k in e.d}))), self.eqs)
                return s if s.sat() else None
        v, k = pick
        rest = E(e.c, tuple((x, q) for x, q in e.d if x != v))
        val = rest*(-1 if k == 1 else 1)
        m = {v: val}
        eqs = {x: y.sub(m) for x, y in self.eqs.items()}; eqs[v] = val
        nc = []
        for c, d in self.cons:
            x = E(c, d).sub(m); q = _norm(x.c, dict(x.d))
            if q is None: continue
            if q is False: return None
            nc.append(q)
        s = Store(self._with(nc), eqs)
        if not s.sat(): return None
        # implied equalities e >= 0 and -e >= 0
        for c, d in s.cons:
            nd = tuple((x, -q) for x, q in d)
            for c2, d2 in s.cons:
                if d2 == nd and c2 == -c: return s.add_eq0(E(c, d))
        return s
    def sat(self):
        r = self.cache.get('sat')
        if r is None:
            r = _proj([(c, dict(d)) for c, d in self.cons], None) is not False
            self.cache['sat'] = r
        return r
    def lower(self, e):
        """greatest provable lower bound of e (None = -inf)"""
        e = self.norm(e)
        if not e.d: return e.c
        base = E(0, e.d)
        r = self.cache.get(base)
        if r is None:
            r = (self._lower(base),); self.cache[base] = r
        return None if r[0] is None else r[0]+e.c
    def upper(self, e):
        r = self.lower(-e)
        return None if r is None else -r
    def _lower(self, e):
        # relevant constraints
        vs = set(e.vars()); rows = []; todo = [(c, dict(d)) for c, d in self.cons]
        ch = True
        while ch:
            ch = False
            rest = []
            for c, d in todo:
                if any(v in vs for v in d):
                    rows.append((c, d)); vs.update(d); ch = True
                else: rest.append((c, d))
            todo = rest
        rows = [(c, dict(d)) for c, d in rows]
        z = ('\x00z')
        d = {v: k for v, k in e.d}; d[z] = -1
        rows.append((0, d)); rows.append((0, {v: -k for v, k in d.items()}))
        return _proj(rows, z)
    def ge0(self, e):
        lo = self.lower(e)
        return lo is not None and lo >= 0
    def eq0(self, e):
        e = self.norm(e)
        if not e.d: return e.c == 0
        return self.lower(e) == 0 and self.upper(e) == 0
    def le(self, a, b): return self.ge0(b-a)
    def constval(self, e):
        e = self.norm(e)
        if not e.d: return e.c
        lo = self.lower(e)
        if lo is not None and self.upper(e) == lo: return lo
        return None
    def conj(self, other):
        s = self
        for v, x in other.eqs.items():
            s = s.add_eq0(V(v)-x)
            if s is None: return None
        for c, d in other.cons:
            s = s.add_ge0(E(c, d))
            if s is None: return None
        return s
    def __repr__(self):
        return '{' + ', '.join('%s>=0' % E(c, d) for c, d in self.cons) + ('; ' + ', '.join('%s=%s' % kv for kv in self.eqs.items()) if self.eqs else '') + '}'

def _proj(rows, z):
    a = _proj1(rows, z, True)
    if a is False: return False
    if z is None and len(rows) < 3: return a
    b = _proj1(rows, z, False)
    if b is False or a is None: return b
    return a if b is None else max(a, b)
def _proj1(rows, z, exact):
    """eliminate every variable but z; return lower bound of z (None if unbounded), False if unsat"""
    cons = {}
    for c, d in rows:
        k = _norm(c, d)
        if k is None: continue
        if k is False: return False
        o = cons.get(k[1])
        if o is None or k[0] < o: cons[k[1]] = k[0]
    while True:
        vs = {}
        for d in cons:
            for v, k in d:
                if v == z: continue
                p = vs.setdefault(v, [0, 0, 0, 0])
                if k > 0:
                    p[0] += 1
                    if k > 1: p[2] = 1
                else:
                    p[1] += 1
                    if k < -1: p[3] = 1
        if not vs: break
        # unit coefficients on one side: the projection is exact over the integers
        if exact: v = min(vs, key=lambda q: (vs[q][2] & vs[q][3], vs[q][0]*vs[q][1]))
        else: v = min(vs, key=lambda q: vs[q][0]*vs[q][1])
        pos = []; negs = []; rest = {}
        for d, c in cons.items():
            k = 0
            for x, q in d:
                if x == v: k = q; break
            if k > 0: pos.append((k, c, d))
            elif k < 0: negs.append((-k, c, d))
            else: rest[d] = c
        for kp, cp, dp in pos:
            for kn, cn, dn in negs:
                m = {x: q*kn for x, q in dp}
                for x, q in dn:
                    n = m.get(x, 0)+q*kp
                    if n: m[x] = n
                    else: m.pop(x, None)
                m.pop(v, None)
                r = _norm(cp*kn+cn*kp, m)
                if r is None: continue
                if r is False: return False
                o = rest.get(r[1])
                if o is None or r[0] < o: rest[r[1]] = r[0]
        cons = rest
        if len(cons) > 400: return None     # give up: no bound
    lo = None
    hi = None
    for d, c in cons.items():
        (v, k), = d
        if k > 0:
            b = -(c//k); lo = b if lo is None else max(lo, b)
        else:
            b = c//(-k); hi = b if hi is None else min(hi, b)
    if lo is not None and hi is not None and lo > hi: return False if z is None else lo
    return lo
