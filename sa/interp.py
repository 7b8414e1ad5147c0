"""Interprocedural abstract interpreter over LLVM IR.

State = (array-segmentation memory, affine constraints, decided boolean facts); values are
value-number terms, affine offsets into regions, or aggregates.  Undetermined branches partition
the state (trace partitioning); loops with undetermined trip count are summarised inductively
(see loops.py).  Nothing is executed: inputs are symbolic streams of symbolic length."""
import sys, struct
from . import terms as tm
from .terms import T, const, atom, to_bits, sgn, full
from .aff import E, V, Ei, Store, ZERO, fresh
from .mem import *
from . import mem as mm

class Dead(Exception): pass

class State:
    __slots__ = ('mem', 'store', 'facts', 'views', 'events', 'uid', 'trace', 'wlog', 'extra')
    def __init__(self):
        self.mem = {}; self.store = Store(); self.facts = {}; self.views = {}; self.events = []
        self.uid = object(); self.trace = (); self.wlog = None; self.extra = {}
    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.store = self.store; s.facts = dict(self.facts); s.views = dict(self.views)
        s.events = list(self.events); s.trace = self.trace; s.wlog = list(self.wlog) if self.wlog is not None else None
        s.extra = dict(self.extra)
        s.uid = object(); self.uid = object()
        return s
    def region(self, rid): return self.mem[rid]
    def wregion(self, rid):
        r = self.mem[rid]
        if r.owner is not self.uid:
            r = r.copy(self.uid); self.mem[rid] = r
        return r
    # ---- numeric views
    def norm(self, e): return self.store.norm(e)
    def view(self, t, signed=False):
        key = (t, signed)
        r = self.views.get(key)
        if r is not None: return self.store.norm(r)
        r = self._view(t, signed)
        if r is None: return None
        self.views[key] = r
        return self.store.norm(r)
    def _range(self, e, w, signed):
        if signed: lo, hi = -(1 << (w-1)), (1 << (w-1))-1
        else: lo, hi = 0, (1 << w)-1
        st = self.store
        return st.ge0(e-lo) and st.ge0(hi-e)
    def _tovar(self, t):
        v = V('t%d' % t.id)
        r = self.views.get((t, False))
        if r is not None: return r
        s = self.store.add_ge0(v); s = s.add_ge0(t.pm - v) if s else None
        if s is None: raise Dead()
        self.store = s
        self.views[(t, False)] = v
        return v
    def _quot(self, key, x, d):
        """floor(x/d) for affine x, constant d>0"""
        x = self.store.norm(x)
        if x.const is not None: return E(x.const//d)
        if x.d and all(k % d == 0 for _, k in x.d):
            return E(x.c//d, tuple((v, k//d) for v, k in x.d))
        # split off divisible part
        base = E(x.c//d, tuple((v, k//d) for v, k in x.d if k % d == 0))
        rem = E(x.c % d, tuple((v, k) for v, k in x.d if k % d))
        st = self.store
        if st.ge0(rem) and st.ge0(d-1-rem): return base
        lo, hi = st.lower(rem), st.upper(rem)
        if lo is not None and hi is not None and lo//d == hi//d: return base + lo//d
        ck = ('q', rem, d)
        q = self.views.get(ck)
        if q is None:
            q = self._quotcand(rem, d)
            if q is not None: self.views[ck] = q
        if q is None:
            q = fresh('q'); self.views[ck] = q
            s = self.store.add_ge0(rem - q*d)
            s = s.add_ge0(q*d + (d-1) - rem) if s else None
            if s is None: raise Dead()
            self.store = s
        return base + q
    def _quotcand(self, rem, d):
        """a quotient already named in the store"""
        st = self.store; vs = set(rem.vars()); cand = set()
        for c, dd in st.cons:
            m = dict(dd)
            if vs & set(m):
                for v, k in dd:
                    if v not in vs and abs(k) == d: cand.add((v,))
                g = tuple(sorted(v for v, k in dd if v not in vs and abs(k) == d))
                if len(g) == 2 and m[g[0]] == m[g[1]]: cand.add(g)
        for g in sorted(cand):
            q = V(g[0])
            for v in g[1:]: q = q+V(v)
            x = rem - q*d
            lo, hi = st.lower(x), st.upper(x)
            if lo is not None and hi is not None and lo//d == hi//d: return q+lo//d
        return None
    def _view(self, t, signed):
        w = t.w
        k = t.k
        if k == 'c':
            return E(sgn(t.a, w) if signed else t.a)
        if k == 'a':
            op = t.a[0]
            if op == 'iv':
                e = t.a[1]
                if self._range(e, w, signed): return e
                return None if signed else self._wrap(e, w)
            if op == 'sext':
                e = self.view(t.a[1], True)
                if e is None: return None
                if signed: return e
                return e if self.store.ge0(e) else None
            if op == 'udiv' and t.a[2].k == 'c':
                x = self.view(t.a[1])
                if x is None: return None
                return self._quot(t, x, t.a[2].a)
            if op == 'urem' and t.a[2].k == 'c':
                x = self.view(t.a[1])
                if x is None: return None
                return x - self._quot(t, x, t.a[2].a)*t.a[2].a
            if op == 'sdiv' and t.a[2].k == 'c':
                x = self.view(t.a[1], True)
                if x is None: return None
                d = sgn(t.a[2].a, w)
                if d > 0:
                    xn = self.store.norm(x)
                    if all(kk % d == 0 for _, kk in xn.d) and xn.c % d == 0: return E(xn.c//d, tuple((v, kk//d) for v, kk in xn.d))
                    if self.store.ge0(x): return self._quot(t, x, d)
                return None
            if op == 'exactdiv':
                x = self.view(t.a[1], True)
                return self._exact(x, t.a[2])
            v = self._tovar(t)
            if signed:
                if t.pm >> (w-1): 
                    if self.store.ge0((1 << (w-1))-1-v): return v
                    return None
            return v
        if k == 'l':
            e = E(sgn(t.a[0], w))
            for x, c in t.a[1]:
                vx = self._modview(x)
                if vx is None: return None
                e = e + vx*sgn(c, w)
            if not self._range(e, w, signed):
                e = E(sgn(t.a[0], w))
                for x, c in t.a[1]:
                    vx = self.view(x)
                    if vx is None: return None
                    e = e + vx*sgn(c, w)
            if self._range(e, w, signed): return e
            if signed: return None
            return self._wrap(e, w)
        if k == 'b':
            e = ZERO
            for m, mask in t.a:
                if len(m) == 0: 
                    e = e + mask; continue   # constant bits; requires disjointness
                if len(m) != 1: return self._opq(t, signed)
                x, off = m[0]
                lo = (mask & -mask).bit_length()-1; hi = mask.bit_length()-1
                if mask != ((1 << (hi+1))-1) & ~((1 << lo)-1): return self._opq(t, signed)
                a = lo+off; b = hi+off+1
                if x.k == 'l' and b < x.w:
                    e2 = self._lowview(x, b)
                    if e2 is not None:
                        e = e + (e2 if a == 0 else self._quot((x, 'low', b), e2, 1 << a))*(1 << lo); continue
                vx = self.view(x)
                if vx is None: return self._opq(t, signed)
                qa = vx if a == 0 else self._quot(x, vx, 1 << a)
                topbits = x.pm >> b
                if topbits:
                    qb = self._quot(x, vx, 1 << b)
                    val = qa - qb*(1 << (b-a))
                else: val = qa
                e = e + val*(1 << lo)
            tot = 0
            for m, mask in t.a:
                if tot & mask: return self._opq(t, signed)
                tot |= mask
            if signed and t.pm >> (w-1):
                if not self.store.ge0((1 << (w-1))-1-e): return None
            return e
        return None
    def _modview(self, x):
        """an affine value congruent to x modulo 2^width"""
        if x.k == 'b' and len(x.a) == 1 and len(x.a[0][0]) == 1:
            (y, off), = x.a[0][0]
            if off == 0 and y.w > x.w and x.a[0][1] == (1 << x.w)-1:
                v = self.view(y)
                if v is not None: return v
        return self.view(x)
    def _lowview(self, x, b):
        """value of the low b bits of a linear term, when no wrap-around occurs at that width"""
        h = 1 << (b-1); m = (1 << b)-1
        sg = lambda c: ((c & m)+h & m)-h
        e = E(sg(x.a[0]))
        for y, c in x.a[1]:
            c = sg(c)
            if c == 0: continue
            v = self._modview(y)
            if v is None: return None
            e = e+v*c
        e = self.store.norm(e)
        lo, hi = self.store.lower(e), self.store.upper(e)
        if lo is not None and lo >= 0 and hi is not None and hi <= m: return e
        e = E(e.c % (m+1), tuple((v, k) for v, k in e.d if k % (m+1)))
        if e.const is not None: return e
        lo, hi = self.store.lower(e), self.store.upper(e)
        if lo is not None and lo >= 0 and hi is not None and hi <= m: return e
        q = self._quotcand(e, m+1)
        if q is not None: return e-q*(m+1)
        return None
    def _opq(self, t, signed):
        v = self._tovar(t)
        if signed and t.pm >> (t.w-1) and not self.store.ge0((1 << (t.w-1))-1-v): return None
        return v
    def _wrap(self, e, w):
        """value of an affine expression mod 2^w when its range shows how often it wraps"""
        lo, hi = self.store.lower(e), self.store.upper(e)
        if lo is None or hi is None: return None
        if lo >> w == hi >> w: return e - ((lo >> w) << w)
        return None
    def _exact(self, x, d):
        if x is None: return None
        x = self.store.norm(x)
        if x.c % d == 0 and all(k % d == 0 for _, k in x.d): return E(x.c//d, tuple((v, k//d) for v, k in x.d))
        return None
    # ---- facts
    def assume_ge0(self, e):
        s = self.store.add_ge0(e)
        if s is None: return False
        self.store = s
        return True
    def nonzero(self, t):
        f = self.facts.get(('nz', t))
        if f: return True
        if t.k == 'c': return t.a != 0
        if t.k == 'b':
            for m, mask in t.a:
                if len(m) == 1:
                    x, off = m[0]
                    fm = x.pm << -off if off < 0 else x.pm >> off
                    if mask == fm & full(t.w) and (off <= 0) and not any(k2 & mask for m2, k2 in t.a if m2 != m):
                        if (x.pm << -off) == mask and self.nonzero(x): return True
        return False
    def decide_atom(self, a):
        """True/False/None for a boolean atom"""
        f = self.facts.get(a)
        if f is not None: return f
        if a.k == 'a':
            op = a.a[0]
            if op == 'eq':
                x, y = a.a[1], a.a[2]
                if y.k == 'c' and y.a == 0 and self.nonzero(x): return False
                if isctl(x) and isctl(y):
                    vx, vy = self.view(x), self.view(y)
                    if vx is not None and vy is not None:
                        d = vx-vy
                        lo = self.store.lower(d)
                        if lo is not None and lo > 0: return False
                        hi = self.store.upper(d)
                        if hi is not None and hi < 0: return False
                        if lo == 0 and hi == 0: return True
            elif op == 'ult' or op == 'slt':
                x, y = a.a[1], a.a[2]
                vx, vy = self.view(x, op == 'slt'), self.view(y, op == 'slt')
                if vx is not None and vy is not None:
                    if self.store.ge0(vy-vx-1): return True
                    if self.store.ge0(vx-vy): return False
        return None
    def assume_atom(self, a, val):
        """returns False when infeasible"""
        self.facts[a] = val
        if a.k == 'a':
            op = a.a[0]
            if op in ('ult', 'slt'):
                vx, vy = self.view(a.a[1], op == 'slt'), self.view(a.a[2], op == 'slt')
                if vx is not None and vy is not None:
                    return self.assume_ge0(vy-vx-1) if val else self.assume_ge0(vx-vy)
            elif op == 'eq':
                x, y = a.a[1], a.a[2]
                if not val and y.k == 'c' and y.a == 0: self.facts[('nz', x)] = True
                if isctl(x) and isctl(y):
                    vx, vy = self.view(x), self.view(y)
                    if vx is not None and vy is not None:
                        if val:
                            s = self.store.add_eq0(vx-vy)
                            if s is None: return False
                            self.store = s
                        else:
                            d = vx-vy
                            if self.store.ge0(d): return self.assume_ge0(d-1)
                            if self.store.ge0(-d): return self.assume_ge0(-d-1)
        return True
    def evalbool(self, t):
        """(True/False/None, undecided atom)"""
        if t.k == 'c': return bool(t.a), None
        if t.k == 'a':
            r = self.decide_atom(t)
            return r, (t if r is None else None)
        if t.k == 'b':
            acc = 0; und = None
            for m, mask in t.a:
                v = 1
                for x, off in m:
                    if x.w != 1 or off != 0:
                        y = tm.extract(x, off, 1)
                        if y is t:
                            r = self.facts.get(t)
                            if r is not None: return r, None
                            return None, t
                        r, u = self.evalbool(y)
                    else: r, u = self.evalbool(x)
                    if r is False: v = 0; break
                    if r is None: v = None; und = u; break
                if v is None: return None, und
                acc ^= v
            return bool(acc), None
        r = self.facts.get(t)
        return r, (t if r is None else None)

_ctl = {}
def isctl(t):
    """control quantity: built from affine variables and constants only (cheap syntactic test)"""
    r = _ctl.get(t)
    if r is None:
        if t.k == 'c': r = True
        elif t.k == 'a': r = t.a[0] == 'iv' or (t.a[0] in ('sext', 'udiv', 'urem', 'sdiv', 'exactdiv') and isctl(t.a[1]))
        else: r = all(isctl(c) for c in tm.children(t))
        _ctl[t] = r
    return r

class Alarm:
    def __init__(self, kind, loc, msg, st): self.kind = kind; self.loc = loc; self.msg = msg; self.st = st
    def key(self): return (self.kind, self.loc)
    def __repr__(self): return '%s at %s: %s' % (self.kind, self.loc, self.msg)

class Interp:
    def __init__(self, mod, externs=None, templates=True):
        self.mod = mod; self.alarms = {}; self.unproved = []; self.externs = dict(BUILTINS); self.objcells = set(); mm.PTRBITS[0] = 8*mod.ptrsize
        if externs: self.externs.update(externs)
        self.templates = templates; self.tcache = {}; self.tfail = {}; self.depth = 0
        self.kc = {}; self.nalloca = 0; self.steps = 0; self.maxsteps = 40_000_000
        self.stack = []; self.stats = {'functions': set(), 'instructions': 0, 'partitions': 0, 'loops': set(), 'blockfns': set(), 'accesses': 0, 'calls': set()}
        self.effects = {}; self.tnotes = {}; self.nosum = set(); self.exit_atoms = {}; self.capture = []; self.notes = {}
        self.placeholder = 0; self.nest = []
        self.dataptr = False
        self.unroll_limit = 300
        self.track_nsw = True
        mod.ty  # noqa
        self.deadline = None
    # ------------------------------------------------------------------ utilities
    def alarm(self, kind, ins, msg, st):
        if self.placeholder and kind not in ('signed-overflow', 'shift-range', 'div-zero', 'uninitialised'): return
        loc = ins.loc() if ins is not None else '?'
        k = (kind, loc)
        if k not in self.alarms:
            a = Alarm(kind, loc, msg, None)
            a.msg = '%s [in %s; path: %s]' % (msg, demangle(ins.fn.name) if ins is not None else '?', ' > '.join(demangle(f) for f in self.stack[-4:]))
            a.store = repr(st.store)
            self.alarms[k] = a
    def suspect(self, kind, ins, msg, st, terms, pred, alts=()):
        """alarm when some input meets pred, open question otherwise"""
        k = (kind, ins.loc() if ins is not None else '?')
        if k in self.alarms: return
        from .eqv import find
        w = None
        for e in alts:
            s2 = st.store.add_ge0(e)
            if s2 is not None: w = w or find(terms, pred, s2, st.facts)
        if w is None: w = find(terms, pred, st.store, st.facts)
        if w is None: self.unproved.append('%s: %s' % (k[1], msg))
        else: self.alarm(kind, ins, '%s, for example when %s' % (msg, w), st)
    def region(self, st, size, bg=('u',), kind='stack', name=None):
        self.nalloca += 1
        rid = '%s.%d' % (name or kind, self.nalloca)
        r = Region(rid, size, bg, kind, name); r.owner = st.uid
        st.mem[rid] = r
        return Ptr(rid)
    def kval(self, c, st):
        k = c[0]
        if k == 'int': return const(c[1], c[2])
        if k == 'null': return NULL
        if k == 'glob': return Ptr(self.glob(c[1], st), E(c[2]))
        if k == 'fn': return FnPtr(c[1])
        if k == 'undef': return self.undefval(c[1])
        if k == 'fp':
            b = struct.pack('<f' if c[1] == 32 else '<d', c[2]); return const(c[1], int.from_bytes(b, 'little'))
        if k == 'zero': return self.zeroval(c[1])
        if k == 'agg': return tuple(self.kval(x, st) for x in c[2])
        if k == 'cexpr':
            op = c[1]
            if op == 'gep':
                b = self.kval(c[2], st); return Ptr(b.r, b.off+c[3])
            raise Unknown('constant expression %s' % op)
        raise Unknown('constant %s' % (k,))
    def undefval(self, ty):
        if ty.kind in ('struct',): return tuple(self.undefval(x) for x in ty.elems)
        if ty.kind == 'array': return tuple(self.undefval(ty.elem) for _ in range(ty.n))
        mm._und[0] += 1
        return atom(ty.w or 64, 'undef', mm._und[0])
    def zeroval(self, ty):
        if ty.kind == 'struct': return tuple(self.zeroval(x) for x in ty.elems)
        if ty.kind == 'array': return tuple(self.zeroval(ty.elem) for _ in range(ty.n))
        if ty.kind == 'ptr': return NULL
        return const(ty.w, 0)
    def glob(self, g, st):
        rid = 'g:' + g.name
        if rid not in st.mem:
            size = self.mod.gsize(g)
            if g.const and g.init is not None:
                r = Region(rid, size, ('f', const(8, 0)), 'const', g.name)
                self.initmem(r, 0, self.mod.const(g.init), st)
            else:
                r = Region(rid, size, ('s', rid, ZERO), 'global', g.name)
            r.owner = None
            st.mem[rid] = r
        return rid
    def initmem(self, r, off, c, st):
        k = c[0]
        if k in ('int', 'fp'):
            v = self.kval(c, st)
            if v.w % 8: v = tm.zext(v, 8)
            for j in range(v.w//8): r.bm[off+j] = (v, j) if not self.big() else (extract(v, 8*(v.w//8-1-j), 8), 0)
        elif k in ('glob', 'fn', 'cexpr'):
            v = self.kval(c, st)
            for j in range(self.mod.ptrsize): r.bm[off+j] = (v, j)
        elif k == 'agg':
            ty = c[1]
            for j, x in enumerate(c[2]):
                o = ty.offs[j] if ty.kind == 'struct' else j*ty.elem.size
                self.initmem(r, off+o, x, st)
        elif k == 'null': 
            for j in range(self.mod.ptrsize): r.bm[off+j] = (NULL, j)
    def ev(self, env, o, st):
        if o[0] == 'r': return env[o[1]]
        if o[0] == 'k':
            c = o[1]
            if c[0] in ('int', 'null', 'fp', 'fn'):
                key = id(o)
                v = self.kc.get(key)
                if v is None:
                    v = self.kval(c, st); self.kc[key] = (v, o); return v
                return v[0]
            return self.kval(c, st)
        return None
    # ------------------------------------------------------------------ memory access with checks
    def bounds(self, st, p, n, ins, what):
        """[p, p+n) must be inside its region; n is E"""
        self.stats['accesses'] += 1
        if not isinstance(p, Ptr): raise Unknown('%s through a non-pointer %r at %s' % (what, p, ins.loc()))
        if p.r is None:
            if st.store.constval(n) == 0: return False
            self.alarm('null-deref', ins, '%s of %s bytes through a null pointer' % (what, n), st); raise Dead()
        r = st.mem.get(p.r)
        if r is None:
            self.alarm('use-after-scope', ins, '%s through a dangling pointer' % what, st); raise Dead()
        off = p.off; s = st.store
        oc = off.const; nc = n.const; rc = r.size.const
        if oc is not None and nc is not None and rc is not None:
            if 0 <= oc and oc+nc <= rc: return True
        for e, msg in ((off, '%s at offset %s may start before the object %s' % (what, off, r.name)),
                       (r.size-off-n, '%s of [%s, +%s) may exceed the %s bytes of %s' % (what, off, n, r.size, r.name))):
            if s.ge0(e): continue
            w = self.witness(st, -e-1)
            if w is None: self.unproved.append('%s: %s %s' % (ins.loc(), msg, s))
            elif w: self.alarm('out-of-bounds', ins, '%s, for example when %s' % (msg, w), st)
            if w != '': raise Dead()
        return True
    def witness(self, st, e):
        """integer values with e >= 0 under the path condition: text, '' when there are none, None when undecided"""
        s = st.store.add_ge0(e)
        if s is None: return ''
        from .eqv import intpoint
        v = intpoint(s, st.facts, e)
        if v is None: return None
        return ', '.join('%s=%d' % kv for kv in sorted(v.items()) if '#' not in kv[0]) or 'always'
    def load(self, st, p, ty, ins):
        size = ty.size
        if isinstance(p, DPtr):
            bits = [k for k in range(7, -1, -1) if p.idx.pm >> k & 1]
            rs = st.mem[p.r].size.const; oc = p.off.const
            if rs is None or oc is None: raise Unknown('table of symbolic size')
            if not (oc >= 0 and oc+p.idx.pm*p.m+size <= rs):
                self.suspect('out-of-bounds', ins, 'read of %d bytes at %s + %s*%d in %s of %d bytes' % (size, oc, tm.show(p.idx, 3), p.m, st.mem[p.r].name, rs), st, [p.idx], lambda x: oc+x*p.m+size > rs)
                raise Unknown('index into a table not bounded')
            def at(j):
                v = self.load(st, Ptr(p.r, st.norm(p.off+j*p.m)), ty, ins)
                if not isinstance(v, T): raise Unknown('table of pointers')
                return v
            return mux(p.idx, at, bits)
        self.bounds(st, p, E(size), ins, 'read')
        r = st.mem[p.r]
        if r.kind == 'global': self.effect('reads-mutable-global', ins, r.name)
        if ty.kind in ('struct', 'array'): raise Unknown('aggregate load')
        if self.placeholder and r.kind == 'ph': return self.ph_load(st, p, r, ty, ins)
        v = r.load(p.off, size, st.store)
        if isinstance(v, list):
            if isinstance(v[0], tuple):
                pv = v[0][1]
                if all(isinstance(x, tuple) and x[1] is pv and x[2] == j for j, x in enumerate(v)) and pv.w == 8*size: v = pv
                else: raise Unknown('partial pointer load')
            else:
                if any(isinstance(x, tuple) for x in v): raise Unknown('mixed pointer load')
                v = tm.concat_le(v) if not self.big() else tm.concat_le(v[::-1])
        elif self.big() and isinstance(v, T): pass
        if ty.kind == 'ptr':
            if isinstance(v, T):
                if v.k == 'c' and v.a == 0: return NULL
                if v.k == 'c': return Ptr(None, E(v.a))
                q = st.extra.get(('ptrof', v))
                if q is not None: return q
                if v.k == 'a' and v.a[0] == 'addr' : return Ptr(v.a[1], v.a[2])
                if self.dataptr: return v
                if tm_has_undef(v): self.alarm('uninitialised', ins, 'pointer read from uninitialised memory', st); raise Dead()
                raise Unknown('pointer loaded from data at %s' % ins.loc())
            return v
        if isinstance(v, Ptr):
            return self.p2i(v, ty.w)
        if ty.kind == 'int' and ty.w % 8 and isinstance(v, T): v = tm.trunc(v, ty.w)
        return v
    def big(self): return getattr(self.mod, 'big_endian', False)
    def store(self, st, p, v, ty, ins):
        size = ty.size
        self.bounds(st, p, E(size), ins, 'write')
        r = st.mem[p.r]
        if r.kind == 'const' or r.kind == 'input':
            self.alarm('write-to-const', ins, 'write to read-only memory %s' % r.name, st); raise Dead()
        if r.kind == 'global': self.effect('writes-global', ins, r.name)
        if isinstance(v, tuple):
            if ty.kind == 'struct':
                for x, t2, o in zip(v, ty.elems, ty.offs): self.store(st, Ptr(p.r, p.off+o), x, t2, ins)
            else:
                for j, x in enumerate(v): self.store(st, Ptr(p.r, p.off+j*ty.elem.size), x, ty.elem, ins)
            return
        if isinstance(v, T):
            if v.w % 8 or v.w != 8*size: v = tm.zext(v, 8*size)
            if self.big() and v.w > 8: v = ByteRev(v)
        r = st.wregion(p.r)
        if st.wlog is not None: st.wlog.append((p.r, p.off, E(size)))
        if isinstance(v, ByteRev):
            if r.kind == 'obj' and p.off.const is not None: self.objcells.add((p.off.const, 8*size))
            for j, b in enumerate(val_bytes(v.v)[::-1]): r.store(p.off+j, b, ins, st.store)
        else: r.store(p.off, v, ins, st.store)
    def effect(self, kind, ins, what):
        self.effects.setdefault((kind, what), ins.loc() if ins else '?')
    def p2i(self, p, w):
        if p.r is None: return const(w, p.off.const if p.off.const is not None else 0)
        return tm.add(atom(w, 'addr', p.r, ZERO), iv(p.off, w))
    def memcpy(self, st, d, s, n, ins):
        """n is E"""
        nc = st.store.constval(n)
        if nc is not None: n = E(nc)
        for q in (d, s):
            if isinstance(q, Ptr) and q.r is None:
                self.alarm('null-memcpy', ins, 'null pointer passed to memcpy (size %s)' % n, st); raise Dead()
        if nc == 0: return
        self.bounds(st, s, n, ins, 'read'); self.bounds(st, d, n, ins, 'write')
        rs = st.mem[s.r]
        if st.mem[d.r].kind in ('const', 'input'):
            self.alarm('write-to-const', ins, 'write to read-only memory', st); raise Dead()
        if rs.kind == 'ph' and self.placeholder and nc is not None:
            parts = []
            for j in range(nc):
                parts.append((E(j), E(j+1), ('w', self.ph_load(st, Ptr(s.r, s.off+j), rs, BYTE, ins), 0)))
        else: parts = rs.read_parts(s.off, n, st.store)
        if d.r == s.r and not (st.store.ge0(d.off-s.off-n) or st.store.ge0(s.off-d.off-n)):
            self.alarm('memcpy-overlap', ins, 'memcpy source and destination overlap', st); raise Dead()
        rd = st.wregion(d.r)
        if st.wlog is not None: st.wlog.append((d.r, d.off, n))
        self.putparts(st, rd, d.off, n, parts, ins)
    def putparts(self, st, rd, off, n, parts, ins):
        if rd.segs is None and st.store.constval(off) is not None and n.const is not None:
            o = st.store.constval(off)
            ok = all(a.const is not None and b.const is not None and c[0] in ('w', 'f', 's') for a, b, c in parts)
            if ok:
                for a, b, c in parts:
                    for j in range(a.const, b.const):
                        if c[0] == 'w': rd.bm[o+j] = (c[1], c[2]+j-a.const)
                        elif c[0] == 'f': rd.bm[o+j] = (c[1], 0)
                        else: rd.bm[o+j] = (sb(c[1], st.norm(c[2]+(j-a.const))), 0)
                return
        rd.put(off, off+n, parts, ins, st.store)
    def memset(self, st, d, v, n, ins):
        nc = st.store.constval(n)
        if nc is not None: n = E(nc)
        if isinstance(d, Ptr) and d.r is None:
            self.alarm('null-memset', ins, 'null pointer passed to memset', st); raise Dead()
        if nc == 0: return
        self.bounds(st, d, n, ins, 'write')
        if st.mem[d.r].kind in ('const', 'input'):
            self.alarm('write-to-const', ins, 'write to read-only memory', st); raise Dead()
        rd = st.wregion(d.r)
        if st.wlog is not None: st.wlog.append((d.r, d.off, n))
        self.putparts(st, rd, d.off, n, [(ZERO, n, ('f', v))], ins)
    # ------------------------------------------------------------------ calls
    def call(self, st, fn, args, ins):
        """-> list of (state, retval)"""
        h = self.externs.get(fn.name)
        if h is None:
            for pre, hh in PREFIX:
                if fn.name.startswith(pre): h = hh; break
        if h is not None:
            return h(self, st, args, ins, fn)
        if fn.decl:
            self.effect('calls-external', ins, fn.name)
            raise Unknown('call to undefined function %s at %s' % (demangle(fn.name), ins.loc() if ins else '?'))
        if self.templates:
            r = self.try_template(st, fn, args, ins)
            if r is not None: return r
        return self.run_fn(st, fn, args, ins)
    def run_fn(self, st, fn, args, ins=None):
        self.mod.body(fn)
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            if self.stack.count(fn.name) > 90: self.suspect('recursion', ins, 'recursion more than 90 calls deep', st, [], lambda: True)
            raise Unknown('recursion depth')
        self.stack.append(fn.name)
        if not self.placeholder: self.stats['functions'].add(fn.name)
        try:
            env = {}
            for p, a in zip(fn.params, args): env[p] = a
            env['fn'] = fn; env['allocas'] = []
            outs = self.run(fn, [(st, env, 0, None, 0)])
            res = []
            for kind, s, e, bb, prev in outs:
                if kind == 'ret':
                    for rid in e['allocas']: s.mem.pop(rid, None)
                    res.append((s, bb))
            return res
        finally:
            self.depth -= 1
            self.stack.pop()
    def loops(self, fn):
        if fn.loops is None: fn.loops = find_loops(fn)
        return fn.loops
    def run(self, fn, work, stop=None):
        """work items (st, env, bb, prev, idx). Returns outcomes:
           ('ret', st, env, value, None) or, for edges in `stop`, ('edge', st, env, bb, prev)"""
        outs = []
        work = list(work)
        headers, inloop = self.loops(fn)
        while work:
            st, env, bi, prev, idx = work.pop()
            try:
                self.run1(fn, st, env, bi, prev, idx, work, outs, stop, headers, inloop)
            except Dead:
                pass
        return outs
    def run1(self, fn, st, env, bi, prev, idx, work, outs, stop, headers, inloop):
        while True:
            bb = fn.blocks[bi]
            if idx == 0:
                if prev is not None and bb.phis:
                    vals = [(p.id, self.ev(env, p.x[prev], st)) for p in bb.phis]
                    for k, v in vals: env[k] = v
                if bi in headers:
                    # snapshot (persistent) at every header visit, used by loop summarisation
                    env = dict(env)
                    env.pop(('H', bi), None); env[('H', bi)] = (st.clone(), dict(env), prev)
            instrs = bb.instrs; n = len(instrs)
            nxt = None
            while idx < n:
                ins = instrs[idx]
                op = ins.op
                self.steps += 1
                if self.steps & 255 == 0 and self.deadline is not None:
                    import time
                    if time.time() > self.deadline: raise Unknown('time budget')
                f = SIMPLE.get(op)
                try:
                    if f is not None:
                        env[ins.id] = f(self, st, env, ins)
                        idx += 1; continue
                    if op == 'store':
                        v = self.ev(env, ins.ops[0], st); p = self.ev(env, ins.ops[1], st)
                        self.store(st, p, v, ins.x, ins)
                        idx += 1; continue
                    if op == 'load':
                        env[ins.id] = self.load(st, self.ev(env, ins.ops[0], st), ins.ty, ins)
                        idx += 1; continue
                    if op == 'call' or op == 'invoke':
                        r = self.do_call(st, env, ins)
                        if r is None:
                            idx += 1
                            if op == 'invoke': nxt = ins.x[2]; break
                            continue
                        if not r: return
                        for s2, v in r[1:]:
                            e2 = dict(env); e2[ins.id] = v; e2['allocas'] = list(env['allocas'])
                            if op == 'invoke': work.append((s2, e2, ins.x[2], bi, 0))
                            else: work.append((s2, e2, bi, prev, idx+1))
                        st, v = r[0]; env[ins.id] = v
                        idx += 1
                        if op == 'invoke': nxt = ins.x[2]; break
                        continue
                    if op == 'br':
                        if len(ins.x) == 1: nxt = ins.x[0]; break
                        c = self.ev(env, ins.ops[0], st)
                        nxt = self.branch(fn, st, env, ins, c, bi, prev, idx, work, outs, stop, headers, inloop)
                        if nxt is None: return
                        break
                    if op == 'switch':
                        nxt = self.switch(fn, st, env, ins, bi, prev, idx, work)
                        if nxt is None: return
                        break
                    if op == 'ret':
                        v = self.ev(env, ins.ops[0], st) if ins.ops else None
                        outs.append(('ret', st, env, v, None))
                        return
                    if op == 'unreachable':
                        if not self.placeholder: st.extra['unreachable'] = ins.loc()
                        return
                    if op in ('resume', 'landingpad'):
                        return
                    raise Unknown('instruction %s at %s' % (op, ins.loc()))
                except NeedFork as f_:
                    self.stats['partitions'] += 1
                    s2 = st.clone(); e2 = dict(env); e2['allocas'] = list(env['allocas'])
                    a = s2.assume_ge0(-f_.e-1)
                    b = st.assume_ge0(f_.e)
                    if a and b: work.append((s2, e2, bi, prev, idx)); continue
                    if a: st, env = s2, e2; continue
                    if b: continue
                    return
                except NeedForkBool as f_:
                    self.stats['partitions'] += 1
                    s2 = st.clone(); e2 = dict(env); e2['allocas'] = list(env['allocas'])
                    try:
                        if s2.assume_atom(f_.c, False): work.append((s2, e2, bi, prev, idx))
                    except Dead: pass
                    if st.assume_atom(f_.c, True): continue
                    return
                except NeedForkConst as f_:
                    e = st.norm(f_.e)
                    lo, hi = st.store.lower(e), st.store.upper(e)
                    if lo is None or hi is None or hi-lo > 600: raise Unknown('unbounded position %s at %s' % (e, ins.loc()))
                    self.stats['partitions'] += hi-lo
                    for v in range(lo, hi+1):
                        s2 = st.clone()
                        s3 = s2.store.add_eq0(e-v)
                        if s3 is None: continue
                        s2.store = s3
                        e2 = dict(env); e2['allocas'] = list(env['allocas'])
                        work.append((s2, e2, bi, prev, idx))
                    return
            else:
                raise Unknown('block without terminator')
            # follow edge bi -> nxt
            prev, bi, idx = bi, nxt, 0
            if stop is not None and stop(prev, bi):
                outs.append(('edge', st, env, bi, prev)); return
    def branch(self, fn, st, env, ins, c, bi, prev, idx, work, outs, stop, headers, inloop):
        t, f = ins.x[0], ins.x[1]
        if t == f: return t
        if isinstance(c, Ptr): raise Unknown('branch on pointer')
        r, und = st.evalbool(c)
        while r is None:
            # inside a loop and controlling its exit?
            L = innermost_exit(fn, inloop, headers, bi, t, f)
            if self.placeholder: raise Unknown('data-dependent branch in block function')
            if L is not None and self.capture and self.capture[-1][0] == (fn.name, L): self.capture[-1][1].append(und)
            if tm_has_undef(und):
                self.alarm('uninitialised', ins, 'branch depends on uninitialised memory', st); raise Dead()
            if L is not None and not self.small_trip(st, und):
                snap = env.get(('H', L))
                if snap is not None:
                    from .loops import summarise
                    if summarise(self, fn, L, snap, st, env, ins, work, outs, stop): return None
            self.stats['partitions'] += 1
            s2 = st.clone(); e2 = dict(env); e2['allocas'] = list(env['allocas'])
            ok2 = False
            try: ok2 = s2.assume_atom(und, False)
            except Dead: pass
            ok1 = False
            try: ok1 = st.assume_atom(und, True)
            except Dead: pass
            st.trace = st.trace + ((ins.loc(), tm.show(und, 3), True),)
            s2.trace = s2.trace + ((ins.loc(), tm.show(und, 3), False),)
            if ok1 and ok2: work.append((s2, e2, bi, prev, idx))
            elif ok2:
                work.append((s2, e2, bi, prev, idx)); return None
            elif not ok1: return None
            r, und = st.evalbool(c)
        return t if r else f
    def small_trip(self, st, und):
        """is the undetermined exit condition provably decided within a small number of unrollings?"""
        if und.k == 'a' and und.a[0] in ('ult', 'slt', 'eq'):
            sg = und.a[0] == 'slt'
            try: vx, vy = st.view(und.a[1], sg), st.view(und.a[2], sg)
            except Dead: return True
            if vx is None or vy is None: return False
            d = vy-vx
            lo, hi = st.store.lower(d), st.store.upper(d)
            if und.a[0] == 'eq': return lo is not None and hi is not None and hi-lo <= self.unroll_limit
            return lo is not None and hi is not None and hi-lo <= self.unroll_limit
        if und.k == 'a' and und.a[0] == 'ptreq': return False
        return True
    def switch(self, fn, st, env, ins, bi, prev, idx, work):
        v = self.ev(env, ins.ops[0], st)
        for c, d in ins.x[1]:
            k = const(v.w, c[2])
            q = tm.eq(v, k)
            r, und = st.evalbool(q)
            if r is None:
                s2 = st.clone(); e2 = dict(env); e2['allocas'] = list(env['allocas'])
                try:
                    if s2.assume_atom(und, True): work.append((s2, e2, bi, prev, idx))
                except Dead: pass
                if not st.assume_atom(und, False): return None
                r, und = st.evalbool(q)
                if r is None: raise Unknown('switch')
            if r: return d
        return ins.x[0]
    def do_call(self, st, env, ins):
        c = ins.x[0]
        if c[0] != 'fn':
            o = c[1]
            if o is None: raise Unknown('indirect call')
            f = self.ev(env, o, st)
            if not isinstance(f, FnPtr):
                self.effect('indirect-call', ins, ins.loc())
                raise Unknown('indirect call at %s' % ins.loc())
            fn = f.fn
        else: fn = c[1]
        nm = fn.name
        if nm.startswith('llvm.lifetime') or nm.startswith('llvm.assume') or nm.startswith('llvm.experimental.noalias') or nm.startswith('llvm.invariant'):
            return None
        args = [self.ev(env, o, st) for o in ins.ops]
        return self.call(st, fn, args, ins)
    # ------------------------------------------------------------------ block-function templates
    def try_template(self, st, fn, args, ins):
        if self.placeholder: return None
        ptrs = [(j, a) for j, a in enumerate(args) if isinstance(a, Ptr) and a.r is not None]
        if len(ptrs) < 2: return None
        if not all(isinstance(a, Ptr) or (isinstance(a, T) and a.k == 'c') for a in args): return None
        if any(isinstance(a, Ptr) and a.r is None for a in args): return None
        key = (fn.name, tuple(a if isinstance(a, T) else None for a in args), bool(getattr(self, 'flag', 0)))
        tp = self.tcache.get(key, 0)
        if tp == 0:
            from .template import discover
            n = self.tfail.get(fn.name, 0)
            tp = discover(self, fn, args) if n < 3 else None
            self.tcache[key] = tp
            self.tfail[fn.name] = n+1 if tp is None else -1000
        if tp is None: return None
        return tp.apply(self, st, args, ins)
    def ph_load(self, st, p, r, ty, ins):
        c = st.store.constval(p.off)
        if c is None: raise Unknown('symbolic placeholder offset')
        size = ty.size
        if ty.kind == 'ptr': raise Unknown('pointer in placeholder')
        bm = r.bm
        log = r.log
        out = []
        if all((c+j) not in bm for j in range(size)):
            # first read: create a placeholder word
            for j in range(size): log['bytes'].add(c+j)
            log['reads'].append((c, size))
            v = atom(8*size, 'ph', r.id, c) if size > 1 else self._phb(r, c)
            if r.kind == 'ph' and size > 1:
                r = st.wregion(p.r)
                for j in range(size): r.bm[c+j] = (v, j if not self.big() else size-1-j)
            return v
        for j in range(size):
            g = bm.get(c+j)
            if g is None:
                log['bytes'].add(c+j); out.append(self._phb(r, c+j))
            else: out.append(_vb2(g[0], g[1]))
        f = bm.get(c)
        if self.big():
            if f and f[0].w == 8*size and all(bm.get(c+j) == (f[0], size-1-j) for j in range(size)): return f[0]
            return tm.concat_le(out[::-1])
        if f and f[1] == 0 and f[0].w == 8*size and all(bm.get(c+j) == (f[0], j) for j in range(size)): return f[0]
        return tm.concat_le(out)
    def _phb(self, r, o): return sb(r.id, E(o))
class ByteRev:
    def __init__(self, v): self.v = v
class _B: pass
BYTE = _B(); BYTE.kind = 'int'; BYTE.size = 1; BYTE.w = 8
def _vb2(v, k):
    if isinstance(v, (Ptr, FnPtr)): raise Unknown('pointer byte')
    return tm.extract(v, 8*k, 8)

_undc = {}
def tm_has_undef(t):
    if not isinstance(t, T): return False
    for x in tm.support(t):
        if isinstance(x, T) and x.k == 'a' and x.a[0] == 'undef': return True
        if x == 'undef': return True
    return False

# ---------------------------------------------------------------------- loops
def find_loops(fn):
    n = len(fn.blocks); preds = [[] for _ in range(n)]
    for b in fn.blocks:
        for s in b.succ: preds[s].append(b.idx)
    order = []; seen = set()
    stack = [(0, iter(fn.blocks[0].succ))]; seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(fn.blocks[s].succ))); break
        else: order.append(b); stack.pop()
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}; ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps: continue
            d = ps[0]
            for p in ps[1:]:
                x, y = p, d
                while x != y:
                    while num[x] > num[y]: x = idom[x]
                    while num[y] > num[x]: y = idom[y]
                d = x
            if idom.get(b) != d: idom[b] = d; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    headers = {}
    for b in rpo:
        for s in fn.blocks[b].succ:
            if s in num and dom(s, b):
                body = headers.setdefault(s, {s})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x in body: continue
                    body.add(x); todo.extend(p for p in preds[x] if p in num)
    inloop = {}
    for h, body in headers.items():
        for b in body: inloop.setdefault(b, []).append(h)
    for b in inloop: inloop[b].sort(key=lambda h: len(headers[h]))
    return headers, inloop
def innermost_exit(fn, inloop, headers, bi, t, f):
    """header of a loop that this branch can leave, or whose latch it is"""
    for h in inloop.get(bi, ()):
        body = headers[h]
        if (t in body) != (f in body): return h
    return None

# ---------------------------------------------------------------------- simple instructions
def _bin(f):
    def g(I, st, env, ins):
        a = I.ev(env, ins.ops[0], st); b = I.ev(env, ins.ops[1], st)
        a = I.p2i(a, ins.ty.w) if isinstance(a, Ptr) else a
        b = I.p2i(b, ins.ty.w) if isinstance(b, Ptr) else b
        return f(I, st, a, b, ins)
    return g
def _nsw(I, st, a, b, ins, op):
    if not (ins.flags & 1): return
    w = a.w; lim = 1 << (w-1)
    if a.k == 'c' and b.k == 'c':
        x, y = sgn(a.a, w), sgn(b.a, w)
        r = {'add': x+y, 'sub': x-y, 'mul': x*y}[op]
        if -lim <= r < lim: return
    else:
        if not (a.pm | b.pm) & lim:
            if op == 'add' and a.pm+b.pm < lim: return
            if op == 'mul' and a.pm*b.pm < lim: return
            if op == 'sub': return
        va, vb = st.view(a, True), st.view(b, True)
        if op != 'mul':
            if va is not None and vb is not None:
                e = va+vb if op == 'add' else va-vb
                if st._range(e, w, True): return
        else:
            k = None
            if va is not None and b.k == 'c' and st._range(va*sgn(b.a, w), w, True): return
            if vb is not None and a.k == 'c' and st._range(vb*sgn(a.a, w), w, True): return
        # operand bounds (sext of bytes, differences of bytes, ...)
        ra, rb = sbounds(a), sbounds(b)
        if ra and rb:
            c = [f for x in ra for y in rb for f in ({'add': x+y, 'sub': x-y, 'mul': x*y}[op],)] if op != 'sub' else [ra[0]-rb[1], ra[1]-rb[0]]
            if -lim <= min(c) and max(c) < lim: return
    def over(x, y):
        x, y = sgn(x, w), sgn(y, w)
        r = x+y if op == 'add' else (x-y if op == 'sub' else x*y)
        return not -lim <= r < lim
    I.suspect('signed-overflow', ins, 'signed %s %s %s may overflow %d bits' % (tm.show(a, 3), op, tm.show(b, 3), w), st, [a, b], over, (e-lim, -e-lim-1) if op != 'mul' and va is not None and vb is not None else ())
    # the execution goes on only where the operation is defined
    if op != 'mul' and a.k != 'c' or b.k != 'c':
        va, vb = st.view(a, True), st.view(b, True)
        if op != 'mul' and va is not None and vb is not None:
            e = va+vb if op == 'add' else va-vb
            s = st.store.add_ge0(e+lim)
            s = s and s.add_ge0(E(lim-1)-e)
            if s is None: raise Dead()
            st.store = s
def sbounds(t):
    w = t.w
    if t.k == 'c': v = sgn(t.a, w); return (v, v)
    if not t.pm >> (w-1): return (0, t.pm)
    if t.k == 'a' and t.a[0] == 'sext':
        v = t.a[1].w; return (-(1 << (v-1)), (1 << (v-1))-1)
    if t.k == 'l':
        lo = hi = sgn(t.a[0], w)
        for x, c in t.a[1]:
            r = sbounds(x); c = sgn(c, w)
            if r is None: return None
            q = (r[0]*c, r[1]*c); lo += min(q); hi += max(q)
        return (lo, hi)
    return None
def _add(I, st, a, b, ins): _nsw(I, st, a, b, ins, 'add'); return tm.add(a, b)
def _sub(I, st, a, b, ins):
    _nsw(I, st, a, b, ins, 'sub')
    r = tm.sub(a, b)
    return r
def _mul(I, st, a, b, ins): _nsw(I, st, a, b, ins, 'mul'); return tm.mul(a, b)
def _shamt(I, st, a, b, ins):
    if b.k != 'c':
        if isctl(b):
            v = st.view(b)
            if v is not None:
                k = st.store.constval(v)
                if k is None: 
                    lo, hi = st.store.lower(v), st.store.upper(v)
                    if lo is not None and hi is not None and hi-lo < 64: raise NeedForkConst(v)
                else: b = const(b.w, k)
        if b.k != 'c':
            if b.pm >= a.w: I.suspect('shift-range', ins, 'shift amount %s may reach the operand width' % tm.show(b, 3), st, [b], lambda x: x >= a.w)
            return None
    if b.a >= a.w:
        I.alarm('shift-range', ins, 'shift by %d of a %d-bit value' % (b.a, a.w), st)
        raise Dead()
    return b.a
def _shl(I, st, a, b, ins):
    k = _shamt(I, st, a, b, ins)
    if k is None: return atom(a.w, 'shl', a, b)
    if ins.flags & 1 and (a.pm << k) >> (a.w-1):
        I.suspect('signed-overflow', ins, 'left shift of a signed value overflows', st, [a], lambda x: (x << k) >> (a.w-1))
    return tm.shl(a, k)
def _lshr(I, st, a, b, ins):
    k = _shamt(I, st, a, b, ins)
    if k is None: return atom(a.w, 'lshr', a, b)
    return tm.lshr(a, k)
def _ashr(I, st, a, b, ins):
    k = _shamt(I, st, a, b, ins)
    if k is None: return atom(a.w, 'ashr', a, b)
    if a.k == 'c': return const(a.w, sgn(a.a, a.w) >> k)
    if not a.pm >> (a.w-1): return tm.lshr(a, k)
    if k == 0: return a
    # arithmetic shift of a control difference
    if isctl(a):
        v = st.view(a, True)
        if v is not None and st.store.ge0(v): return tm.lshr(a, k)
    return tm.sext(tm.extract(a, k, a.w-k), a.w)
def _udiv(I, st, a, b, ins):
    if b.k == 'c':
        if b.a == 0: I.alarm('div-zero', ins, 'division by zero', st); raise Dead()
        if a.k == 'c': return const(a.w, a.a//b.a)
        if b.a & (b.a-1) == 0: return tm.lshr(a, b.a.bit_length()-1)
        return atom(a.w, 'udiv', a, b)
    if not st.nonzero(b): I.suspect('div-zero', ins, 'divisor may be zero', st, [b], lambda x: x == 0)
    return atom(a.w, 'udiv', a, b)
def _urem(I, st, a, b, ins):
    if b.k == 'c':
        if b.a == 0: I.alarm('div-zero', ins, 'division by zero', st); raise Dead()
        if a.k == 'c': return const(a.w, a.a % b.a)
        if b.a & (b.a-1) == 0: return tm.and_(a, const(a.w, b.a-1))
        return atom(a.w, 'urem', a, b)
    if not st.nonzero(b): I.suspect('div-zero', ins, 'divisor may be zero', st, [b], lambda x: x == 0)
    return atom(a.w, 'urem', a, b)
def _sdiv(I, st, a, b, ins):
    if b.k == 'c':
        if b.a == 0: I.alarm('div-zero', ins, 'division by zero', st); raise Dead()
        x, y = sgn(a.a, a.w) if a.k == 'c' else None, sgn(b.a, b.w)
        if x is not None:
            q = abs(x)//abs(y); q = -q if (x < 0) != (y < 0) else q
            return const(a.w, q)
        if y == 1: return a
        if isctl(a):
            v = st.view(a, True)
            if v is not None:
                e = st._exact(v, abs(y)) if y > 0 else None
                if e is not None: return iv(e, a.w)
                if y > 0 and st.store.ge0(v): return iv(st._quot(a, v, y), a.w)
    return atom(a.w, 'sdiv', a, b)
def _srem(I, st, a, b, ins):
    if a.k == 'c' and b.k == 'c' and b.a:
        x, y = sgn(a.a, a.w), sgn(b.a, b.w); r = abs(x) % abs(y)
        return const(a.w, -r if x < 0 else r)
    if b.k == 'c' and b.a and not (a.pm | b.a) >> (a.w-1): return _urem(I, st, a, b, ins)
    return atom(a.w, 'srem', a, b)
def _icmp(I, st, env, ins):
    a = I.ev(env, ins.ops[0], st); b = I.ev(env, ins.ops[1], st); p = ins.x
    if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)): return ptrcmp(I, st, a, b, p, ins)
    if p == 'eq': return tm.eq(a, b)
    if p == 'ne': return tm.not_(tm.eq(a, b))
    if p == 'ult': return tm.ult(a, b)
    if p == 'ugt': return tm.ult(b, a)
    if p == 'uge': return tm.not_(tm.ult(a, b))
    if p == 'ule': return tm.not_(tm.ult(b, a))
    if p == 'slt': return tm.slt(a, b)
    if p == 'sgt': return tm.slt(b, a)
    if p == 'sge': return tm.not_(tm.slt(a, b))
    if p == 'sle': return tm.not_(tm.slt(b, a))
def ptrcmp(I, st, a, b, p, ins):
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        return const(1, int((a == b) == (p == 'eq')))
    if isinstance(a, T) or isinstance(b, T): raise Unknown('pointer compared with data')
    if a.r == b.r:
        x, y = iv(a.off), iv(b.off)
        if p in ('eq', 'ne'):
            d = st.norm(a.off-b.off)
            if d.const is not None: q = const(1, int(d.const == 0))
            else: q = tm.eq(x, y)
            return q if p == 'eq' else tm.not_(q)
        w = x.w
        return {'ult': lambda: tm.ult(x, y), 'ugt': lambda: tm.ult(y, x), 'uge': lambda: tm.not_(tm.ult(x, y)), 'ule': lambda: tm.not_(tm.ult(y, x)),
                'slt': lambda: tm.slt(x, y), 'sgt': lambda: tm.slt(y, x)}[p]()
    if p in ('eq', 'ne'):
        return const(1, int(p == 'ne'))
    raise Unknown('ordering of unrelated pointers')
class DPtr:
    """element of a table selected by data: region, offset, index term below 256, element distance"""
    def __init__(self, r, off, idx, m): self.r = r; self.off = off; self.idx = idx; self.m = m
def mux(idx, vals, bits):
    """vals[idx] as a term, idx given by its possible bit positions (high to low)"""
    if not bits: return vals(0)
    k = bits[0]; c = tm.extract(idx, k, 1)
    a = mux(idx, lambda j: vals(j | (1 << k)), bits[1:]); b = mux(idx, vals, bits[1:])
    if a == b: return a
    return tm.xor(b, tm.and_(tm.xor(a, b), tm.sext(c, a.w)))
def _gep(I, st, env, ins):
    b = I.ev(env, ins.ops[0], st)
    c, steps = ins.x
    if isinstance(b, DPtr):
        if steps: raise Unknown('second symbolic index at %s' % ins.loc())
        return DPtr(b.r, b.off+c, b.idx, b.m)
    if not isinstance(b, Ptr): raise Unknown('gep on data at %s' % ins.loc())
    off = b.off + c if c else b.off
    for o, m in steps:
        v = I.ev(env, o, st)
        if v.k != 'c' and len(steps) == 1 and b.r is not None and v.pm < 256 and not isctl(v): return DPtr(b.r, st.norm(off), v, m)
        e = st.view(v, True)
        if e is None:
            raise Unknown('symbolic index %s at %s' % (tm.show(v, 3), ins.loc()))
        off = off + e*m
    off = st.norm(off)
    if b.r is not None and ins.flags and not I.placeholder:
        r = st.mem.get(b.r)
        if r is not None:
            oc = off.const; rc = r.size.const
            if oc is not None and rc is not None and 0 <= oc <= rc: pass
            elif not (st.store.ge0(off) and st.store.ge0(r.size-off)):
                for e in (off, r.size-off):
                    if st.store.ge0(e): continue
                    w = I.witness(st, -e-1)
                    if w is None: I.unproved.append('%s: pointer arithmetic to %s in %s of %s bytes' % (ins.loc(), off, r.name, r.size))
                    elif w: I.alarm('pointer-range', ins, 'pointer arithmetic to %s leaves object %s of %s bytes, for example when %s' % (off, r.name, r.size, w), st); raise Dead()
    if b.r is None and ins.flags and not I.placeholder:
        if not (st.norm(off) == 0):
            k = st.store.constval(off)
            if k is None:
                z = st.store.add_eq0(off)
                w = I.witness(st, off-1) or I.witness(st, -off-1)
                if not w and z is not None: st.store = z; k = 0
            if k != 0:
                I.alarm('null-arith', ins, 'arithmetic on a null pointer (offset %s)' % off, st); raise Dead()
    return Ptr(b.r, off)
def _alloca(I, st, env, ins):
    n = I.ev(env, ins.ops[0], st)
    if n.k != 'c':
        I.suspect('dynamic-stack', ins, 'stack allocation of variable size', st, [], lambda: True); raise Unknown('stack allocation of variable size')
    k = ('A', ins.id)
    rid = env.get(k)
    if rid is not None and rid in st.mem: pass
    p = I.region(st, ins.x.size*n.a, ('u',), 'stack', 'alloca@%s' % ins.loc().split('/')[-1])
    env['allocas'].append(p.r); env[k] = p.r
    return p
def _cast(I, st, env, ins):
    v = I.ev(env, ins.ops[0], st); w = ins.ty.w
    op = ins.op
    if op == 'trunc': 
        return tm.trunc(v, w)
    if op == 'zext':
        if v.w == mm.PTRBITS[0] < w and v.k in 'al' and isctl(v):
            # a length of the narrower word, known not to wrap
            e = st.view(v)
            if e is not None and not any(x.startswith('t') and x[1:].isdigit() for x in e.vars()): return iv(e, w)
        return tm.zext(v, w)
    if op == 'sext': return tm.sext(v, w)
    if op == 'ptrtoint':
        if isinstance(v, T) and I.dataptr: return tm.trunc(v, w) if w < v.w else v
        if not isinstance(v, Ptr): raise Unknown('ptrtoint')
        r = I.p2i(v, w)
        return r
    if op == 'inttoptr':
        if isinstance(v, Ptr): return v
        if v.k == 'c': return Ptr(None, E(v.a))
        if v.k == 'a' and v.a[0] == 'addr': return Ptr(v.a[1], ZERO)
        if v.k == 'l':
            ad = [x for x, c in v.a[1] if x.k == 'a' and x.a[0] == 'addr' and c == 1]
            if len(ad) == 1:
                e = st.view(tm.sub(v, ad[0]), True)
                if e is not None: return Ptr(ad[0].a[1], e)
        raise Unknown('inttoptr')
    if op == 'bitcast': return v
    return atom(w, op, v)
def _select(I, st, env, ins):
    c = I.ev(env, ins.ops[0], st); a = I.ev(env, ins.ops[1], st); b = I.ev(env, ins.ops[2], st)
    z = ite_fz(c, a, b)
    if z is not None: return z
    r, und = st.evalbool(c)
    if r is not None: return a if r else b
    if isinstance(a, T) and isinstance(b, T) and not (isctl(a) and isctl(b) and isctl_cond(c)): return tm.ite(c, a, b)
    if a is b or a == b: return a
    raise NeedForkBool(und)
def isctl_cond(c): return True
def _freeze(I, st, env, ins): return I.ev(env, ins.ops[0], st)
def _extractvalue(I, st, env, ins):
    v = I.ev(env, ins.ops[0], st)
    for k in ins.x[0]: v = v[k]
    return v
def _insertvalue(I, st, env, ins):
    a = I.ev(env, ins.ops[0], st); v = I.ev(env, ins.ops[1], st)
    def put(agg, path):
        if not path: return v
        l = list(agg); l[path[0]] = put(l[path[0]], path[1:]); return tuple(l)
    return put(a, ins.x[0])
def _fbin(I, st, env, ins):
    a = I.ev(env, ins.ops[0], st); b = I.ev(env, ins.ops[1], st)
    w = ins.ty.w; sign = const(w, 1 << (w-1)); zero = const(w, 0)
    one = const(w, 0x3f800000 if w == 32 else 0x3ff0000000000000)
    if ins.op == 'fadd' and zero in (a, b): return fz(b if a is zero else a)
    if ins.op == 'fadd' and sign in (a, b): return b if a is sign else a
    if ins.op == 'fsub' and b is zero: return a
    if ins.op == 'fsub' and b is sign: return fz(a)
    if ins.op == 'fmul' and one in (a, b): return b if a is one else a
    return atom(ins.ty.w, ins.op, a, b)
def fz(x):
    """x + 0.0 in round-to-nearest: negative zero becomes zero"""
    if x.k == 'c': return const(x.w, 0) if x.a == 1 << (x.w-1) else x
    if x.k == 'a' and x.a[0] == 'fz': return x
    return atom(x.w, 'fz', x)
tm.REBUILD['fz'] = lambda w, a: fz(a[1])
def _isfz(c, v):
    """c holds exactly for the zeros of v: c ? 0 : v"""
    if c.k != 'a': return False
    w = v.w
    if c.a[0] == 'fcmp' and c.a[1] in ('oeq',) and v in c.a[2:4]:
        o = c.a[3] if c.a[2] is v else c.a[2]
        return o.k == 'c' and o.a in (0, 1 << (w-1))
    if c.a[0] == 'eq':
        for x, o in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if o.k == 'c' and x is v and o.a == 1 << (w-1): return True
            if o.k == 'c' and o.a == 0 and x is tm.and_(v, const(w, (1 << (w-1))-1)): return True
            if o.k == 'c' and o.a == 0 and x is tm.shl(v, 1): return True
            if o.k == 'c' and o.a == 0 and x is tm.trunc(v, w-1): return True
    return False
def ite_fz(c, a, b):
    if isinstance(a, T) and isinstance(b, T) and c.w == 1:
        if a.k == 'c' and a.a == 0 and _isfz(c, b): return fz(b)
        if b.k == 'c' and b.a == 0:
            n = tm.not_(c)
            if _isfz(n, a): return fz(a)
            if c.k == 'a' and c.a[0] == 'fcmp' and c.a[1] == 'une' and _isfz(atom(1, 'fcmp', 'oeq', c.a[2], c.a[3]), a): return fz(a)
    return None
def _fneg(I, st, env, ins): return atom(ins.ty.w, 'fneg', I.ev(env, ins.ops[0], st))
def _fcmp(I, st, env, ins):
    return atom(1, 'fcmp', ins.x, I.ev(env, ins.ops[0], st), I.ev(env, ins.ops[1], st))
def _fcast(I, st, env, ins):
    v = I.ev(env, ins.ops[0], st)
    if ins.op in ('sitofp', 'uitofp') and v.k == 'c':
        x = float(sgn(v.a, v.w) if ins.op == 'sitofp' else v.a)
        b = struct.pack('<f' if ins.ty.w == 32 else '<d', x); return const(ins.ty.w, int.from_bytes(b, 'little'))
    return atom(ins.ty.w, ins.op, v)
SIMPLE = {'add': _bin(_add), 'sub': _bin(_sub), 'mul': _bin(_mul), 'shl': _bin(_shl), 'lshr': _bin(_lshr), 'ashr': _bin(_ashr),
          'udiv': _bin(_udiv), 'urem': _bin(_urem), 'sdiv': _bin(_sdiv), 'srem': _bin(_srem),
          'and': _bin(lambda I, st, a, b, ins: tm.and_(a, b)), 'or': _bin(lambda I, st, a, b, ins: tm.or_(a, b)),
          'xor': _bin(lambda I, st, a, b, ins: tm.xor(a, b)),
          'icmp': _icmp, 'gep': _gep, 'alloca': _alloca, 'select': _select, 'freeze': _freeze,
          'extractvalue': _extractvalue, 'insertvalue': _insertvalue, 'fadd': _fbin, 'fsub': _fbin, 'fmul': _fbin, 'fdiv': _fbin, 'frem': _fbin,
          'fneg': _fneg, 'fcmp': _fcmp, 'sitofp': _fcast, 'uitofp': _fcast, 'fptoui': _fcast, 'fptosi': _fcast, 'fptrunc': _fcast, 'fpext': _fcast}
for _o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'): SIMPLE[_o] = _cast

# ---------------------------------------------------------------------- known externals
def _size(I, st, t, ins):
    e = st.view(t)
    if e is None: raise Unknown('size argument %s at %s' % (tm.show(t, 3), ins.loc()))
    return e
def x_memcpy(I, st, args, ins, fn):
    d, s, n = args[:3]
    I.memcpy(st, d, s, _size(I, st, n, ins), ins)
    return [(st, d)]
def x_memset(I, st, args, ins, fn):
    d, v, n = args[:3]
    I.memset(st, d, tm.trunc(v, 8) if v.w > 8 else v, _size(I, st, n, ins), ins)
    return [(st, d)]
def x_memcmp(I, st, args, ins, fn):
    p, q, n = args
    n = _size(I, st, n, ins)
    if n.const != 0:
        I.bounds(st, p, n, ins, 'read'); I.bounds(st, q, n, ins, 'read')
        a = parts_to_seq(st.mem[p.r].read_parts(p.off, n, st.store), st.store)
        b = parts_to_seq(st.mem[q.r].read_parts(q.off, n, st.store), st.store)
    else: a = b = EMPTYSEQ
    if a == b: return [(st, const(32, 0))]
    return [(st, atom(32, 'memcmp', a, b))]
def x_bswap(I, st, args, ins, fn): return [(st, tm.bswap(args[0]))]
def x_fsh(I, st, args, ins, fn):
    a, b, c = args
    if c.k != 'c': raise Unknown('variable funnel shift')
    k = c.a % a.w
    if fn.name.startswith('llvm.fshl'): r = tm.xor(tm.shl(a, k), tm.lshr(b, a.w-k)) if k else a
    else: r = tm.xor(tm.lshr(b, k), tm.shl(a, a.w-k)) if k else b
    return [(st, r)]
def x_minmax(I, st, args, ins, fn):
    a, b = args; n = fn.name
    c = tm.ult(a, b) if '.u' in n else tm.slt(a, b)
    if 'max' in n: c = tm.not_(c)
    r, und = st.evalbool(c)
    if r is None:
        if isctl(a) and isctl(b): raise NeedForkBool(und)
        return [(st, tm.ite(c, a, b))]
    return [(st, a if r else b)]
def x_expect(I, st, args, ins, fn): return [(st, args[0])]
def x_abs(I, st, args, ins, fn):
    return [(st, atom(args[0].w, 'abs', args[0]))]
def x_isconst(I, st, args, ins, fn): return [(st, const(1, 0))]
def x_abort(I, st, args, ins, fn):
    I.suspect('abort', ins, 'call to %s is reachable' % demangle(fn.name), st, [], lambda: True); return []
def x_trap(I, st, args, ins, fn):
    I.alarm('trap', ins, 'trap is reachable', st); return []
BUILTINS = {'memcpy': x_memcpy, 'memmove': x_memcpy, 'memset': x_memset, 'memcmp': x_memcmp, 'bcmp': x_memcmp, '__assert_fail': x_abort, 'abort': x_abort, 'llvm.trap': x_trap}
PREFIX = [('llvm.memcpy', x_memcpy), ('llvm.memmove', x_memcpy), ('llvm.memset', x_memset), ('llvm.bswap', x_bswap), ('llvm.fsh', x_fsh),
          ('llvm.umin', x_minmax), ('llvm.umax', x_minmax), ('llvm.smin', x_minmax), ('llvm.smax', x_minmax), ('llvm.expect', x_expect), ('llvm.abs', x_abs), ('llvm.is.constant', x_isconst), ('llvm.ubsantrap', x_trap)]

_dm = {}
def _demangler():
    import ctypes as C
    try:
        from .llvmc import _L
        f = _L._ZN4llvm15itaniumDemangleESt17basic_string_viewIcSt11char_traitsIcEEb
        f.argtypes = [C.c_size_t, C.c_char_p, C.c_bool]; f.restype = C.c_void_p
        free = C.CDLL(None).free; free.argtypes = [C.c_void_p]
        def go(n):
            b = n.encode(); p = f(len(b), b, True)
            if not p: return n
            r = C.string_at(p).decode(errors='replace'); free(p)
            return r
        if go('_Z1fi') == 'f(int)': return go
    except (AttributeError, OSError): pass
    import subprocess
    def go(n):
        try: return subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt', n], capture_output=True, text=True).stdout.strip()
        except OSError: return n
    return go
_go = None
def demangle(n):
    global _go
    r = _dm.get(n)
    if r is None:
        if n.startswith('_Z'):
            if _go is None: _go = _demangler()
            r = _go(n)
        else: r = n
        if len(r) > 160: r = r[:160] + '...'
        _dm[n] = r
    return r
