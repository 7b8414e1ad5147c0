"""Digests and get_integral_result: functions of small fixed-size values, for symbolic contents."""
import itertools, random
from . import terms as tm
from .terms import T, const, sym, atom, full
from .aff import E, V, ZERO, Store
from .mem import *
from .interp import Interp, State, demangle, mux
from .eqv import verdict, Val, NoEval
from .loops import termvars
from .hashmodel import Res
from .check import Broken
from .props_append import MEMORY

NS = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 28, 32, 33, 48, 64, 65]
HEX = b'0123456789abcdef'
PRE = r'''
#include <boost/hash2/digest.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <ostream>
#include <string>
#include <array>
#include <new>
#include <cstdint>
#include <cstddef>
using namespace boost::hash2;
typedef std::size_t Z; typedef unsigned char B;
'''
def digest_source():
    s = PRE
    for n in NS:
        s += '''typedef digest<%(n)d> D%(n)d;
extern "C" {
Z sizeof_%(n)d() { return sizeof(D%(n)d); }
void def_%(n)d( D%(n)d* p ) { ::new((void*)p) D%(n)d; }
void val_%(n)d( D%(n)d* p ) { ::new((void*)p) D%(n)d(); }
void brace_%(n)d( D%(n)d* p ) { ::new((void*)p) D%(n)d{}; }
void arr_%(n)d( D%(n)d* p, B const (*a)[%(n)d] ) { ::new((void*)p) D%(n)d( *a ); }
void copy_%(n)d( D%(n)d* p, D%(n)d const* q ) { ::new((void*)p) D%(n)d( *q ); }
void asg_%(n)d( D%(n)d* p, D%(n)d const* q ) { *p = *q; }
Z size_%(n)d( D%(n)d const* p ) { return p->size(); }
Z msize_%(n)d( D%(n)d const* p ) { return p->max_size(); }
B* begin_%(n)d( D%(n)d* p ) { return p->begin(); }
B const* cbegin_%(n)d( D%(n)d const* p ) { return p->begin(); }
B* end_%(n)d( D%(n)d* p ) { return p->end(); }
B const* cend_%(n)d( D%(n)d const* p ) { return p->end(); }
B* data_%(n)d( D%(n)d* p ) { return p->data(); }
B const* cdata_%(n)d( D%(n)d const* p ) { return p->data(); }
B* at_%(n)d( D%(n)d* p, Z i ) { return &(*p)[i]; }
B const* cat_%(n)d( D%(n)d const* p, Z i ) { return &(*p)[i]; }
B* front_%(n)d( D%(n)d* p ) { return &p->front(); }
B const* cfront_%(n)d( D%(n)d const* p ) { return &p->front(); }
B* back_%(n)d( D%(n)d* p ) { return &p->back(); }
B const* cback_%(n)d( D%(n)d const* p ) { return &p->back(); }
bool eq_%(n)d( D%(n)d const* p, D%(n)d const* q ) { return *p == *q; }
bool ne_%(n)d( D%(n)d const* p, D%(n)d const* q ) { return *p != *q; }
char* tc_%(n)d( D%(n)d const* p, char* f, char* l ) { return to_chars( *p, f, l ); }
void ta_%(n)d( D%(n)d const* p, char (*w)[ 2*%(n)d+1 ] ) { to_chars( *p, *w ); }
void tb_%(n)d( D%(n)d const* p, char (*w)[ 2*%(n)d+7 ] ) { to_chars( *p, *w ); }
void ts_%(n)d( std::string* s, D%(n)d const* p ) { ::new((void*)s) std::string( to_string( *p ) ); }
void os_%(n)d( std::ostream& o, D%(n)d const* p ) { o << *p; }
}
''' % {'n': n}
    return s
RT = ['unsigned char', 'unsigned short', 'unsigned', 'unsigned long', 'unsigned long long', 'char16_t', 'char32_t']
TT = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'wchar_t', 'char16_t', 'char32_t']
AR = ['digest<%d>' % n for n in (8, 9, 16, 20, 64)]+['std::array<unsigned char,%d>' % n for n in (8, 12, 32)]
def gir_source():
    s = PRE
    for i, r in enumerate(RT):
        for j, t in enumerate(TT): s += 'extern "C" %s gi_%d_%d( %s const* r ) { return get_integral_result<%s>( *r ); }\n' % (t, i, j, r, t)
    for i, r in enumerate(AR):
        for j, t in enumerate(TT): s += 'extern "C" %s ga_%d_%d( %s const* r ) { return get_integral_result<%s>( *r ); }\n' % (t, i, j, r, t)
    return s
SIZE = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'int': 4, 'unsigned': 4, 'char32_t': 4, 'wchar_t': 4}

class VM:
    def __init__(self, mod):
        self.mod = mod; self.out = None; self.P = P = mod.ptrsize; self.ptrty = PtrTy(P); self.hb = 1 << 40 if P == 8 else 1 << 30
        z = 'm' if P == 8 else 'j'; d = 'l' if P == 8 else 'i'
        self.I = Interp(mod, {'strlen': self.x_strlen, '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_'+d: self.x_insert,
            '_ZNSo5writeEPKc'+d: self.x_write, '_ZNSo3putEc': self.x_put, '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createER'+z+z: self.x_create,
            '_ZdlPv': self.x_nop, '_ZdlPv'+z: self.x_nop, '_Znw'+z: self.x_new,
            '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE12_M_constructE'+z+'c': self.x_fill}, templates=False)
        self.I.unroll_limit = max(getattr(self.I, 'unroll_limit', 0), 200)
    def fn(self, n):
        f = self.mod.fns.get(n)
        if f is None: raise Broken('harness function %s is missing' % n)
        return f
    def call(self, n, *a, st=None):
        return self.I.run_fn(st or State(), self.fn(n), list(a))
    # ---------------------------------------------------------------- library functions
    def x_nop(self, I, st, a, ins, fn): return [(st, None)]
    def x_new(self, I, st, a, ins, fn):
        n = st.view(a[0]); r = I.region(st, n, kind='heap'); return [(st, r)]
    def x_create(self, I, st, a, ins, fn):
        v = st.mem[a[1].r].load(a[1].off, self.P, st.store)
        n = st.view(self.word(v))
        if n is None: raise Unknown('string capacity')
        r = I.region(st, n+1, kind='heap')
        return [(st, r)]
    def size(self, t): return self.P if t in ('long', 'unsigned long') else SIZE.get(t, 8)
    def word(self, v): return (tm.concat_le(v[::-1] if self.mod.big_endian else v) if isinstance(v, list) else v)
    def put(self, st, p, o, v):
        if self.mod.big_endian and isinstance(v, T):
            for j in range(v.w//8): st.wregion(p.r).store(p.off+o+j, tm.extract(v, v.w-8-8*j, 8), None, st.store)
        else: st.wregion(p.r).store(p.off+o, v, None, st.store)
    def x_fill(self, I, st, a, ins, fn):
        p, n, c = a
        k = st.view(n)
        if k is None: raise Unknown('string length')
        k = st.store.norm(k).const
        if k is None: raise Unknown('string length')
        if k > 15:
            r = I.region(st, E(k+1), kind='heap'); q = r
            self.put(st, p, 2*self.P, const(8*self.P, k))
        else: q = Ptr(p.r, p.off+2*self.P)
        self.put(st, p, 0, q); self.put(st, p, self.P, const(8*self.P, k))
        for j in range(k): st.wregion(q.r).store(q.off+j, c, None, st.store)
        st.wregion(q.r).store(q.off+k, const(8, 0), None, st.store)
        return [(st, None)]
    def bytes(self, st, p, n):
        out = []
        for j in range(n):
            v = st.mem[p.r].load(st.norm(p.off+j), 1, st.store)
            v = v[0] if isinstance(v, list) else v
            if isinstance(v, tuple): raise Unknown('pointer byte')
            out.append(v)
        return out
    def x_strlen(self, I, st, a, ins, fn):
        p = a[0]; n = st.mem[p.r].size.const
        if n is None: raise Unknown('strlen')
        for j in range(n-p.off.const):
            v = self.bytes(st, Ptr(p.r, p.off+j), 1)[0]
            if v.k == 'c':
                if v.a == 0: return [(st, const(8*self.P, j))]
                continue
            z = table(v)
            if z is None or 0 in z[1]: raise Unknown('strlen of unknown text')
        I.alarm('out-of-bounds', ins, 'string without terminator', st); return []
    def emit(self, st, bs): st.extra = dict(st.extra); st.extra['out'] = st.extra.get('out', ())+tuple(bs)
    def x_insert(self, I, st, a, ins, fn):
        n = st.view(a[2])
        n = None if n is None else st.norm(n).const
        if n is None: raise Unknown('length of output')
        I.bounds(st, a[1], E(n), ins, 'read'); self.emit(st, self.bytes(st, a[1], n))
        return [(st, a[0])]
    x_write = x_insert
    def x_put(self, I, st, a, ins, fn): self.emit(st, [a[1]]); return [(st, a[0])]
    # ---------------------------------------------------------------- objects
    def obj(self, st, rid, n, kind='input'):
        r = Region(rid, E(n), ('s', rid, ZERO) if kind != 'fresh' else ('u',), kind if kind != 'fresh' else 'obj', rid); r.owner = st.uid; st.mem[rid] = r
        return Ptr(rid)
# ---------------------------------------------------------------------- functions of one byte
def table(t):
    """the byte t depends on and the values of t for each value of it, or None"""
    ls = leaves(t)
    if ls is None or len(ls) > 1: return None
    if not ls: return None, [const_of(t)]
    x = next(iter(ls)); k = tm.subst(t, {x: sym(8, 'B')})
    if k not in _table:
        try: _table[k] = [evalbyte(t, {x: v}) for v in range(256)]
        except NoEval: _table[k] = None
    return None if _table[k] is None else (x, _table[k])
def leaves(t):
    out = set(); seen = set()
    def go(t):
        if t in seen: return True
        seen.add(t)
        if t.k == 'c': return True
        if t.k == 'a' and t.a[0] in ('sb', 'sym'): out.add(t); return True
        cs = list(tm.children(t))
        if t.k == 'a' and (not cs or t.a[0] in ('undef', 'iv', 'cv')): return False
        return all(go(c) for c in cs)
    return out if go(t) else None
def const_of(t): return evalbyte(t, {})
def evalbyte(t, env):
    r = tm.subst(t, {x: const(x.w, v) for x, v in env.items()})
    if r.k == 'c': return r.a
    v = Val(Store(), {}, random.Random(1))
    return v.t(r)
_digit = {}
_table = {}
def admitted(b, facts):
    """the values of b the path condition leaves, and whether that is exact"""
    vs = list(range(256)); exact = True
    for a, val in facts.items():
        if isinstance(a, tuple): a, val = a[1], None
        if not isinstance(a, T): exact = False; continue
        ls = leaves(a)
        if ls is None: exact = exact and b not in tm_terms(a); continue
        if b not in ls: continue
        if len(ls) > 1: exact = False; continue
        k = (tm.subst(a, {b: sym(8, 'B')}), val)
        if k not in _admit: _admit[k] = {v for v in range(256) if (evalbyte(a, {b: v}) != 0 if val is None else evalbyte(a, {b: v}) == int(bool(val)))}
        vs = [v for v in vs if v in _admit[k]]
    return vs, exact
def held(b, st):
    """the numbers the path condition is stated about that are functions of byte b: [(values for each b, linear form)]"""
    out = []
    for key, e in list(st.views.items()):
        if len(key) != 2 or not isinstance(key[0], T): continue
        t, sg = key
        tb = table(t)
        if tb is None or tb[0] is not b: continue
        e = st.store.norm(e)
        out.append(([v-(1 << t.w) if sg and v >> (t.w-1) else v for v in tb[1]], e))
    return out
def among(hs, store, v):
    for vals, e in hs:
        lo, hi = store.lower(e), store.upper(e)
        if lo is not None and vals[v] < lo or hi is not None and vals[v] > hi: return False
    return True
def possible(hs, store, v):
    for vals, e in hs:
        store = store.add_eq0(e-vals[v])
        if store is None: return False
    return True
_admit = {}
def tm_terms(t):
    seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); todo += list(tm.children(x))
    return seen
def hexdigit(t, b, hi, st):
    """is t the digit of the high or low half of byte term b?  'eq', ('ne', w) or 'unk'"""
    want = [HEX[v >> 4] if hi else HEX[v & 15] for v in range(256)]
    ls = leaves(t)
    if ls is None: return 'unk'
    facts = st.facts; hs = held(b, st)
    vs, exact = admitted(b, facts)
    vs = [v for v in vs if among(hs, st.store, v)]
    if not ls or ls == {b}:
        k = (tm.subst(t, {b: sym(8, 'B')}), hi, tuple(vs))
        if k in _digit: return 'eq'
        keep = True
        for v in vs:
            g = evalbyte(t, {b: v})
            if g != want[v]:
                if possible(hs, st.store, v): return ('ne', 'byte %#04x gives %#04x instead of %#04x' % (v, g, want[v])) if exact else 'unk'
                keep = False
        if keep: _digit[k] = 'eq'
        return 'eq'
    # depends on other bytes: a difference for some values of them
    rnd = random.Random(5)
    for k in range(300):
        env = {x: rnd.choice([0, 255, rnd.randrange(256)]) & full(x.w) for x in ls}; v = env.get(b, rnd.randrange(256))
        if facts or st.views: return 'unk'
        g = evalbyte(t, env)
        if g != want[v]: return ('ne', 'with %s the digit is %#04x' % (', '.join('%s=%#x' % (tm.show(x, 1), y) for x, y in list(env.items())[:4]), g))
    return 'unk'
def text(vm, res, name, st, bs, n, stream, where):
    if len(bs) != 2*n: res.add(name, 'violated', 'the text has %d characters, not %d' % (len(bs), 2*n), where); return
    worst = 'eq'
    for j, t in enumerate(bs):
        d = hexdigit(t, sb(stream, E(j//2)), j % 2 == 0, st)
        if d == 'unk': worst = 'unk'
        elif d != 'eq': res.add(name, 'violated', 'character %d is wrong: %s' % (j, d[1]), where); return
    res.add(name, 'proved' if worst == 'eq' else 'unknown', 'digits not in a decidable form' if worst != 'eq' else None, where)

def d01(vm, res, n):
    P = 'digest<%d> ' % n
    def run(label, f):
        try: f()
        except (Unknown, NeedFork, NeedForkConst, NeedForkBool) as e: res.add(P+label, 'unknown', '%s: %s' % (type(e).__name__, e))
        alarms(vm, res, P+label)
    def tc():
        st = State(); p = vm.obj(st, 'D', n)
        L = V('len'); st.store = st.store.add_ge0(L).add_ge0(E(vm.hb)-L)
        vm.obj(st, 'Out', L, 'obj'); st.mem['Out'] = r = Region('Out', L, ('s', 'Out', ZERO), 'obj', 'Out'); r.owner = st.uid
        outs = vm.I.run_fn(st, vm.fn('tc_%d' % n), [p, Ptr('Out'), Ptr('Out', L)])
        if not outs: res.add(P+'to_chars', 'unknown', 'no path returns')
        for s, v in outs:
            if isinstance(v, Ptr) and v.r is None:
                # null: insufficient space, nothing written outside (bounds) ; must not happen when there is room
                q = s.store.add_ge0(L-2*n)
                if q is None: res.ok(P+'to_chars: null only without room')
                else:
                    w = vm.I.witness(s, L-2*n)
                    res.add(P+'to_chars: null only without room', 'violated' if w else 'unknown', 'null is returned although the range has room, for example when %s' % w, 'to_chars')
                continue
            if not isinstance(v, Ptr) or v.r != 'Out': res.add(P+'to_chars: end of output', 'unknown', 'returned value'); continue
            d = s.norm(v.off-2*n)
            if d == 0 or s.store.constval(d) == 0: res.ok(P+'to_chars: end of output')
            else: res.add(P+'to_chars: end of output', 'violated' if vm.I.witness(s, d-1) or vm.I.witness(s, -d-1) else 'unknown', 'returns first + %s' % v.off, 'to_chars')
            if not s.store.ge0(L-2*n):
                w = vm.I.witness(s, 2*n-1-L)
                if w: res.add(P+'to_chars: null without room', 'violated', 'success is reported without room, for example when %s' % w, 'to_chars'); continue
                res.add(P+'to_chars: null without room', 'unknown', 'room not decided')
            text(vm, res, P+'to_chars: digits', s, vm.bytes(s, Ptr('Out'), 2*n), n, 'D', 'to_chars')
            # nothing after the text
            tailp = s.mem['Out'].read_parts(E(2*n), L-2*n, s.store)
            b = parts_to_seq(tailp, s.store); want = parts_to_seq([('s', 'Out', E(2*n), L-2*n)], s.store) if False else None
            z = Region('Out2', L, ('s', 'Out', ZERO), 'obj', 'Out2')
            c = parts_to_seq(z.read_parts(E(2*n), L-2*n, s.store), s.store)
            res.v(P+'to_chars: nothing after the text', verdict(b, c, s.store, s.facts), 'bytes after the digits are changed', 'to_chars')
    run('to_chars', tc)
    for f, m in (('ta', 2*n+1), ('tb', 2*n+7)):
        def ta():
            st = State(); p = vm.obj(st, 'D', n); st.mem['Out'] = r = Region('Out', E(m), ('s', 'Out', ZERO), 'obj', 'Out'); r.owner = st.uid
            outs = vm.I.run_fn(st, vm.fn('%s_%d' % (f, n)), [p, Ptr('Out')])
            lab = P+'to_chars(char[%d])' % m
            if not outs: res.add(lab, 'unknown', 'no path returns')
            for s, _ in outs:
                bs = vm.bytes(s, Ptr('Out'), m)
                text(vm, res, lab+': digits', s, bs[:2*n], n, 'D', 'to_chars')
                z = bs[2*n]
                res.add(lab+': terminator', 'proved' if z.k == 'c' and z.a == 0 else 'violated' if z.k == 'c' and not s.facts else 'unknown', 'character %d is %s' % (2*n, tm.show(z, 3)), 'to_chars')
        run('to_chars array', ta)
    def ts():
        st = State(); p = vm.obj(st, 'D', n); vm.obj(st, 'S', 2*vm.P+16, 'fresh')
        outs = vm.I.run_fn(st, vm.fn('ts_%d' % n), [Ptr('S'), p])
        if not outs: res.add(P+'to_string', 'unknown', 'no path returns')
        for s, _ in outs:
            q = vm.I.load(s, Ptr('S'), vm.ptrty, None); l = vm.word(s.mem['S'].load(E(vm.P), vm.P, s.store))
            if not isinstance(q, Ptr) or l.k != 'c': res.add(P+'to_string', 'unknown', 'string not in a known form'); continue
            text(vm, res, P+'to_string', s, vm.bytes(s, q, l.a), n, 'D', 'to_string')
    run('to_string', ts)
    def os():
        st = State(); p = vm.obj(st, 'D', n); vm.obj(st, 'O', 512)
        outs = vm.I.run_fn(st, vm.fn('os_%d' % n), [Ptr('O'), p])
        if not outs: res.add(P+'operator<<', 'unknown', 'no path returns')
        for s, _ in outs: text(vm, res, P+'operator<<', s, list(s.extra.get('out', ())), n, 'D', 'operator<<')
    run('operator<<', os)
class PtrTy:
    kind = 'ptr'
    def __init__(self, P): self.size = P; self.w = 8*P
def alarms(vm, res, label):
    for a in vm.I.alarms.values():
        if a.kind in MEMORY or a.kind in ('pointer-range', 'null-memcpy', 'null-memset', 'memcpy-overlap', 'null-arith'): res.add(label+': '+a.kind, 'violated', {'what': a.msg, 'witness': a.store[:200]}, a.loc)
    vm.I.alarms.clear()
    for u in vm.I.unproved: res.add(label+': bounds', 'unknown', u[:200])
    del vm.I.unproved[:]

def d02(vm, res, n):
    P = 'digest<%d> ' % n
    def run(label, f):
        try: f()
        except (Unknown, NeedFork, NeedForkConst, NeedForkBool) as e: res.add(P+label, 'unknown', '%s: %s' % (type(e).__name__, e))
        alarms(vm, res, P+label)
    def const_fn(label, f, want):
        def go():
            st = State(); p = vm.obj(st, 'D', n)
            for s, v in vm.I.run_fn(st, vm.fn('%s_%d' % (f, n)), [p]): res.v(P+label, 'eq' if v is const(8*vm.P, want) else ('ne', '%s' % tm.show(v, 3)) if v.k == 'c' else 'unk', label+' is %s' % tm.show(v, 3), label)
        run(label, go)
    const_fn('size()', 'size', n); const_fn('max_size()', 'msize', n)
    def addr(label, f, off, *extra):
        def go():
            st = State(); p = vm.obj(st, 'D', n, 'obj'); args = [p]; o = off
            if f in ('at', 'cat'):
                i = V('i'); st.store = st.store.add_ge0(i).add_ge0(E(n-1)-i); args.append(iv(i, 8*vm.P)); o = i
            for s, v in vm.I.run_fn(st, vm.fn('%s_%d' % (f, n)), args):
                if not isinstance(v, Ptr) or v.r != 'D': res.add(P+label, 'violated' if isinstance(v, Ptr) else 'unknown', '%s does not refer to the bytes of the object' % label, label); continue
                d = s.norm(v.off-(base+o))
                if d == 0 or s.store.constval(d) == 0: res.ok(P+label)
                else: res.add(P+label, 'violated' if (vm.I.witness(s, d-1) or vm.I.witness(s, -d-1)) else 'unknown', '%s refers to byte %s' % (label, v.off-base), label)
                if s.wlog: pass
        run(label, go)
    base = ZERO
    def d():
        nonlocal base
        st = State(); p = vm.obj(st, 'D', n, 'obj')
        v = vm.I.run_fn(st, vm.fn('cdata_%d' % n), [p])[0][1]
        if isinstance(v, Ptr) and v.r == 'D' and v.off.const is not None: base = v.off
    run('data()', d)
    for f, l, o in (('begin', 'begin()', 0), ('cbegin', 'begin() const', 0), ('end', 'end()', n), ('cend', 'end() const', n), ('data', 'data()', 0), ('cdata', 'data() const', 0), ('at', 'operator[]', None), ('cat', 'operator[] const', None),
                    ('front', 'front()', 0), ('cfront', 'front() const', 0), ('back', 'back()', n-1), ('cback', 'back() const', n-1)): addr(l, f, o)
    def value(label, f, args, want):
        def go():
            st = State(); vm.obj(st, 'P', SZ, 'fresh' if f != 'asg' else 'obj')
            a = args(st)
            for s, _ in vm.I.run_fn(st, vm.fn('%s_%d' % (f, n)), [Ptr('P')]+a):
                bs = vm.bytes(s, Ptr('P', base), n)
                for j, t in enumerate(bs):
                    w = want(j)
                    if t is not w: res.v(P+label, verdict(t, w, s.store, s.facts), 'byte %d is %s' % (j, tm.show(t, 3)), label); break
                else: res.ok(P+label)
        run(label, go)
    SZ = vm.call('sizeof_%d' % n)[0][1].a
    for f, l in (('def', 'default construction'), ('val', 'value construction'), ('brace', 'brace construction')): value(l, f, lambda st: [], lambda j: const(8, 0))
    value('construction from an array', 'arr', lambda st: [vm.obj(st, 'A', n)], lambda j: sb('A', E(j)))
    value('copy construction', 'copy', lambda st: [vm.obj(st, 'A', SZ)], lambda j: sb('A', base+j))
    value('assignment', 'asg', lambda st: [vm.obj(st, 'A', SZ)], lambda j: sb('A', base+j))
    for f, l, neg in (('eq', 'operator==', False), ('ne', 'operator!=', True)):
        def go():
            st = State(); p = vm.obj(st, 'A', SZ); q = vm.obj(st, 'B', SZ)
            equality(vm, res, P+l, vm.I.run_fn(st, vm.fn('%s_%d' % (f, n)), [p, q]), n, base, neg, l)
            # an object compared with itself
            st = State(); p = vm.obj(st, 'A', SZ)
            for s, v in vm.I.run_fn(st, vm.fn('%s_%d' % (f, n)), [p, p]):
                v = tm.subst(v, {}) if isinstance(v, T) else v
                k = truth(v, s)
                res.add(P+l+' with itself', 'proved' if k is (not neg) else 'violated' if k is not None and not s.facts else 'unknown', 'is %s' % k, l)
        run(l, go)
def truth(v, st):
    r, und = st.evalbool(tm.trunc(v, 1) if v.w > 1 else v)
    return r
def pairs(t):
    """the byte equalities t asserts: set of pairs of bytes, or None"""
    if t.w > 1: return None
    if t.k == 'a' and t.a[0] == 'eq':
        x, y = t.a[1], t.a[2]
        if x.k == 'c': x, y = y, x
        if x.k == 'a' and x.a[0] == 'memcmp' and y.k == 'c' and y.a == 0:
            a, b = seqbytes(x.a[1]), seqbytes(x.a[2])
            if a is None or b is None or len(a) != len(b): return None
            return set(frozenset(z) for z in zip(a, b))
        if x.w % 8 == 0:
            return set(frozenset((tm.extract(x, k, 8), tm.extract(y, k, 8))) for k in range(0, x.w, 8))
    return None
def seqbytes(q):
    out = []
    for p in q.p:
        n = plen(p).const
        if n is None: return None
        for j in range(n): out.append(part_byte(p, E(j)))
    return out
def part_byte(p, i):
    r = Seq((p,)) if False else None
    from .mem import SeqB
    if p[0] == 'b': return p[1]
    if p[0] == 's': return sb(p[1], p[2]+i)
    raise Unknown('byte of %s' % (p[0],))
def rounds(outs, n):
    """states behind a loop, one for each number of rounds it made"""
    todo = list(outs); out = []
    while todo:
        s, v = todo.pop(0)
        rs = s.extra.get('rounds')
        if not rs or not isinstance(v, T): out.append((s, v)); continue
        tn, F = rs[0]; t = V(tn)
        lo, hi = s.store.lower(t), s.store.upper(t)
        if lo is None or hi is None or hi-lo > 4*n+4: out.append((s, v)); continue
        for k in range(lo, hi+1):
            st = s.store.add_eq0(t-k)
            if st is None: continue
            s2 = s.clone(); s2.store = st; s2.facts = {}; s2.extra['rounds'] = rs[1:]
            at = lambda x, j: tm.subst(x, {}, {'vars': {tn: E(j)}})
            ok = True
            for a, b in [(at(a, k), b) for a, b in s.facts.items() if isinstance(a, T)]+[(at(a, j), b) for j in range(k) for a, b in F]:
                if a.k == 'c': ok = ok and bool(a.a) == bool(b)
                elif s2.facts.get(a, b) != b: ok = False
                else: s2.facts[a] = b
            if ok: todo.append((s2, at(v, k)))
    return out
def equality(vm, res, label, outs, n, base, neg, where):
    """every path returns (all n bytes equal) xor neg"""
    outs = rounds(outs, n)
    allp = set(frozenset((sb('A', base+j), sb('B', base+j))) for j in range(n))
    bad = None; open_ = None
    for s, v in outs:
        eqs = set(); diff = set(); other = False
        v = tm.trunc(v, 1) if v.w > 1 else v
        r, und = s.evalbool(v)
        cases = []
        facts = dict((a, b) for a, b in s.facts.items() if isinstance(a, T))
        if r is not None: cases.append((facts, r))
        else: cases += [({**facts, und: b}, s2) for b, s2 in ((True, None), (False, None))]
        for fs, val in cases:
            if val is None:
                # value once und is decided
                s3 = s.clone()
                try: ok = s3.assume_atom(und, fs[und])
                except Dead: continue
                val, u2 = s3.evalbool(v)
                if val is None: open_ = 'returned value %s' % tm.show(v, 3); continue
            claim = bool(val) ^ neg
            eqs = set(); ne = None
            for a, b in fs.items():
                p = pairs(a)
                if p is None: continue
                if b: eqs |= p
                elif p <= allp: ne = p
            if claim and eqs >= allp: continue
            if not claim and ne: continue
            open_ = 'a path returning %s' % bool(val)
    if open_ is None: res.ok(label); return
    # a pair of digests on which it is wrong
    tests = [({}, True)]
    for j in range(n):
        for x in (1, 0x80, 0xff, 0x20): tests.append(({j: x}, False))
    if n > 1: tests += [({0: 0x55, n-1: 0x55}, False), ({0: 1, 1: 255}, False), ({0: 255, 1: 1}, False)]
    tests += [({j: 0x80, k: 0x80}, False) for j in range(n) for k in range(j) if (j-k) in (1, 2, 4, 8, 16)]
    tests += [({j: 'swap', (j+1) % n: 'swap'}, None) for j in range(n) if n > 1]
    rnd = random.Random(3)
    undecided = False
    for bg in ('zero', 'rand'):
        A0 = [0]*n if bg == 'zero' else [rnd.randrange(256) for _ in range(n)]
        for d, want in tests:
            A = list(A0); B = list(A)
            ks = list(d)
            if want is None: B[ks[0]], B[ks[1]] = A[ks[1]], A[ks[0]]
            else:
                for j, x in d.items(): B[j] ^= x
            want2 = A == B
            sub = {sb('A', base+j): const(8, A[j]) for j in range(n)}; sub.update({sb('B', base+j): const(8, B[j]) for j in range(n)})
            for s, v in outs:
                try:
                    if not all(ev(a, sub) == int(bool(b)) for a, b in s.facts.items() if isinstance(a, T)): continue
                    g = ev(v, sub) & 1
                except (NoEval, Unknown): undecided = True; continue
                if bool(g) != (want2 ^ neg):
                    res.add(label, 'violated', {'what': 'the result is %s' % bool(g), 'witness': 'left %s right %s' % (bytes(A).hex(), bytes(B).hex())}, where); return
    res.add(label, 'unknown', open_, where)
def ev(t, sub):
    if t.k == 'a' and t.a[0] == 'memcmp':
        a, b = seqbytes(t.a[1]), seqbytes(t.a[2])
        if a is None or b is None: raise Unknown('memcmp')
        x, y = [ev(z, sub) for z in a], [ev(z, sub) for z in b]
        return 0 if x == y else 1 if x > y else full(32)
    r = tm.subst(t, sub)
    if r.k == 'c': return r.a
    m = {}
    def find(t):
        if t.k == 'a' and t.a[0] == 'memcmp': m[t] = const(32, ev(t, sub)); return
        for c in tm.children(t): find(c)
    find(t)
    r = tm.subst(tm.subst(t, m), sub)
    if r.k == 'c': return r.a
    return Val(Store(), {}, random.Random(1)).t(r)

# ---------------------------------------------------------------------- get_integral_result
def v2(c):
    k = 0
    while c and not c & 1: c >>= 1; k += 1
    return k
def slices(t):
    """t as (x, lo): t = bits lo.. of x, with x a linear form; or None"""
    if t.k in ('l',) or (t.k == 'a' and t.a[0] == 'sym'): return t, 0
    b = tm.to_bits(t)
    b = dict(b)
    if len(b) == 1:
        (m, mask), = b.items()
        if len(m) == 1:
            x, o = m[0]
            if o >= 0 and mask == full(t.w): return x, o
    return None
def g01(vm, res, i):
    r = RT[i]; rw = 8*vm.size(r)
    R = sym(rw, 'r'); got = {}
    for j, t in enumerate(TT):
        lab = 'get_integral_result<%s>(%s)' % (t, r); tw = 8*vm.size(t)
        try:
            st = State(); st.mem['R'] = g = Region('R', E(rw//8), ('s', 'R', ZERO), 'obj', 'R'); g.owner = st.uid; g.store(ZERO, R, None, st.store)
            outs = vm.I.run_fn(st, vm.fn('gi_%d_%d' % (i, j)), [Ptr('R')])
            if len(outs) != 1 or not isinstance(outs[0][1], T): res.add(lab, 'unknown', 'several paths'); continue
            s, v = outs[0]; v = tm.trunc(v, tw) if v.w > tw else v
        except (Unknown, NeedFork, NeedForkConst, NeedForkBool) as e: res.add(lab, 'unknown', '%s: %s' % (type(e).__name__, e)); continue
        got[j] = v
        if tm.support(v) - {R} and any(x.k == 'a' and x.a[0] == 'undef' for x in tm.support(v)): res.add(lab+': deterministic', 'violated', 'the value depends on uninitialised memory', 'get_integral_result')
        if tw == rw: res.v(lab+': identity', verdict(v, R, s.store, s.facts), 'got %s' % tm.show(v, 4), 'get_integral_result')
        elif tw > rw: injective(res, lab+': injective', v, R, rw, tw)
        else: uniform(res, lab+': uniform', v, R, rw, tw)
        for k in got:
            if k < j and vm.size(TT[k])*8 == tw:
                res.v(lab+': as for '+TT[k], verdict(v, got[k], s.store, s.facts), 'differs from the value for %s: %s, %s' % (TT[k], tm.show(v, 4), tm.show(got[k], 4)), 'get_integral_result'); break
    alarms(vm, res, 'get_integral_result(%s)' % r)
def evr(v, R, x): 
    q = tm.subst(v, {R: const(R.w, x)})
    return q.a if q.k == 'c' else Val(Store(), {}, random.Random(1)).t(q)
def injective(res, lab, v, R, rw, tw):
    c0, d = tm.to_lin(v)
    if len(d) == 1:
        (x, c), = d.items()
        if iszext(x, R, rw):
            # c*x1 = c*x2 (mod 2^tw) for distinct x below 2^rw iff 2^tw divides c*(x1-x2)
            if v2(c)+rw <= tw: res.ok(lab)
            else:
                k = max(0, tw-v2(c)); res.add(lab, 'violated', 'results 0 and %#x give the same value' % (1 << k if k < rw else 1), 'get_integral_result')
            return
    if rw <= 16: vals = range(1 << rw)
    else:
        rnd = random.Random(2); vals = [0, 1, full(rw)]+[1 << k for k in range(rw)]+[full(rw) ^ (1 << k) for k in range(rw)]+[rnd.getrandbits(rw) for _ in range(2000)]
    seen = {}
    for x in vals:
        y = evr(v, R, x)
        if seen.setdefault(y, x) != x: res.add(lab, 'violated', 'results %#x and %#x both give %#x' % (seen[y], x, y), 'get_integral_result'); return
    if rw <= 16: res.ok(lab)
    else: res.add(lab, 'unknown', 'not a linear form: %s' % tm.show(v, 4))
def iszext(x, R, rw):
    if x is R: return True
    return x is tm.zext(R, x.w) if x.w > rw else False
def uniform(res, lab, v, R, rw, tw):
    if rw <= 16:
        cnt = {}
        for x in range(1 << rw): y = evr(v, R, x); cnt[y] = cnt.get(y, 0)+1
        m = 1 << (rw-tw); lo, hi = min(cnt.values()) if len(cnt) == 1 << tw else 0, max(cnt.values())
        if lo >= m-1 and hi <= m+1: res.ok(lab)
        else: res.add(lab, 'violated', 'values occur between %d and %d times instead of %d' % (lo, hi, m), 'get_integral_result')
        return
    sl = slices(v)
    if sl is not None:
        x, lo = sl
        c0, d = tm.to_lin(x)
        if len(d) == 1 and x.w >= lo+tw:
            (y, c), = d.items()
            if iszext(y, R, rw) or y is R:
                k = v2(c)
                # odd multiple of the low bits of R, shifted by k: bits k..min(w, k+rw) are uniform
                w = x.w
                if k <= lo and lo+tw <= min(w, k+rw) and (c >> k) & 1 and (w <= k+rw): res.ok(lab); return
                if k > lo: res.add(lab, 'violated', 'bit %d of the value does not depend on the result' % 0, 'get_integral_result'); return
    # sampled refutation: a value that is impossible or twice as frequent
    rnd = random.Random(4); N = 1 << 13; cnt = {}
    hi8 = max(0, tw-8)
    for part in (0, hi8):
        c = {}
        for k in range(N):
            y = evr(v, R, rnd.getrandbits(rw)) >> part & 255
            c[y] = c.get(y, 0)+1
        m = N/256
        if len(c) < 200 or max(c.values()) > 4*m: res.add(lab, 'violated', 'bits %d to %d of the value are far from uniform (%d of 256 values seen, most frequent %d of %d)' % (part, part+7, len(c), max(c.values()), N), 'get_integral_result'); return
    res.add(lab, 'unknown', 'not a slice of an invertible form: %s' % tm.show(v, 5))
def g01a(vm, res, i):
    r = AR[i]; n = int(r[r.index('<')+1:-1].split(',')[-1])
    for j, t in enumerate(TT):
        lab = 'get_integral_result<%s>(%s)' % (t, r); k = vm.size(t)
        try:
            st = State(); p = vm.obj(st, 'R', n)
            for s, v in vm.I.run_fn(st, vm.fn('ga_%d_%d' % (i, j)), [p]):
                v = tm.trunc(v, 8*k) if v.w > 8*k else v
                res.v(lab, verdict(v, tm.concat_le([sb('R', E(x)) for x in range(k)]), s.store, s.facts), 'got %s' % tm.show(v, 4), 'get_integral_result')
        except (Unknown, NeedFork, NeedForkConst, NeedForkBool) as e: res.add(lab, 'unknown', '%s: %s' % (type(e).__name__, e))
    alarms(vm, res, 'get_integral_result(%s)' % r)
