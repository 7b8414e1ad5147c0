"""hash_append over object shapes: the message handed to an archetype hash object, against the
documented message, for symbolic object contents and symbolic range lengths."""
from . import terms as tm
from .terms import T, const, sym, atom
from . import eqv
from .aff import E, V, ZERO, fresh, Store
from .mem import *
from .interp import Interp, State, demangle
from .eqv import verdict
from .loops import upd, rep, mksum, substE
from .hashmodel import Res, MAXLEN
from .shapes import *
from .check import Broken

def seq_of(st, p, n):
    return parts_to_seq(st.mem[p.r].read_parts(p.off, n, st.store), st.store)
MEMORY = ('null-deref', 'out-of-bounds', 'uninitialised', 'use-after-scope', 'write-to-const', 'abort', 'trap')
class AM:
    def __init__(self, mod):
        self.mod = mod; self.P = mod.ptrsize; self.hb = mod.big_endian
        self.I = Interp(mod, {'rec_update': self.x_update, 'rec_result': self.x_result, 'rec_user': self.x_user,
            '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base': self.x_next, '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base': self.x_next}, templates=False)
        self.I.dataptr = True
        self.next = {}; self.off = {}; self.sizes = {}; self.k = 0; self.big = False; self.count = None; self.mask = False
    def reset(self): self.I.alarms.clear()
    # ------------------------------------------------------------------ archetype hash
    def state(self, st, h):
        v = st.mem[h.r].load(h.off, 8, st.store)
        return tm.concat_le(v[::-1] if self.hb else v) if isinstance(v, list) else v
    def setstate(self, st, h, v): self.put(st.wregion(h.r), h.off, v, st.store); self.log(st, h)
    def put(self, r, off, v, store):
        """store a value in the byte order of the target"""
        if self.hb and isinstance(v, T) and v.w > 8:
            for j in range(v.w//8): r.store(off+j, tm.extract(v, v.w-8-8*j, 8), None, store)
        else: r.store(off, v, None, store)
    def ssize(self, l): return self.P if l.k in ('long', 'ulong', 'ptr', 'cptr', 'fptr', 'nullp') else l.size
    def native(self, fl): return 'big' if self.hb and FLAVORS[fl][0] == 'default_flavor' else FLAVORS[fl][1]
    def maxn(self, es): return MAXLEN//16 if self.P == 8 else (1 << 30)//max(16, es)
    def log(self, st, h):
        if st.wlog is not None: st.wlog.append((h.r, h.off, E(8)))
    def x_update(self, I, st, a, ins, fn):
        h, p, n = a
        n = st.view(n)
        if n is None: raise Unknown('length of update')
        if st.store.norm(n).const != 0:
            I.bounds(st, p, n, ins, 'read')
            self.setstate(st, h, upd(self.state(st, h), seq_of(st, p, n)))
        return [(st, None)]
    def x_result(self, I, st, a, ins, fn):
        s = self.state(st, a[0])
        self.setstate(st, a[0], atom(64, 'finst', s))
        return [(st, atom(64, 'fin', s))]
    def x_user(self, I, st, a, ins, fn):
        h, k, f, p, n = a
        b = SeqB(st.store)
        for x in (0xEE, k.a, f.a): b.add(('b', const(8, x)))
        b.addseq(seq_of(st, p, E(n.a)))
        self.setstate(st, h, upd(self.state(st, h), b.seq()))
        return [(st, None)]
    def x_next(self, I, st, a, ins, fn): return [(st, self.next[a[0].r])]
    # ------------------------------------------------------------------ layout, from the compiled program
    def fn(self, n):
        f = self.mod.fns.get(n)
        if f is None: raise Broken('harness function %s is missing' % n)
        return f
    def sizeof(self, i):
        if i not in self.sizes: self.sizes[i] = self.I.run_fn(State(), self.fn('sizeof_%d' % i), [])[0][1].a
        return self.sizes[i]
    def layout(self, i, t):
        """[(offset, leaf)] of a type"""
        if i in self.off: return self.off[i]
        st = State(); n = self.sizeof(i)
        st.mem['L'] = r = Region('L', E(n), ('s', 'L', ZERO), 'input', 'L')
        out = []
        for k, l in enumerate(t.leaves('*v')):
            if l[0] == 'lit': out.append((None, l)); continue
            p = self.I.run_fn(st.clone(), self.fn('addr_%d_%d' % (i, k)), [Ptr('L')])[0][1]
            if p.r != 'L' or p.off.const is None: raise Broken('constituent of %s is not inside the object' % t.cpp)
            out.append((p.off.const, l))
        self.off[i] = out
        return out
    def gir(self, t):
        """get_integral_result<uint64_t> of a 32-bit result, as the program computes it (judged by G01)"""
        return self.I.run_fn(State(), self.fn('gir32'), [t])[0][1]
    # ------------------------------------------------------------------ objects and their messages
    def fresh(self): self.k += 1; return self.k
    def place(self, st, types, t, name):
        """an object of shape t in a region of its own; -> (pointer, values of the bool bytes etc.)"""
        i = types[t.cpp][0]; n = self.sizeof(i)
        r = Region(name, E(n), ('s', name, ZERO), 'input', name); r.owner = st.uid; st.mem[name] = r
        env = {}
        self.fill(st, types, i, t, name, ZERO, env)
        return Ptr(name), env
    def fill(self, st, types, i, t, rid, base, env):
        r = st.mem[rid]
        P = self.P; sc = P/8
        for off, l in self.layout(i, t):
            if l[0] == 'sc' and l[1].cat == 'bool':
                b = sym(1, ('bool', self.fresh())); r.store(base+off, tm.zext(b, 8), None, st.store)
            elif l[0] == 'dyn':
                d = l[1]; j = types[d.t.cpp][0]; es = self.sizeof(j); k = self.fresh()
                c = self.count
                nv = V('n%d' % k) if c is None else E(c)
                if c is None: st.store = st.store.add_ge0(nv).add_ge0(E(self.maxn(es))-nv)
                en = 'El%d' % k
                st.mem[en] = Region(en, nv*es, ('s', en, ZERO), 'input', en); self.bools(types, d.t, en)
                self.env_el = env
                env[(rid, off if base == ZERO else None)] = (en, nv)
                if d.kind == 'vector':
                    for q, e in ((0, ZERO), (P, nv*es), (2*P, nv*es)): r.store(base+off+q, Ptr(en, e), None, st.store)
                else:
                    r.store(base+off, Ptr(en), None, st.store); self.put(r, base+off+P, iv(nv, 8*P), st.store)
            elif l[0] == 'nodes':
                d = l[1]; j = types[d.t.cpp][0]; es = self.sizeof(j); k = self.fresh()
                if d.cont == 'deque':
                    c = ['Ck%d_%d' % (k, x) for x in (0, 1)]; m = 'Cm%d' % k; per = 512//es; N = per*es
                    for x in c: st.mem[x] = Region(x, E(N), ('s', x, ZERO), 'input', x)
                    mr = Region(m, E(2*P), ('u',), 'input', m); mr.owner = st.uid; st.mem[m] = mr
                    for x in (0, 1): mr.store(E(P*x), Ptr(c[x]), None, st.store)
                    lo = 1 if d.n else 0
                    at = [(c[0], N-es)]+[(c[1], x*es) for x in range(d.n)]
                    r.store(base+off, Ptr(m), None, st.store); self.put(r, base+off+P, const(8*P, 2), st.store)
                    for q, (cc, o), w in ((2*P, at[0], 0), (6*P, at[d.n], 1 if d.n else 0)):
                        r.store(base+off+q, Ptr(cc, E(o)), None, st.store); r.store(base+off+q+P, Ptr(cc), None, st.store)
                        r.store(base+off+q+2*P, Ptr(cc, E(N)), None, st.store); r.store(base+off+q+3*P, Ptr(m, E(P*w)), None, st.store)
                    env[(rid, off)] = at[:d.n]
                    continue
                if d.cont == 'vbool':
                    m = 'Bw%d' % k; W = 8*P; nw = (d.n+W-1)//W
                    bits = [sym(1, ('bit', k, x)) for x in range(W*nw)]
                    mr = Region(m, E(P*nw), ('u',), 'input', m); mr.owner = st.uid; st.mem[m] = mr
                    for w in range(nw): self.put(mr, E(P*w), tm.concat_le(bits[W*w:W*w+W]), st.store)
                    for q, o in ((0, 0), (2*P, d.n)):
                        r.store(base+off+q, Ptr(m, E(P*(o//W))) if nw else NULL, None, st.store); self.put(r, base+off+q+P, const(32, o % W), st.store)
                    r.store(base+off+4*P, Ptr(m, E(P*nw)) if nw else NULL, None, st.store)
                    env[(rid, off)] = bits[:d.n]
                    continue
                H, voff, first, end, cnt = {'list': (0, 16, 0, 'self', 16), 'forward_list': (0, 8, 0, None, None), 'set': (8, 32, 24, 'self8', 40), 'multiset': (8, 32, 24, 'self8', 40),
                    'unordered_set': (16, 8, 16, None, 24), 'unordered_multiset': (16, 8, 16, None, 24)}[d.cont.replace('map', 'set')]
                H, voff, first, cnt = [x if x is None else int(x*sc) for x in (H, voff, first, cnt)]
                endp = NULL if end is None else Ptr(rid, base+off+(P if end == 'self8' else 0))
                ids = ['Nd%d_%d' % (k, x) for x in range(d.n)]; env[(rid, off)] = (ids, voff)
                for x, nd in enumerate(ids):
                    nr = Region(nd, E(voff+es), ('s', nd, E(-voff)), 'input', nd); nr.owner = st.uid; st.mem[nd] = nr; self.bools(types, d.t, nd)
                    nx = Ptr(ids[x+1]) if x+1 < d.n else endp
                    self.next[nd] = nx
                    if d.cont in ('list', 'forward_list') or 'unordered' in d.cont: nr.store(ZERO, nx, None, st.store)
                r.store(base+off+first, Ptr(ids[0]) if ids else endp, None, st.store)
                if cnt is not None: self.put(r, base+off+cnt, const(8*P, d.n), st.store)
    def bools(self, types, t, stream, base=0):
        """a stream of elements of shape t: its bools are 0 or 1"""
        j = types[t.cpp][0]
        at = {off+base for off, l in self.layout(j, t) if l[0] == 'sc' and l[1].cat == 'bool'}
        if at: eqv.BOOLS[stream] = (self.sizeof(j), at)
    def scalar(self, b, l, rd, big):
        """append the message of one scalar; rd(k): its k-th byte in memory"""
        bs = [rd(k) for k in range(self.ssize(l))]
        if self.hb: bs = bs[::-1]       # least significant byte first
        if l.cat == 'bool' and self.mask: bs = [tm.zext(tm.extract(bs[0], 0, 1), 8)]
        if l.cat == 'float': bs = fzbytes(bs)
        elif l.cat == 'null': bs = [const(8, 0)]*self.P
        for x in (bs[::-1] if big else bs): b.add(('b', x))
    def size(self, b, n, fl):
        _, order, w, _ = FLAVORS[fl]; order = self.native(fl)
        v = iv(n); bs = [tm.extract(v, 8*k, 8) for k in range(w)]
        for x in (bs[::-1] if order == 'big' else bs): b.add(('b', x))
    def message(self, st, types, i, t, rid, fl, env, b):
        """documented message of the object in region rid"""
        big = self.native(fl) == 'big'
        R = st.mem[rid]
        def byte(o): 
            v = R.load(E(o), 1, st.store)
            return v[0] if isinstance(v, list) else v
        for off, l in self.layout(i, t):
            if l[0] == 'lit':
                for x in l[1]: b.add(('b', const(8, x)))
            elif l[0] == 'sc': self.scalar(b, l[1], lambda k: byte(off+k), big)
            elif l[0] == 'user':
                for x in (0xEE, l[1].k, FLAVORS[fl][3]): b.add(('b', const(8, x)))
                for k in range(l[1].n): b.add(('b', byte(off+k)))
            elif l[0] == 'dyn':
                en, nv = env[(rid, off)]
                self.elements(st, types, l[1].t, en, nv, fl, b); self.size(b, nv, fl)
            elif l[0] == 'nodes':
                d = l[1]; j = types[d.t.cpp][0]
                if d.cont == 'deque':
                    for cc, o in env[(rid, off)]: self.one(types, j, d.t, cc, E(o), fl, b)
                    self.size(b, E(d.n), fl); continue
                if d.cont == 'vbool':
                    for x in env[(rid, off)]: b.add(('b', tm.zext(x, 8)))
                    self.size(b, E(d.n), fl); continue
                ids, voff = env[(rid, off)]
                if 'unordered' in d.cont:
                    s0 = st.extra['S0']; w = const(64, 0)
                    pre = upd(s0, b.seq())
                    for nd in ids:
                        m = SeqB(st.store); self.one(types, j, d.t, nd, ZERO, fl, m); w = tm.add(w, atom(64, 'fin', upd(pre, m.seq())))
                    bs = [tm.extract(w, 8*k, 8) for k in range(8)]
                    for x in (bs[::-1] if big else bs): b.add(('b', x))
                else:
                    for nd in ids: self.one(types, j, d.t, nd, ZERO, fl, b)
                self.size(b, E(d.n), fl)
    def one(self, types, j, t, stream, at, fl, b):
        big = self.native(fl) == 'big'
        for off, l in self.layout(j, t):
            if l[0] == 'lit':
                for x in l[1]: b.add(('b', const(8, x)))
            elif l[0] == 'sc': self.scalar(b, l[1], lambda k: sb(stream, at+off+k), big)
            elif l[0] == 'user':
                for x in (0xEE, l[1].k, FLAVORS[fl][3]): b.add(('b', const(8, x)))
                for k in range(l[1].n): b.add(('b', sb(stream, at+off+k)))
            else: raise Broken('dynamic element')
    def elements(self, st, types, t, stream, n, fl, b):
        """the messages of n elements of shape t stored contiguously in a stream"""
        j = types[t.cpp][0]; es = self.sizeof(j)
        tv = fresh('t'); m = SeqB(None)
        self.one(types, j, t, stream, tv*es, fl, m)
        b.addseq(rep(m.seq(), tv, n))
def fzbytes(bs):
    """bytes of a float with negative zero replaced"""
    from .interp import fz
    x = fz(tm.concat_le(bs))
    return [tm.extract(x, 8*k, 8) for k in range(len(bs))]

def start(am):
    st = State()
    r = Region('h', E(8), ('u',), 'obj', 'h'); r.owner = st.uid; st.mem['h'] = r
    s0 = sym(64, 'S0'); am.put(r, ZERO, s0, st.store); st.extra = dict(st.extra); st.extra['S0'] = s0
    return st, s0
def minlen(q, store):
    lo = 0
    n = ZERO
    for p in q.p: n = n+plen(p)
    lo = store.lower(store.norm(n))
    return lo
def analyse(am, types, subj, res, mode):
    """mode: message (equality with the documented message) or nonempty"""
    how, t, fl, fname = subj
    st, s0 = start(am)
    eqv.BOOLS.clear(); am.mask = False
    label = '%s %s %s' % (how, t.cpp, FLAVORS[fl][0])
    h = Ptr('h'); i = types[t.cpp][0]
    if how == 'obj':
        p, env = am.place(st, types, t, 'Obj'); args = [h, p]
    else:
        n = V('n') if am.count is None else E(am.count)
        es = am.sizeof(i)
        if am.count is None: st.store = st.store.add_ge0(n).add_ge0(E(am.maxn(es))-n)
        st.mem['El'] = Region('El', n*es, ('s', 'El', ZERO), 'input', 'El'); args = [h, Ptr('El'), iv(n, 8*am.P)]; am.bools(types, t, 'El')
    init = st.clone()
    outs = am.I.run_fn(st, am.fn(fname), args)
    if not outs: res.add(label, 'unknown', 'no execution reaches the end'); return
    for s, _ in outs:
        got = am.state(s, h)
        where = 'hash_append'
        def expected():
            b = SeqB(s.store)
            if how == 'obj': am.message(init, types, i, t, 'Obj', fl, env, b)
            elif how == 'size': am.size(b, n, fl)
            elif how.startswith('unord') or how == 'R_un':
                tv = fresh('t'); m = SeqB(None); am.one(types, i, t, 'El', tv*es, fl, m)
                f = atom(64, 'fin', upd(s0, m.seq()))
                if how == 'unord32': f = am.gir(tm.trunc(f, 32))
                w = mksum(f, tv.d[0][0], n)
                c = s.store.constval(n)
                if c is not None:
                    w = const(64, 0)
                    for k in range(c): w = tm.add(w, substE(f, tv.d[0][0], E(k)))
                bs = [tm.extract(w, 8*k, 8) for k in range(8)]
                for x in (bs[::-1] if am.native(fl) == 'big' else bs): b.add(('b', x))
                am.size(b, n, fl)
            else:
                am.elements(init, types, t, 'El', n, fl, b)
                if how not in ('range', 'mrange', 'irange'): am.size(b, n, fl)
            return b.seq()
        q = expected()
        if mode == 'nonempty':
            e = None
            if got.k == 'a' and got.a[0] == 'upd' and got.a[1] is s0: e = minlen(got.a[2], s.store)
            if how in ('range', 'mrange', 'irange'): continue
            if e is not None and e >= 1: res.ok(label)
            elif got is s0 or (e is not None and e < 1):
                res.add(label, 'violated', {'what': 'a call passes no byte to Hash::update', 'witness': repr(s.store)[:300]}, where)
            else: res.add(label, 'unknown', 'message not in normal form')
            continue
        want = upd(s0, q)
        v = verdict(got, want, s.store, s.facts)
        if v != 'eq' and eqv.BOOLS:
            am.mask = True
            if verdict(got, upd(s0, expected()), s.store, s.facts) == 'eq': v = 'eq'
            am.mask = False
        res.v(label, v, 'the message of %s (%s) is not the documented one: got %s, documented %s' % (t.cpp, how, tm.show(got, 6)[:300], tm.show(want, 6)[:300]), where)
    for a in am.I.alarms.values():
        if a.kind not in MEMORY: continue
        res.add(label+': '+a.kind, 'violated', {'what': a.msg, 'witness': a.store[:200]}, a.loc)
    am.I.alarms.clear()
