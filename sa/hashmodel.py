"""Symbolic drivers for the hash classes: objects built, fed and asked for results by the IR
interpreter, with symbolic message lengths and contents."""
from . import terms as tm
from .terms import T, const, sym, extract, atom, zext, trunc
from .aff import E, V, ZERO, Store, fresh
from .mem import *
from .interp import Interp, State, demangle, isctl
from .eqv import verdict, prep, canon, seqeq, Val, NoEval, allvars, refute
from .specs import SPECS, Ctx, refine, Infeasible
from .loops import termvars, seqE
from .template import Template, cv
from .check import Broken

MAXLEN = 1 << 60
DIGESTS = ['md5_128', 'sha1_160', 'sha2_224', 'sha2_256', 'sha2_384', 'sha2_512', 'sha2_512_224', 'sha2_512_256', 'ripemd_128', 'ripemd_160']
PLAIN = ['fnv1a_32', 'fnv1a_64', 'siphash_32', 'siphash_64', 'xxhash_32', 'xxhash_64'] + DIGESTS + ['murmur3_32', 'murmur3_128', 'spooky2_128']
LEGACY = ['murmur3_32', 'murmur3_128', 'spooky2_128']
HMACS = ['hmac_%s_t' % d for d in DIGESTS]
ALL = PLAIN + HMACS
INTRES = ['fnv1a_32', 'fnv1a_64', 'siphash_32', 'siphash_64', 'xxhash_32', 'xxhash_64', 'murmur3_32']

class HM:
    def __init__(self, mod, alg):
        self.mod = mod; self.alg = alg; self.I = Interp(mod); self.fix = {}; self.opts = {}
        # a buffer is addressable: on a 32-bit target it is taken to have less than 2^30 bytes
        self.maxbuf = MAXLEN if mod.ptrsize == 8 else (1 << 30)-4096
        st = State()
        self.size = self.I.run_fn(st, self.f('size'), [])[0][1].a
        self.rsize = self.I.run_fn(State(), self.f('rsize'), [])[0][1].a
        self.runs = 0
    def f(self, n):
        f = self.mod.fns.get('%s_%s' % (n, self.alg))
        if f is None: raise Broken('harness function %s_%s is missing' % (n, self.alg))
        return f
    def has(self, n): return ('%s_%s' % (n, self.alg)) in self.mod.fns
    def fn_loc(self, n):
        """the library function called by the harness entry n"""
        return '%s::%s' % (self.alg, n)
    def start(self, name='H'):
        st = State()
        rid = name+'.obj'
        r = Region(rid, E(self.size), ('u',), 'obj', name); r.owner = st.uid
        st.mem[rid] = r
        return st, Ptr(rid)
    def call(self, st, name, args):
        self.runs += 1
        return self.I.run_fn(st.clone(), self.f(name), args)
    def var(self, st, name, hi=None):
        v = V(name); hi = hi or self.maxbuf
        st.store = st.store.add_ge0(v).add_ge0(E(hi)-v)
        if name in self.fix: st.store = st.store.add_eq0(v-self.fix[name])
        return v
    # constructors: list of (state, ptr)
    def default(self):
        st, p = self.start()
        return [(s, p) for s, _ in self.call(st, 'ctor', [p])]
    def seeded(self, seed=None):
        st, p = self.start()
        return [(s, p) for s, _ in self.call(st, 'seed', [p, seed if seed is not None else sym(64, 'seed')])]
    def keyed(self, n=None, stream='Key', null=False, var='k'):
        st, p = self.start()
        if n is None: n = self.var(st, var)
        return [(s, p) for s, _ in self.call(st, 'key', [p, self.buf(st, stream, ZERO, n) if not null else NULL, self.num(n)])]
    def num(self, n): return iv(Ei(n), PTRBITS[0])
    def buf(self, st, stream, off, n):
        r = Region('in%d' % fresh_id(), Ei(n), ('s', stream, Ei(off)), 'input', stream)
        st.mem[r.id] = r
        return Ptr(r.id)
    def update(self, st, p, stream, off, n, which='update', null=False):
        st = st.clone()
        q = NULL if null else self.buf(st, stream, off, n)
        return [s for s, _ in self.call(st, which, [p, q, self.num(n)])]
    def result(self, st, p):
        """list of (state, list of result byte terms)"""
        st = st.clone()
        R = self.I.region(st, E(self.rsize), ('u',), 'res', 'R')
        out = []
        for s, _ in self.call(st, 'result', [p, R]):
            q = parts_to_seq(s.mem[R.r].read_parts(ZERO, E(self.rsize), s.store), s.store)
            s.mem.pop(R.r, None)
            b = seqbytes(q, self.rsize, s.store)
            # an integer result is reported by its value, least significant byte first
            if self.mod.big_endian and self.alg in INTRES: b = b[::-1]
            out.append((s, b))
        return out
    def image(self, st, p, off=0, n=None):
        return parts_to_seq(st.mem[p.r].read_parts(E(off), E(n if n is not None else self.size), st.store), st.store)
    def segs(self, st, p):
        R = st.mem[p.r].copy(None); R.to_segs(); R.segs = merge(R.segs, st.store)
        return R.segs
_fid = [0]
def fresh_id():
    _fid[0] += 1; return _fid[0]
def seqbytes(q, n, store):
    return q.bytes(n, store)

# ------------------------------------------------------------------ expected result by specification
def spec_final(spec, st, L, X0, total=None, tail=None, stream='Msg', base=ZERO, longmsg=None):
    """[(store, result bytes)] over the partition of st.store that the specification needs"""
    tot = total if total is not None else iv(L)
    tl = tail if tail is not None else L
    names = {}
    def fn(store):
        c = Ctx(store, st.facts, L, base, stream, names)
        c.total = tot; c.tail_len = tl
        c.longmsg = longmsg if longmsg else (lambda N: c.ge0((tl if isinstance(tl, E) else Ei(tl))-N))
        r = spec.final(c, X0)
        return (c.store, r)
    return refine(st.store, st.facts, fn)

def cmp_bytes(got, want, store, facts, seed=1):
    """'eq' / ('ne', w) / 'unk' for two byte lists"""
    if len(got) != len(want): return ('ne', {'left': '%d bytes' % len(got), 'right': '%d bytes' % len(want)})
    a, b = pack(got), pack(want)
    return verdict(a, b, store, facts, seed=seed)
def pack(bs):
    s = SeqB(None)
    for b in bs: s.add(('b', b))
    return s.seq()

class Res:
    """obligations of one property over one subject"""
    def __init__(self, subject): self.subject = subject; self.obl = []; self.notes = []; self.fns = set(); self.stats = {}
    def add(self, name, status, detail=None, where=None):
        self.obl.append((name, status, detail, where))
    def ok(self, name): self.add(name, 'proved')
    def v(self, name, verdict, detail, where):
        if verdict == 'eq': self.add(name, 'proved')
        elif verdict == 'unk': self.add(name, 'unknown', detail, where)
        else: self.add(name, 'violated', {'what': detail, 'witness': verdict[1]}, where)
    @property
    def violated(self): return any(o[1] == 'violated' for o in self.obl)
    @property
    def unknown(self): return any(o[1] == 'unknown' for o in self.obl)
def finish(res, hm):
    I = hm.I
    res.fns |= {demangle(f) for f in I.stats['functions']}
    for k in ('instructions', 'accesses', 'partitions'): res.stats[k] = res.stats.get(k, 0)+I.stats.get(k, 0)
    return res

# ------------------------------------------------------------------ relations between states
def fsub(facts, f):
    out = {}
    for a, v in facts.items():
        if isinstance(a, T): out[f(a)] = v
        elif isinstance(a, tuple): out[tuple(f(x) if isinstance(x, T) else x for x in a)] = v
        else: out[a] = v
    return out
def tighten(store, facts):
    """the store with the decided conditions over lengths added to it; None when they contradict it"""
    z = State(); z.store = store
    for _ in range(2):
        before = z.store
        for a, v in facts.items():
            if not isinstance(a, T) or not isinstance(v, bool): continue
            if a.k == 'c':
                if bool(a.a) != v: return None
                continue
            if a.k == 'a' and a.a[0] in ('eq', 'ult', 'slt'):
                if not (isctl(a.a[1]) and isctl(a.a[2])): continue
                z.facts = {}
                if not z.assume_atom(a, v): return None
                z.facts = {}
                if z.decide_atom(a) is (not v): return None
        if z.store is before: break
    return z.store
class Pair:
    """two states over common parameters; the second renamed apart"""
    def __init__(self, A, B, keep):
        from .statemodel import rename, conj_sub
        self.A = A; self.B = B
        self.sub = rename(B, keep)
        self.store = conj_sub(A.store, B.store, self.sub)
        if self.store is not None:
            self.facts = dict(A.facts)
            for a, v in fsub(B.facts, self.t).items():
                if a in self.facts and self.facts[a] != v or isinstance(a, T) and a.k == 'c' and bool(a.a) != bool(v): self.store = None; break
                self.facts[a] = v
        if self.store is not None: self.store = tighten(self.store, self.facts)
    @property
    def ok(self): return self.store is not None
    def t(self, x): return tm.subst(x, {}, {'vars': self.sub})
    def bytes(self, xs): return [self.t(x) for x in xs]
def pairs(As, Bs, keep):
    for a in As:
        for b in Bs:
            q = Pair(a, b, keep)
            if q.ok: yield q
def und(ct): return ct[0] == 'u' or ct[0] in 'wf' and isinstance(ct[1], T) and ct[1].k == 'a' and ct[1].a[0] == 'undef'
def image_cmp(hm, q, p, p2=None):
    """[(what, verdict)] over the whole object, for the pair q"""
    out = []
    p2 = p2 or p
    cuts = {0, hm.size}
    for st, pp in ((q.A, p), (q.B, p2)):
        for s, e, ct, _ in hm.segs(st, pp):
            for x in (s, e):
                if x.const is not None: cuts.add(x.const)
    cuts = sorted(cuts)
    for a, b in zip(cuts, cuts[1:]):
        A = q.A.mem[p.r].read_parts(E(a), E(b-a), q.store)
        B0 = q.B.mem[p2.r].copy(None); B0.to_segs()
        B = [(s, e, ct) for s, e, ct in B0.read_parts(E(a), E(b-a), q.B.store)]
        if all(und(x[2]) for x in A) and all(und(x[2]) for x in B): continue
        if any(und(x[2]) for x in A) or any(und(x[2]) for x in B):
            out.append(('bytes [%d,%d)' % (a, b), ('ne', {'what': 'one side is uninitialised'}))); continue
        qa = parts_to_seq(A, q.store); qb = parts_to_seq(B, q.B.store).subst(q.t, {'vars': q.sub})
        out.append(('bytes [%d,%d)' % (a, b), verdict(qa, qb, q.store, q.facts)))
    return out
def observe(hm, st, p, stream='Obs', var='m', again=True):
    """[(state, first result, second result)] after a further message of any length"""
    st = st.clone()
    m = hm.var(st, var)
    out = []
    for s in hm.update(st, p, stream, ZERO, m):
        for s2, r in hm.result(s, p):
            if not again: out.append((s2, r, None)); continue
            for s3, r2 in hm.result(s2, p): out.append((s3, r, r2))
    return out
def equivalent(hm, res, As, Bs, p, p2, keep, label, what, where):
    """As and Bs (lists of states over the same parameters) are equivalent objects"""
    n = 0
    for q in pairs(As, Bs, keep):
        n += 1
        bad = False
        for part in refine(q.store, q.facts, lambda s: (s, img(hm, q, s, p, p2))):
            for w, v in part[1]:
                if v != 'eq': bad = True
            if not bad: res.ok('%s: same object image (%s)' % (label, case(part[0], sorted(keep))))
        if bad:
            # not literally equal: compare what can be observed
            o1 = observe(hm, q.A, p); o2 = observe(hm, q.B, p2)
            for i, (s1, a1, a2) in enumerate(o1):
                for s2, b1, b2 in o2:
                    z = Pair(s1, s2, keep | {'m'})
                    if not z.ok: continue
                    v = cmp_bytes(a1, z.bytes(b1), z.store, z.facts)
                    res.v('%s: first result after any further message (%s)' % (label, case(z.store, sorted(keep | {'m'}))), v, what, where)
                    v = cmp_bytes(a2, z.bytes(b2), z.store, z.facts)
                    res.v('%s: second result (%s)' % (label, case(z.store, sorted(keep | {'m'}))), v, what, where)
    return n
def img(hm, q, s, p, p2):
    z = Pair.__new__(Pair); z.A = q.A.clone(); z.B = q.B; z.sub = q.sub; z.store = s; z.facts = q.facts
    z.A.store = s
    return image_cmp(hm, z, p, p2)
def case(store, names):
    out = []
    for n in names:
        lo, hi = store.lower(V(n)), store.upper(V(n))
        if lo is None and hi is None: continue
        out.append('%s in [%s,%s]' % (n, lo, hi if hi is not None and hi < MAXLEN//2 else 'inf'))
    return ' '.join(out) or 'always'
