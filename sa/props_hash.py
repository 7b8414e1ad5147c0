from .hashmodel import *
from .specs import bytes_le, bytes_be
from .terms import lshr
from .mem import sb, Region
from . import eqv

def h01(hm, res):
    """published value for every message"""
    spec = SPECS[hm.alg]; X0 = spec.init()
    for st, p in hm.default():
        n = hm.var(st, 'n')
        for s in hm.update(st, p, 'Msg', ZERO, n):
            for s2, got in hm.result(s, p):
                for store, want in spec_final(spec, s2, n, X0):
                    v = cmp_bytes(got, want, store, s2.facts)
                    res.v('result for %s' % case(store, ['n']), v, 'result() differs from the published definition', 'result')

from .statemodel import *

def h02(hm, res):
    """split insensitivity, as closure of the generalised states under update"""
    proved = False
    try: proved = h02_closure(hm, res)
    except Unknown as e: res.notes.append('closure: %s' % e)
    if not proved: h02_observe(hm, res)
def h02_closure(hm, res):
    m = Model(hm)
    g, p = m.general()
    L = hm.var(g, 'L1')
    S = hm.update(g, p, 'Msg', ZERO, L)
    Sw = [m.widen(s, L) for s in S]
    obl = []; good = True
    # the default state is an instance of the general one
    d0, _ = m.general()
    at0 = {'K': ZERO}; at0.update({v: ZERO for kv in m.kvars for v in kv.vars()})
    for off, w in m.count:
        ok = verdict(m.cell(m.D, off, w), tm.subst(m.cell(d0, off, w), {}, {'vars': at0}), Store(), {}) == 'eq'
        obl.append(('default state, counter at offset %d' % off, ok)); good &= ok
    # nothing that is observable depends on stale buffer contents
    for i, s in enumerate(Sw):
        for o, got in hm.result(s, p):
            ok = not any(stale(x) for x in got) and not any(stale(m.cell(o, off, w)) for off, w in m.chain+m.count)
            obl.append(('result() after state %d ignores stale buffer bytes' % i, ok)); good &= ok
        ok = not any(stale(m.cell(s, off, w)) for off, w in m.chain+m.count)
        obl.append(('state %d ignores stale buffer bytes' % i, ok)); good &= ok
    hmL2 = 'L2'
    if not good: res.notes.append('closure not established'); return False
    for i, s in enumerate(Sw):
        if sum(not ok for _, ok in obl) > 2: break
        L2 = hm.var(s, hmL2)
        for which in ('update', 'updatev') if hm.has('updatev') else ('update',):
            for o in hm.update(s, p, 'Msg', L, L2, which):
                ok = not any(stale(m.cell(o, off, w)) for off, w in m.chain+m.count)
                obl.append(('state %d then %s ignores stale buffer bytes' % (i, which), ok)); good &= ok
                matched = False
                for k, t in enumerate(Sw):
                    keep = {'K'} | {v for kv in m.kvars for v in kv.vars()}
                    sub = rename(t, keep | {'L1'}); sub['L1'] = L+L2
                    store = conj_sub(o.store, t.store, sub)
                    if store is None: continue
                    matched = True
                    for what, v in [x for part in refine(store, o.facts, lambda s_: m.compare(o, t, s_, o.facts, sub)) for x in part]:
                        ok = v == 'eq'
                        obl.append(('state %d then %s, against state %d: %s' % (i, which, k, what), ok))
                        good &= ok
    if good:
        for n, ok in obl: res.ok(n)
    else:
        bad = [n for n, ok in obl if not ok]
        res.notes.append('closure not established: %s' % '; '.join(bad[:4]))
    return good
def stale(t): return 'Stale' in tm.support(t)
def h02_observe(hm, res):
    """closure not established: one update of a message against two updates, from the default state; decides only this much"""
    st, p = hm.default()[0]
    L1 = hm.var(st, 'L1'); L2 = hm.var(st, 'L2')
    whole = {}
    kinds = ('update', 'updatev') if hm.has('updatev') else ('update',)
    n0 = sum(o[1] == 'violated' for o in res.obl)
    for k in kinds:
        whole[k] = []
        for s in hm.update(st, p, 'Msg', ZERO, L1+L2, k): whole[k] += hm.result(s, p)
    def against(rs, label, fn, what):
        for s2, got in rs:
            for t, want in whole['update']:
                z = Pair(s2, t, {'L1', 'L2'})
                if not z.ok: continue
                res.v('%s, %s' % (label, case(z.store, ['L1', 'L2'])), cmp_bytes(got, z.bytes(want), z.store, z.facts), what, fn)
    if len(kinds) > 1: against(whole['updatev'], 'whole message, void const* overload', 'update', 'result() after update( void const* ) differs from update( unsigned char const* ) of the same message')
    if sum(o[1] == 'violated' for o in res.obl) == n0:
        for s in hm.update(st, p, 'Msg', ZERO, L1):
            for s1 in hm.update(s, p, 'Msg', L1, L2):
                against(hm.result(s1, p), 'two pieces', 'update', 'result() after update(L1), update(L2) differs from one update of the whole message')
    if sum(o[1] == 'violated' for o in res.obl) == n0: res.add('every number of pieces, from every state', 'unknown', 'closure of the generalised states not established')

# ------------------------------------------------------------------ seeding
SEEDED_ONLY = {'fnv1a_32', 'fnv1a_64'}        # byte-wise absorption without result()
def family(alg):
    if alg.startswith('hmac_'): return 'hmac'
    return alg.split('_')[0]
def concl(hm, sts, p, stream, off, n, fin):
    out = []
    for s in sts:
        for s1 in hm.update(s, p, stream, off, n):
            if fin: out += [s2 for s2, _ in hm.result(s1, p)]
            else: out.append(s1)
    return out
def bufword(hm, st, words):
    """input buffer holding the given words"""
    n = sum(w.w//8 for w in words)
    r = Region('in%d' % fresh_id(), E(n), ('u',), 'input', 'seedbytes'); st.mem[r.id] = r
    o = 0
    for w in words:
        for j in range(w.w//8): r.bm[o+j] = (w, j)
        o += w.w//8
    return Ptr(r.id), n
def h03(hm, res):
    alg = hm.alg; fam = family(alg)
    seed = sym(64, 'seed')
    D = hm.default(); D, p = D[0]
    # zero
    zs = [s for s, _ in hm.seeded(const(64, 0))]
    equivalent(hm, res, zs, [D], p, p, {'k'}, 'seed 0', 'an object seeded with 0 differs from a default-constructed one', 'constructor from integer')
    # nonzero
    S = hm.seeded(seed)
    S = [s for s, _ in S]
    nz = [s for s in S]
    if fam in ('fnv1a', 'md5', 'sha1', 'sha2', 'ripemd', 'hmac'):
        st, p = D.clone(), p
        if fam == 'hmac':
            st0, p0 = hm.start()
            kp, n = bufword(hm, st0, [seed])
            ref = [s for s, _ in hm.call(st0, 'key', [p0, kp, hm.num(E(8))])]
        else:
            kp, n = bufword(hm, st, [seed])
            ref = [s for s, _ in hm.call(st, 'update', [p, kp, hm.num(E(8))])]
            if fam != 'fnv1a': ref = [s2 for s in ref for s2, _ in hm.result(s, p)]
        for s in nz:
            f = s.facts.get(tm.atom(1, 'eq', seed, const(64, 0)))
            if isz(s, seed):
                equivalent(hm, res, [s], [D], p, p, {'k'}, 'seed 0 (symbolic)', 'an object seeded with 0 differs from a default-constructed one', 'constructor from integer')
            else:
                s = s.clone(); s.assume_atom(tm.atom(1, 'eq', seed, const(64, 0)), False)
                equivalent(hm, res, [s], ref, p, p, {'k'}, 'nonzero seed', 'the seeded state differs from the documented one', 'constructor from integer')
    else:
        spec = SPECS[alg]
        lo, hi = tm.trunc(seed, 32), tm.trunc(lshr(seed, 32), 32)
        for s in (cases(nz, hi) if alg in ('xxhash_32', 'murmur3_32') else nz):
            if fam == 'siphash': X0 = spec.init(seed, 0) if alg == 'siphash_64' else spec.init(lo, hi)
            elif alg == 'xxhash_64': X0 = spec.init(seed)
            elif alg == 'xxhash_32':
                X0 = spec.init(lo)
                if not iszero(s, hi): X0 = [spec.round(x, hi) for x in X0]
            elif alg == 'murmur3_32':
                X0 = spec.init(lo)
                if not iszero(s, hi): X0 = spec.block(X0, bytes_le(hi))
            elif alg == 'murmur3_128': X0 = spec.init(seed, seed)
            elif alg == 'spooky2_128': X0 = spec.init(seed, const(64, 0))
            else: raise Unknown('no seeding rule for '+alg)
            against_spec(hm, res, s, p, spec, X0, 'any seed', 'the seeded object does not start from the documented state', 'constructor from integer')
    if hm.has('seed2'):
        spec = SPECS[alg]
        st0, p0 = hm.start(); a, b = sym(64, 'seed1'), sym(64, 'seed2')
        for s, _ in hm.call(st0, 'seed2', [p0, a, b]):
            against_spec(hm, res, s, p0, spec, spec.init(a, b), 'any pair of seeds', 'the seeded object does not start from the documented state', 'constructor from two integers')
def isz(s, t):
    return s.facts.get(tm.atom(1, 'eq', t, const(t.w, 0))) is True or any(isinstance(a, T) and a.k == 'a' and a.a[0] == 'eq' and a.a[1] is t and a.a[2].k == 'c' and a.a[2].a == 0 and v for a, v in s.facts.items())
def cases(sts, t):
    """the states split by t == 0"""
    out = []
    for s in sts:
        a = tm.atom(1, 'eq', t, const(t.w, 0))
        r, _ = s.evalbool(a)
        if r is not None: out.append(s); continue
        for b in (True, False):
            z = s.clone()
            if z.assume_atom(a, b): out.append(z)
    return out
def iszero(s, t):
    r, _ = s.evalbool(tm.atom(1, 'eq', t, const(t.w, 0)))
    if r is None:
        # no branch on it: both cases have to agree
        return False
    return r
def against_spec(hm, res, s, p, spec, X0, label, what, where, stream='Obs', var='m', keep=()):
    s = s.clone()
    m = hm.var(s, var)
    for s1 in hm.update(s, p, stream, ZERO, m):
        for s2, got in hm.result(s1, p):
            for store, want in spec_final(spec, s2, m, X0, stream=stream):
                v = cmp_bytes(got, want, store, s2.facts)
                res.v('%s, further message of %s' % (label, case(store, [var]+list(keep))), v, what, where)

def h04(hm, res):
    alg = hm.alg; fam = family(alg)
    D, p = hm.default()[0]
    wh = 'constructor from byte sequence'
    # empty key, null and non-null
    for null in (True, False):
        Z = [s for s, _ in hm.keyed(n=ZERO, null=null)]
        equivalent(hm, res, Z, [D], p, p, set(), 'empty key (%s pointer)' % ('null' if null else 'valid'), 'an empty key differs from default construction', wh)
    if fam == 'hmac': return          # nonempty keys: H12
    st, p0 = hm.start(); k = hm.var(st, 'k')
    st.store = st.store.add_ge0(k-1)
    if st.store is None: return
    K = [s for s, _ in hm.call(st, 'key', [p0, hm.buf(st, 'Key', ZERO, k), hm.num(k)])]
    spec = SPECS[alg]
    keep = {'k'}
    kb = lambda a, n: le_word([sb('Key', E(a+i)) for i in range(n)])
    for s in K:
        lo, hi = s.store.lower(k), s.store.upper(k)
        special = None
        parts = [(s, 'rest')]
        # split off the key lengths with rules of their own
        cutsat = {'siphash_64': [16, 17], 'siphash_32': [8, 9], 'murmur3_32': [5], 'murmur3_128': [9, 17], 'spooky2_128': [17]}.get(alg, [])
        for c in cutsat:
            new = []
            for s_, _ in parts:
                for e in (E(c-1)-k, k-c):
                    st2 = s_.store.add_ge0(e)
                    if st2 is not None: st2 = tighten(st2, s_.facts)
                    if st2 is not None:
                        t = s_.clone(); t.store = st2; new.append((t, None))
            parts = new
        for s_, _ in parts:
            lo, hi = s_.store.lower(k), s_.store.upper(k)
            if (alg, lo, hi) in (('siphash_64', 16, 16), ('siphash_32', 8, 8)):
                n = lo//2
                against_spec(hm, res, s_, p0, spec, spec.init(kb(0, n), kb(n, n)), 'key of %d bytes' % lo, 'the key words are not loaded as published', wh)
                continue
            if alg in LEGACY and hi is not None and hi <= 16:
                for kk in range(lo, hi+1):
                    st2 = s_.store.add_eq0(k-kk)
                    if st2 is not None: st2 = tighten(st2, s_.facts)
                    if st2 is None: continue
                    t = s_.clone(); t.store = st2
                    z = lambda n: [sb('Key', E(i)) if i < kk else const(8, 0) for i in range(n)]
                    # the integer seeds these are documented to stand for are decided by H03
                    a_, pa = hm.start(); a_.store = t.store
                    if alg == 'murmur3_32': base = hm.call(a_, 'seed', [pa, tm.zext(le_word(z(4)), 64)])
                    else: base = hm.call(a_, 'seed2', [pa, le_word(z(8)), le_word(z(8)) if alg == 'murmur3_128' and kk <= 8 else le_word(z(16)[8:])])
                    equivalent(hm, res, [t], [x for x, _ in base], p0, pa, keep, 'key of %d bytes' % kk, 'the key words are not loaded as documented', wh)
                continue
            # everything else: update and result (fnv1a: update only)
            if alg in LEGACY:
                if alg == 'murmur3_32': base = [x for x, _ in hm.seeded(tm.zext(kb(0, 4), 64))]; o = 4
                else:
                    a_, pa = hm.start()
                    base = [x for x, _ in hm.call(a_, 'seed2', [pa, kb(0, 8), kb(8, 8)])]; o = 16
            else: base = [D]; o = 0
            ref = []
            for b in base:
                b = b.clone()
                for e in ([k-1, E(hm.maxbuf)-k, k-lo] + ([E(hi)-k] if hi is not None else [])):
                    b.store = b.store.add_ge0(e)
                if 'k' in hm.fix: b.store = b.store.add_eq0(k-hm.fix['k'])
                ref += concl(hm, [b], p, 'Key', E(o), k-o, fam != 'fnv1a')
            equivalent(hm, res, [s_], ref, p0, p, keep, 'key of %s' % case(s_.store, ['k']), 'the state after keyed construction is not the documented function of the key', wh)
def le_word(bs): return tm.concat_le(bs)

# ------------------------------------------------------------------ after result()
def chain_order(m, spec):
    """positions of the specification's chaining words among the members, by their initial values"""
    init = spec.init()
    vals = [m.cell(m.D, off, w) for off, w in m.chain]
    if len(init) != len(vals): return None
    used = set(); out = []
    for i, x in enumerate(init):
        c = [j for j, v in enumerate(vals) if v is x and j not in used]
        if not c: return None
        j = i if i in c else c[0]
        used.add(j); out.append(j)
    return out
def tail_steps(m, g, p, L, hm):
    for s in hm.update(g, p, 'Msg', ZERO, L):
        for P, got in hm.result(s, p): yield s, P, got
def divisible(e, N): return e.c % N == 0 and all(q % N == 0 for _, q in e.d)
def in_general(hm, m, P):
    """[(what, verdict)]: P is an instance of the general state"""
    out = []
    k = V('K'); Kv = None
    for c in m.count:
        off, w = c
        e = m.boundary(c, k)
        v = m.cell(P, off, w)
        name = 'counter at offset %d' % off
        if e is not None and e.const is not None:
            out.append((name, verdict(v, iv(e, w), P.store, P.facts))); continue
        z = P.clone(); x = z.view(v)
        if x is None:
            # wraps around: whole blocks modulo the width of the counter
            ok = 'unk'
            if m.N & (m.N-1) == 0: ok = verdict(tm.and_(v, const(w, m.N-1)), const(w, (e.c if e is not None else 0) % m.N), P.store, P.facts)
            out.append((name, ok if ok == 'eq' else 'unk')); continue
        x = z.store.norm(x)
        if e is not None: x = x-e.c
        if divisible(x, m.N): ok = 'eq'
        elif m.N & (m.N-1) == 0 and verdict(tm.and_(v, const(w, m.N-1)), const(w, (e.c if e is not None else 0) % m.N), P.store, P.facts) == 'eq':
            out.append((name, 'eq')); continue
        else: ok = 'unk'
        if ok == 'eq' and e is not None:
            if Kv is None: Kv = x
            elif not z.store.eq0(Kv-x): ok = 'unk'
        if ok == 'unk' and e is not None:
            # not a whole number of blocks for some input?
            pt = eqv.intpoint(z.store, P.facts, x, seed=3)
            if pt is not None: ok = 'unk'
        out.append((name, ok))
    for (off, w), v in m.const:
        out.append(('member at offset %d' % off, verdict(m.cell(P, off, w), v, P.store, P.facts)))
    for off, w in m.chain:
        bad = any(x in ('undef', 'addr') for x in tm.support(m.cell(P, off, w)))
        out.append(('chaining word at offset %d' % off, 'unk' if bad else 'eq'))
    return out
def h05(hm, res):
    alg = hm.alg; fam = family(alg); wh = 'result'
    if fam == 'hmac': return h05_hmac(hm, res)
    spec = SPECS[alg]
    m = Model(hm)
    g, p = m.general(stale=True)
    order = chain_order(m, spec)
    if 'L1' in hm.fix: g.store = g.store.add_eq0(V('K')-2)
    L = hm.var(g, 'L1')
    md = hasattr(spec, 'padded')
    todo = []
    for s, P, got in tail_steps(m, g, p, L, hm):
        lab = case(P.store, ['K', 'L1'])
        # a valid state again
        inst = in_general(hm, m, P)
        if all(v == 'eq' for _, v in inst): res.ok('state after result() is a block boundary state (%s)' % lab)
        else: todo.append((P, [n for n, v in inst if v != 'eq'], lab))
        # the next results are others
        X0 = [sym(w, ('chain', order[i])) for i, (off, w) in enumerate(m.chain)] if order else None
        for P2, got2 in hm.result(P, p):
            v = cmp_bytes(got2, got, P2.store, P2.facts)
            nm = 'result() again gives another value (%s)' % case(P2.store, ['K', 'L1'])
            if v == 'eq': res.add(nm, 'violated', {'what': 'a second result() repeats the first', 'witness': lab}, wh)
            elif v == 'unk': res.add(nm, 'unknown', None, wh)
            else: res.ok(nm)
            if fam == 'fnv1a':
                Xe = spec.absorb(X0, Ctx(P2.store, P2.facts, L).msg(ZERO, L))
                v = cmp_bytes(got2, bytes_le(spec.advance(Xe)[0]), P2.store, P2.facts)
                res.v('second result (%s)' % lab, v, 'the state after result() is not as if another byte FF had been hashed', wh)
            elif not md:
                P3s = hm.result(P2, p)
                for P3, got3 in P3s:
                    for a, b, w in ((got3, got, 'first'), (got3, got2, 'second')):
                        v = cmp_bytes(a, b, P3.store, P3.facts)
                        if v == 'eq': res.add('third result', 'violated', {'what': 'the third result repeats the %s' % w, 'witness': lab}, wh)
                        elif v == 'unk': res.add('third result differs from the %s (%s)' % (w, lab), 'unknown', None, wh)
                        else: res.ok('third result differs from the %s (%s)' % (w, lab))
        if md:
            if X0 is None: raise Unknown('initial chaining words not found')
            P = P.clone(); L2 = hm.var(P, 'L2')
            for s2 in hm.update(P, p, 'Msg2', ZERO, L2):
                for P2, got2 in hm.result(s2, p):
                    for store, want in md_extended(spec, P2, X0, m.C, L, L2):
                        v = cmp_bytes(got2, want, store, P2.facts)
                        res.v('result of a message continued after result() (%s)' % case(store, ['L1', 'L2']), v, 'padding and length of the first result are not part of the continued message', wh)
    for P, bad, lab in todo[:6]:
        # not such a state: split sensitivity decides
        P = P.clone(); a, b = hm.var(P, 'L2'), hm.var(P, 'L3')
        one = [x for s in hm.update(P, p, 'Msg2', ZERO, a+b) for x in hm.result(s, p)]
        worst = 'eq'
        for s in hm.update(P, p, 'Msg2', ZERO, a):
            for s1 in hm.update(s, p, 'Msg2', a, b):
                for s2, gotb in hm.result(s1, p):
                    for t, want in one:
                        q = Pair(s2, t, {'L1', 'L2', 'L3', 'K'} | {v for kv in m.kvars for v in kv.vars()})
                        if not q.ok: continue
                        v = cmp_bytes(gotb, q.bytes(want), q.store, q.facts)
                        if v not in ('eq', 'unk'):
                            res.v('state after result() (%s), split update' % lab, v, 'after result(), update() is sensitive to the split', wh); worst = v
                        elif v == 'unk' and worst == 'eq': worst = v
        if worst == 'unk' or worst == 'eq': res.add('state after result() is a block boundary state (%s): %s' % (lab, ', '.join(bad)), 'proved' if worst == 'eq' and md else 'unknown', None, wh)
def md_extended(spec, st, X0, C, L1, L2, n1=None, n2=None):
    n1 = {}; n2 = {}
    def fn(store):
        c1 = Ctx(store, st.facts, L1, ZERO, 'Msg', n1); c1.total = iv(C+L1); c1.tail_len = L1
        q = spec.padded(c1)
        X1 = spec.absorb(X0, q)
        c2 = Ctx(c1.store, st.facts, L2, ZERO, 'Msg2', n2)
        c2.total = iv(C+q.length()+L2); c2.tail_len = L2
        r = spec.final(c2, X1)
        return c2.store, r
    return refine(st.store, st.facts, fn)

# ------------------------------------------------------------------ HMAC
def hmac_split(hm, spec, D, p):
    """member offset -> ('i'|'o', word) for the default-constructed object, None if not recognised"""
    init = spec.init(); out = {}
    for tag, b in (('i', 0x36), ('o', 0x5c)):
        X = spec.absorb(init, pack([const(8, b)]*spec.N))
        if hm.I.big(): words = [(o, cell_at(D, p, o, w, True)) for o, w in sorted(hm.I.objcells)]
        else: words = [(s.const, ct[1]) for s, e, ct, _ in hm.segs(D, p) if ct[0] == 'w' and ct[2] == 0 and isinstance(ct[1], T) and s.const is not None]
        for o, v in words:
            for j, x in enumerate(X):
                if (v is x or same_fold(v, x, D.store)) and (o, x.w) not in out: out[(o, x.w)] = (tag, j)
    n = len(init)
    if sorted(v for v in out.values()) != sorted([(t, j) for t in 'io' for j in range(n)]): return None
    return out
def same_fold(a, b, store):
    return a.w == b.w and a.k == 'a' and a.a[0] == 'cv' and a.a[1] is b.a[1] and a.a[2] == b.a[2] and a.a[3] == b.a[3] and eqv.seqeq(a.a[4], b.a[4], store)
def cell_at(st, p, off, w, big=False): return concat_le(parts_to_seq(st.mem[p.r].read_parts(E(off), E(w//8), st.store), st.store).bytes(w//8, st.store)[::-1 if big else 1])
def put_at(st, p, off, v, big=False):
    R = st.wregion(p.r)
    if big:
        bs = [tm.extract(v, 8*j, 8) for j in range(v.w//8)][::-1]
        if R.segs is None:
            for j, x in enumerate(bs): R.bm[off+j] = (x, 0)
        else: R.put(E(off), E(off+len(bs)), [(E(j), E(j+1), ('w', x, 0)) for j, x in enumerate(bs)], None, st.store)
    elif R.segs is None:
        for j in range(v.w//8): R.bm[off+j] = (v, j)
    else: R.put(E(off), E(off+v.w//8), [(ZERO, E(v.w//8), ('w', v, 0))], None, st.store)
def hmac_value(spec, store, facts, Xi, Xo, L, names, stream='Msg', base=ZERO):
    """(store, bytes of HMAC) with the given inner and outer chaining words"""
    c = Ctx(store, facts, L, base, stream, names[0]); c.total = iv(L+spec.N); c.tail_len = L
    r = spec.final(c, Xi)
    return c.store, outer_value(spec, c.store, facts, Xo, r, E(spec.N), names)[1]
def outer_value(spec, store, facts, Xo, r, prior, names):
    b = SeqB(store)
    for x in r: b.add(('b', x))
    q, tot = md_pad(spec, b, len(r), prior)
    X = spec.absorb(Xo, q.seq())
    out = []
    for x in X: out += bytes_be(x) if spec.bigend else bytes_le(x)
    return X, out[:spec.out], tot
def md_pad(spec, b, n, prior):
    z = -(n+1+spec.lenbytes) % spec.N
    bits = tm.shl(iv(prior+n), 3)
    b.add(('b', const(8, 0x80)))
    if z or spec.bigend and spec.lenbytes > 8: b.add(('f', const(8, 0), E(z+(spec.lenbytes-8 if spec.bigend else 0))))
    for x in (bytes_be(bits) if spec.bigend else bytes_le(bits)): b.add(('b', x))
    if not spec.bigend and spec.lenbytes > 8: b.add(('f', const(8, 0), E(spec.lenbytes-8)))
    return b, prior+n+1+spec.lenbytes+z
def keywords(spec, kb):
    """inner and outer chaining words for the zero-padded key block kb"""
    init = spec.init()
    f = lambda v: tuple(spec.absorb(init, pack([tm.xor(b, const(8, v)) for b in kb])))
    return f(0x36), f(0x5c)
def h12(hm, res):
    inner = hm.alg[5:-2]; spec = SPECS[inner]; N = spec.N
    D, p = hm.default()[0]
    wh = 'hmac'
    cells = hmac_split(hm, spec, D, p)
    def direct(sts, p0, Xf, label):
        for s in sts:
            s = s.clone(); L = hm.var(s, 'n')
            for s1 in hm.update(s, p0, 'Msg', ZERO, L):
                for s2, got in hm.result(s1, p0):
                    names = ({}, {})
                    def fn(store):
                        st0, Xi, Xo = Xf(store)
                        return hmac_value(spec, st0, s2.facts, Xi, Xo, L, names)
                    for store, want in refine(s2.store, s2.facts, fn):
                        res.v('%s (%s)' % (label, case(store, ['k', 'n'])), cmp_bytes(got, want, store, s2.facts), 'the result differs from RFC 2104', wh)
    zero = keywords(spec, [const(8, 0)]*N)
    if cells is None:
        res.notes.append('chaining words of the default object not recognised: whole results compared')
        direct([D], p, lambda st: (st,)+zero, 'empty key')
    else:
        # any inner and outer chaining words
        G = D.clone()
        X = {'i': [None]*len(spec.widths), 'o': [None]*len(spec.widths)}
        for (off, w), (t, j) in cells.items():
            X[t][j] = sym(w, ('chain', t, j)); put_at(G, p, off, X[t][j], hm.I.big())
        direct([G], p, lambda st: (st, X['i'], X['o']), 'any key schedule')
    def keyed(st, p0, label, kf, Kst):
        """kf(store) -> [(store, zero-padded key block)]"""
        for s in Kst:
            for store, kb in refine(s.store, s.facts, kf(s)):
                Xi, Xo = keywords(spec, kb)
                s2 = s.clone(); s2.store = store
                vs = []
                if cells is not None:
                    q = Pair(s2, D, {'k'})
                    R = s2.wregion(p0.r)
                    for (off, w), (t, j) in cells.items():
                        vs.append(verdict(cell_at(s2, p0, off, w, hm.I.big()), (Xi if t == 'i' else Xo)[j], store, s2.facts))
                    A = s2.clone()
                    for (off, w), (t, j) in cells.items(): put_at(A, p0, off, cell_at(D, p, off, w, hm.I.big()), hm.I.big())
                    q = Pair(A, D, {'k'})
                    if q.ok: vs += [v for _, v in image_cmp(hm, q, p0, p)]
                if cells is not None and all(v == 'eq' for v in vs): res.ok('%s: key schedule (%s)' % (label, case(store, ['k'])))
                else: direct([s2], p0, lambda st: (st, Xi, Xo), label)
    # keys of at most one block
    ks = range(1, N+1) if 'k' not in hm.fix else ([hm.fix['k']] if 1 <= hm.fix['k'] <= N else [])
    for n in ks:
        st, p0 = hm.start()
        K = [s for s, _ in hm.call(st, 'key', [p0, hm.buf(st, 'Key', ZERO, E(n)), hm.num(E(n))])]
        kb = [sb('Key', E(i)) for i in range(n)]+[const(8, 0)]*(N-n)
        keyed(st, p0, 'key of %d bytes' % n, lambda s: (lambda store: (store, kb)), K)
    if 'k' in hm.fix and hm.fix['k'] <= N: return
    st, p0 = hm.start(); k = hm.var(st, 'k'); st.store = st.store.add_ge0(k-(N+1))
    if st.store is None: return
    K = [s for s, _ in hm.call(st, 'key', [p0, hm.buf(st, 'Key', ZERO, k), hm.num(k)])]
    names = {}
    def kf(s):
        def fn(store):
            c = Ctx(store, s.facts, k, ZERO, 'Key', names); c.total = iv(k); c.tail_len = k
            r = spec.final(c, spec.init())
            return c.store, (r+[const(8, 0)]*N)[:N]
        return fn
    keyed(st, p0, 'key longer than a block', kf, K)
def hmac_general(hm, spec, D, p):
    cells = hmac_split(hm, spec, D, p)
    if cells is None:
        zero = keywords(spec, [const(8, 0)]*spec.N)
        return D, zero[0], zero[1]
    G = D.clone(); X = {'i': [None]*len(spec.widths), 'o': [None]*len(spec.widths)}
    for (off, w), (t, j) in cells.items():
        X[t][j] = sym(w, ('chain', t, j)); put_at(G, p, off, X[t][j], hm.I.big())
    return G, X['i'], X['o']
def h05_hmac(hm, res):
    inner = hm.alg[5:-2]; spec = SPECS[inner]; N = spec.N; wh = 'hmac::result'
    D, p = hm.default()[0]
    G, Xi, Xo = hmac_general(hm, spec, D, p)
    L = hm.var(G, 'L1')
    for s in hm.update(G, p, 'Msg', ZERO, L):
        for P, got in hm.result(s, p):
            for P2, got2 in hm.result(P, p):
                v = cmp_bytes(got2, got, P2.store, P2.facts)
                nm = 'result() again gives another value (%s)' % case(P2.store, ['L1'])
                if v == 'eq': res.add(nm, 'violated', {'what': 'a second result() repeats the first', 'witness': case(P2.store, ['L1'])}, wh)
                else: res.add(nm, 'unknown' if v == 'unk' else 'proved', None, wh)
            P = P.clone(); L2 = hm.var(P, 'L2')
            for s2 in hm.update(P, p, 'Msg2', ZERO, L2):
                for P2, got2 in hm.result(s2, p):
                    n1, n2 = {}, {}
                    def fn(store):
                        c1 = Ctx(store, P2.facts, L, ZERO, 'Msg', n1); c1.total = iv(L+N); c1.tail_len = L
                        q = spec.padded(c1); X1 = spec.absorb(Xi, q)
                        r1 = []
                        for x in X1: r1 += bytes_be(x) if spec.bigend else bytes_le(x)
                        X1o, _, tot = outer_value(spec, c1.store, P2.facts, Xo, r1[:spec.out], E(N), None)
                        c2 = Ctx(c1.store, P2.facts, L2, ZERO, 'Msg2', n2)
                        c2.total = iv(q.length()+N+L2); c2.tail_len = L2
                        r = spec.final(c2, X1)
                        return c2.store, outer_value(spec, c2.store, P2.facts, X1o, r, tot, None)[1]
                    for store, want in refine(P2.store, P2.facts, fn):
                        v = cmp_bytes(got2, want, store, P2.facts)
                        res.v('result of a message continued after result() (%s)' % case(store, ['L1', 'L2']), v, 'the inner and outer hash are not both continued after result()', wh)

# ------------------------------------------------------------------ plaintext left behind
def verbatim(b, streams):
    """stream name when the byte is a message byte, possibly combined with a constant mask"""
    if b.k == 'a' and b.a[0] == 'sb' and b.a[1] in streams: return b.a[1], b.a[2]
    if b.k == 'b':
        mono = [(m, mask) for m, mask in b.a if m != ()]
        if len(mono) == 1 and len(mono[0][0]) == 1:
            x, off = mono[0][0][0]
            if off == 0 and mono[0][1] == 255 and x.w == 8: return verbatim(x, streams)
    return None
def leftovers(hm, st, p, streams):
    """[(offset, what)] of object bytes that are message bytes on some input"""
    out = []
    for s, e, ct, loc in hm.segs(st, p):
        if ct[0] == 's' and ct[1] in streams:
            if st.store.add_ge0(e-s-1) is None: continue
            pt = eqv.intpoint(st.store.add_ge0(e-s-1), st.facts, seed=5)
            out.append((str(s), ct[1], pt)); continue
        if ct[0] == 'w' and isinstance(ct[1], T):
            n = st.store.constval(e-s)
            for j in range(min(n or 0, 64)):
                b = tm.extract(ct[1], 8*(ct[2]+j), 8)
                v = verbatim(b, streams)
                if v: out.append(('%s+%d' % (s, j), v[0], eqv.intpoint(st.store, st.facts, seed=5)))
        if ct[0] == 'f' and isinstance(ct[1], T):
            v = verbatim(ct[1], streams)
            if v and st.store.add_ge0(e-s-1) is not None: out.append((str(s), v[0], eqv.intpoint(st.store.add_ge0(e-s-1), st.facts, seed=5)))
    return out
def h06(hm, res):
    alg = hm.alg; fam = family(alg)
    def judge(st, p, streams, label, where):
        lf = leftovers(hm, st, p, streams)
        if not lf: res.ok(label); return True
        real = [x for x in lf if x[1] != 'Stale' and x[2] is not None]
        if real:
            res.add(label, 'violated', {'what': 'a byte of %s is still in the object at offset %s' % (real[0][1], real[0][0]), 'witness': {k: v for k, v in real[0][2].items()}}, where)
            return True
        return False
    # after result(), from any state
    D, p = hm.default()[0]
    done = False
    if fam != 'hmac':
        m = Model(hm)
        g, p = m.general()
        if 'L1' in hm.fix: g.store = g.store.add_eq0(V('K')-2)
        L = hm.var(g, 'L1'); done = True
        for s in hm.update(g, p, 'Msg', ZERO, L):
            for P, got in hm.result(s, p):
                done &= judge(P, p, ('Msg', 'Stale'), 'after result() (%s)' % case(P.store, ['K', 'L1']), 'result')
    if not done or fam == 'hmac':
        L = hm.var(D, 'L1'); L2 = hm.var(D, 'L2')
        for s in hm.update(D, p, 'Msg', ZERO, L):
            for s1 in ([s] if fam == 'hmac' else hm.update(s, p, 'Msg', L, L2)):
                for P, got in hm.result(s1, p):
                    if not judge(P, p, ('Msg',), 'after result() of a default-constructed object (%s)' % case(P.store, ['L1', 'L2']), 'result'):
                        res.add('after result()', 'unknown', 'no witness', 'result')
    # after construction from a byte sequence
    sizes = {'siphash_64': [16], 'siphash_32': [8], 'murmur3_32': range(1, 5), 'murmur3_128': range(1, 17), 'spooky2_128': range(1, 17)}.get(alg, [])
    for s, p0 in hm.keyed():
        sub = [s]
        for c in sizes:
            new = []
            for t in sub:
                for e in (E(c-1)-V('k'), V('k')-(c+1)):
                    z = t.store.add_ge0(e)
                    if z is not None: z = tighten(z, t.facts)
                    if z is not None: t2 = t.clone(); t2.store = z; new.append(t2)
            sub = new
        for t in sub:
            if not judge(t, p0, ('Key',), 'after construction (%s)' % case(t.store, ['k']), 'constructor from byte sequence'):
                res.add('after construction (%s)' % case(t.store, ['k']), 'unknown', 'no witness', 'constructor from byte sequence')

# ------------------------------------------------------------------ values
def tainted(t):
    """names of anything but arguments that a value depends on"""
    bad = set()
    for x in tm.support(t):
        if x in ('undef', 'addr'): bad.add({'undef': 'uninitialised memory', 'addr': 'an address'}[x])
        elif isinstance(x, T) and x.k == 'a' and x.a[0] in ('undef', 'addr'): bad.add('uninitialised memory' if x.a[0] == 'undef' else 'an address')
        elif isinstance(x, str) and x.startswith('g:'): bad.add('mutable global '+x[2:])
    return bad
def anystate(hm, alg_inner=None):
    """general state (hmac: default state with arbitrary chaining words)"""
    if family(hm.alg) != 'hmac':
        m = Model(hm); g, p = m.general()
        return g, p
    D, p = hm.default()[0]
    G, _, _ = hmac_general(hm, SPECS[hm.alg[5:-2]], D, p)
    return G, p
def h07(hm, res):
    g, p = anystate(hm)
    if 'L1' in hm.fix and family(hm.alg) != 'hmac': g.store = g.store.add_eq0(V('K')-2)
    L = hm.var(g, 'L1')
    for s in hm.update(g, p, 'Msg', ZERO, L):
        lab = case(s.store, ['K', 'L1'])
        for op in ('copy', 'assign'):
            t = s.clone()
            r = Region('C.obj', E(hm.size), ('u',) if op == 'copy' else ('s', 'Old', ZERO), 'obj', 'C'); r.owner = t.uid
            t.mem['C.obj'] = r; q = Ptr('C.obj')
            for t2, _ in hm.call(t, op, [q, p]):
                # the copy has the same members, and the original still has them
                keep = set(t2.store.eqs) | {v for c, d in t2.store.cons for v, _ in d} | {v for e in t2.store.eqs.values() for v in e.vars()} | {'K', 'L1'}
                pr = Pair(t2, s, keep)
                if not pr.ok: continue
                for who, a in (('copy', q), ('original', p)):
                    vs = region_cmp(hm, t2, a, s, p, pr)
                    if all(v == 'eq' for _, v in vs): res.ok('%s by %s has the members of the original (%s)' % (who, op, lab)); continue
                    n = [w for w, v in vs if v != 'eq'][0]
                    # what can be observed
                    o1 = observe2(hm, t2, a); o2 = observe2(hm, s, p)
                    for s1, a1, a2 in o1:
                        for s2, b1, b2 in o2:
                            z = Pair(s1, s2, keep | {'m'})
                            if not z.ok: continue
                            for w, x, y in (('first', a1, b1), ('second', a2, b2)):
                                res.v('%s result of the %s by %s, members differ at %s (%s)' % (w, who, op, n, lab), cmp_bytes(x, z.bytes(y), z.store, z.facts), 'a copied object gives other results', op)
                # operations on one leave the other alone
                for who, a, b in (('copy', q, p), ('original', p, q)):
                    t3 = t2.clone(); mm = hm.var(t3, 'm')
                    for opn, outs in (('update()', hm.update(t3, a, 'Obs', ZERO, mm)), ('result()', [x for x, _ in hm.result(t2, a)])):
                        for s4 in outs:
                            nm = '%s on the %s leaves the other object alone (%s)' % (opn, who, lab)
                            if s4.mem.get(b.r) is t2.mem[b.r]: res.ok(nm); continue     # never written
                            pr2 = Pair(s4, t2, keep | {'m'})
                            if not pr2.ok: continue
                            vs = region_cmp(hm, s4, b, t2, b, pr2)
                            bad = [(w, v) for w, v in vs if v != 'eq']
                            nm = '%s on the %s leaves the other object alone (%s)' % (opn, who, lab)
                            if not bad: res.ok(nm)
                            else: res.v(nm, bad[0][1], 'an operation on one object changes another', op)
        # results are functions of the arguments
        for P, got in hm.result(s, p):
            bad = set()
            for b in got: bad |= tainted(b)
            if bad: res.add('result() (%s)' % lab, 'violated', {'what': 'the result depends on %s' % ', '.join(sorted(bad)), 'witness': lab}, 'result')
            else: res.ok('result() depends on the arguments only (%s)' % lab)
    D, p = hm.default()[0]
    udef = undefined(hm, D, p)
    for what, sts in (('default constructor', hm.default()), ('constructor from integer', hm.seeded()), ('constructor from byte sequence', hm.keyed())):
        for s, p in sts:
            bad = set()
            for a, e, ct, _ in hm.segs(s, p):
                if not und(ct) and ct[0] in 'wf' and isinstance(ct[1], T): bad |= tainted(ct[1])
            if bad or what == 'default constructor' or not undefined(hm, s, p) <= udef:
                bad = set()
                for P, got in hm.result(s, p):
                    for b in got: bad |= tainted(b)
            if bad: res.add('object after %s' % what, 'violated', {'what': 'the result depends on %s' % ', '.join(sorted(bad)), 'witness': what}, what)
            else: res.ok('object after %s depends on the arguments only (%s)' % (what, case(s.store, ['k'])))
    for (k, w), loc in hm.I.effects.items():
        res.add('%s %s' % (k, w), 'violated', {'what': 'a hash operation %s %s' % (k, w), 'witness': loc}, loc)
    if not hm.I.effects: res.ok('no access to mutable globals')
def undefined(hm, st, p):
    out = set()
    for a, e, ct, _ in hm.segs(st, p):
        if und(ct): out |= set(range(st.store.lower(a) or 0, min(hm.size, st.store.upper(e) if st.store.upper(e) is not None else hm.size)))
    return out
def observe2(hm, st, p): return observe(hm, st, p)
def region_cmp(hm, A, pa, B, pb, pr):
    """[(what, verdict)] of the object at pa in A against the object at pb in B"""
    z = Pair.__new__(Pair); z.A = A; z.B = B; z.sub = pr.sub; z.store = pr.store; z.facts = pr.facts
    return image_cmp(hm, z, pa, pb)

# ------------------------------------------------------------------ memory safety, arithmetic
MEMKINDS = {'out-of-bounds', 'null-deref', 'null-memcpy', 'null-memset', 'write-to-const', 'use-after-scope', 'memcpy-overlap'}
ARITHKINDS = {'signed-overflow', 'shift-range', 'div-zero', 'uninitialised', 'pointer-range', 'null-arith', 'trap', 'abort'}
def drive(hm, res, kinds):
    seen = set()
    def chk(label):
        new = [a for k, a in hm.I.alarms.items() if a.kind in kinds and k not in seen]
        for a in new:
            seen.add((a.kind, a.loc))
            res.add('%s: %s' % (label, a.kind), 'violated', {'what': '%s: %s' % (a.kind, a.msg), 'witness': a.store[:300]}, a.loc)
        if not new: res.ok(label)
    def go(label, fn):
        hm.I.const_work = label.startswith(('result', 'second', 'copy', 'default', 'constructor from integer', 'constructor from two'))
        try: r = fn()
        finally: hm.I.const_work = False
        chk(label); return r
    go('default constructor', hm.default)
    go('constructor from integer', hm.seeded)
    if hm.has('seed2'):
        st0, p0 = hm.start()
        go('constructor from two integers', lambda: hm.call(st0, 'seed2', [p0, sym(64, 'seed1'), sym(64, 'seed2')]))
    go('constructor from (null, 0)', lambda: hm.keyed(n=ZERO, null=True))
    K = go('constructor from (p, n)', lambda: hm.keyed())
    for s, p in K[:400]:
        # buffers filled by a key are states like any other; the fill level is what matters
        pass
    g, p = anystate(hm)
    if 'L1' in hm.fix and family(hm.alg) != 'hmac': g.store = g.store.add_eq0(V('K')-2)
    L = hm.var(g, 'L1')
    S = go('update(p, n) at a block boundary', lambda: hm.update(g, p, 'Msg', ZERO, L))
    for i, s in enumerate(S):
        lab = case(s.store, ['L1'])
        for which in ('update', 'updatev'):
            go('%s(null, 0) (%s)' % (which, lab), lambda: hm.update(s, p, 'Msg', L, ZERO, which, null=True))
            L2 = hm.var(s, 'L2')
            go('%s(p, n) (%s)' % (which, lab), lambda: hm.update(s, p, 'Msg', L, L2, which))
        R = go('result() (%s)' % lab, lambda: hm.result(s, p))
        for P, _ in R[:3]:
            m = hm.var(P, 'm')
            for s2 in go('update(p, n) after result() (%s)' % lab, lambda: hm.update(P, p, 'Obs', ZERO, m)):
                go('second result() (%s)' % lab, lambda: hm.result(s2, p))
        t = s.clone()
        r = Region('C.obj', E(hm.size), ('u',), 'obj', 'C'); r.owner = t.uid; t.mem['C.obj'] = r
        go('copy (%s)' % lab, lambda: hm.call(t, 'copy', [Ptr('C.obj'), p]))
def h08(hm, res): drive(hm, res, MEMKINDS)
def h09(hm, res): drive(hm, res, ARITHKINDS)
COSTKINDS = {'diverges', 'superlinear', 'unbounded', 'recursion', 'dynamic-stack'}
def h14(hm, res): drive(hm, res, COSTKINDS)
def h13(hm, res): drive(hm, res, {'abort'})

# ------------------------------------------------------------------ lengths beyond the host's word
def h11(hm, res):
    """result after any number of whole blocks and a tail: the length enters with all its bits"""
    alg = hm.alg
    spec = SPECS[alg]
    if alg.startswith('fnv1a'): return
    m = Model(hm)
    g, p = m.general(stale=True)
    order = chain_order(m, spec)
    if order is None: raise Unknown('initial chaining words not found')
    X0 = [None]*len(order)
    for i in range(len(order)): X0[i] = sym(m.chain[order[i]][1], ('chain', order[i]))
    g.store = g.store.add_ge0(V('K')-1)
    L = hm.var(g, 'L1')
    for s, P, got in tail_steps(m, g, p, L, hm):
        for store, want in spec_final(spec, P, L, X0, total=iv(m.C+L), longmsg=lambda N: True):
            v = cmp_bytes(got, want, store, P.facts)
            res.v('result of K whole blocks and L1 bytes (%s)' % case(store, ['K', 'L1']), v, 'the result is not the published function of a message of K whole blocks and L1 bytes', 'result')
