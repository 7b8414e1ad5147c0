"""Block functions.

A template is a pure function (chaining words, N block bytes) -> chaining words, obtained by
analysing a function (or one loop iteration) on placeholder operands.  It is interned by the
canonical terms it computes, so the same computation found in different places, or stated by a
specification, is the same template.  Iterated application is kept symbolic:
    cv(T, i, X, seq)  =  word i of the chaining state after absorbing the blocks of seq."""
from . import terms as tm
from .terms import T, atom, sym, const, concat_le, extract
from .aff import E, V, ZERO, Store
from .mem import *

class Template:
    _tab = {}
    def __new__(cls, N, widths, terms):
        key = (N, widths, terms)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls); t.N = N; t.widths = widths; t.terms = terms
            t.id = len(cls._tab)+1; cls._tab[key] = t; t.xs = tuple(sym(w, ('X', i)) for i, w in enumerate(widths))
        return t
    def __repr__(self): return 'F%d' % self.id
    def step(self, X, blk):
        """blk: list of N byte terms"""
        m = {x: v for x, v in zip(self.xs, X)}
        sm = {'streams': {'B': lambda o: blk[o.const]}}
        memo = {}
        return tuple(tm.subst(t, m, sm, memo) for t in self.terms)
    def expand(self, X, seq, store):
        n = store.constval(seq.length())
        if n is None: return None
        bs = seq.bytes(n, store)
        for k in range(0, n, self.N): X = self.step(X, bs[k:k+self.N])
        return X
def cv(Tp, X, seq):
    """tuple of chaining words after absorbing seq (whole blocks)"""
    if not seq.p: return tuple(X)
    x0 = X[0]
    if x0.k == 'a' and x0.a[0] == 'cv' and x0.a[1] is Tp:
        Y, s0 = x0.a[3], x0.a[4]
        if all(x.k == 'a' and x.a[0] == 'cv' and x.a[1] is Tp and x.a[2] == i and x.a[3] == Y and x.a[4] == s0 for i, x in enumerate(X)):
            b = SeqB(None); b.addseq(s0); b.addseq(seq)
            X, seq = Y, b.seq()
    X = tuple(X)
    return tuple(atom(w, 'cv', Tp, i, X, seq) for i, w in enumerate(Tp.widths))
def _re(w, a): return cv(a[1], a[3], a[4])[a[2]]
tm.REBUILD['cv'] = _re

class Use:
    """a function recognised as application of a template"""
    def __init__(self, tp, cin, cout, blk, fn): self.tp = tp; self.cin = cin; self.cout = cout; self.blk = blk; self.fn = fn
    def apply(self, I, st, args, ins):
        N = self.tp.N
        ba, bo = self.blk
        bp = Ptr(args[ba].r, args[ba].off+bo)
        I.bounds(st, bp, E(N), ins, 'read')
        for (a, off, w) in self.cin: I.bounds(st, Ptr(args[a].r, args[a].off+off), E(w//8), ins, 'read')
        for (a, off, w) in self.cout:
            p = Ptr(args[a].r, args[a].off+off)
            I.bounds(st, p, E(w//8), ins, 'write')
            if p.r == bp.r and not (st.store.ge0(p.off-bp.off-N) or st.store.ge0(bp.off-p.off-w//8)):
                return None     # block overlaps the chaining cells: analyse in line
        seq = parts_to_seq(st.mem[bp.r].read_parts(bp.off, E(N), st.store), st.store)
        X = []
        for (a, off, w) in self.cin:
            v = I.load(st, Ptr(args[a].r, args[a].off+off), IntTy(w), ins)
            if not isinstance(v, T): raise Unknown('pointer in chaining state')
            X.append(v)
        I.stats['blockfns'].add(self.fn.name)
        new = cv(self.tp, X, seq)
        for (a, off, w), v in zip(self.cout, new):
            I.store(st, Ptr(args[a].r, args[a].off+off), v, IntTy(w), ins)
        return [(st, None)]
class IntTy:
    kind = 'int'
    def __init__(self, w): self.w = w; self.size = w//8

def discover(I, fn, args):
    from .interp import State
    if fn.decl: return None
    st = State(); st.uid = object()
    a2 = []; regs = {}
    for j, a in enumerate(args):
        if isinstance(a, Ptr):
            r = Region('ph%d' % j, E(1 << 16), ('f', const(8, 0)), 'ph', 'placeholder%d' % j)
            r.log = {'reads': [], 'bytes': set()}; r.owner = None
            st.mem[r.id] = r; regs[j] = r; a2.append(Ptr(r.id))
        else: a2.append(a)
    st.wlog = []
    saved = I.alarms; I.alarms = {}; I.placeholder += 1
    steps0 = I.steps
    try:
        try: outs = I.run_fn(st, fn, a2)
        except Unknown as e:
            I.tnotes[fn.name] = str(e); return None
        except (NeedFork, NeedForkConst, NeedForkBool, KeyError): return None
    finally:
        I.placeholder -= 1
        found = I.alarms; I.alarms = saved
    if len(outs) != 1 or outs[0][1] is not None: return None
    s = outs[0][0]
    wr = {}
    for rid, off, n in s.wlog:
        if not rid.startswith('ph') : continue
        o, k = off.const, n.const
        if o is None or k is None: return None
        wr.setdefault(int(rid[2:]), set()).update(range(o, o+k))
    rd = {j: r.log for j, r in regs.items()}
    outsj = [j for j in regs if wr.get(j)]
    if not outsj: return None
    pure = [j for j in regs if not wr.get(j) and rd[j]['bytes']]
    # block: read-only, contiguous
    best = None
    for j in pure:
        b = rd[j]['bytes']; lo = min(b); N = max(b)+1-lo
        if len(b) != N: continue
        if best is None or N > best[1]: best = (j, N, lo)
    if best is None or best[2] != 0 or best[1] < 4: return None
    bj, N, _ = best
    # chaining inputs: words read from the other regions
    cin = []
    for j in regs:
        if j == bj: continue
        last = -1
        for off, size in sorted(set(rd[j]['reads'])):
            if off < last: return None
            last = off+size
            cin.append((j, off, size*8))
    cout = []; vals = {}
    def bytev(g):
        return extract(g[0], 8*g[1], 8) if isinstance(g[0], T) else None
    for j in outsj:
        r = s.mem['ph%d' % j]
        if r.bm is None: return None
        done = set()
        if I.big():
            wid = {}
            for rid, off, n in s.wlog:
                if rid == 'ph%d' % j: wid[off.const] = n.const
            for o in sorted(wr[j]):
                if o in done: continue
                n = wid.get(o)
                if n is None or o+n-1 not in wr[j]: return None
                bs = [bytev(r.bm[o+i]) for i in range(n)]
                if None in bs: return None
                v = concat_le(bs[::-1])
                vals[(j, o)] = v
                done.update(range(o, o+n)); cout.append((j, o, 8*n))
            continue
        for o in sorted(wr[j]):
            if o in done: continue
            v, k = r.bm[o]
            if k != 0 or not isinstance(v, T): return None
            n = v.w//8
            if any(r.bm.get(o+i) != (v, i) for i in range(n)): return None
            done.update(range(o, o+n)); cout.append((j, o, v.w)); vals[(j, o)] = v
    # cells never changed by a write (written back unchanged) keep their place in both lists
    if [c for c in cin if c in cout] != cin or [c for c in cout if c in cin] != cout:
        if len(cin) != len(cout) or [c[2] for c in cin] != [c[2] for c in cout]: return None
    if not cin or len(cin) > 32: return None
    xs = tuple(sym(w, ('X', i)) for i, (_, _, w) in enumerate(cin))
    m = {}
    for (j, off, w), x in zip(cin, xs):
        m[('ph%d' % j, off, w)] = x
    ren = {}
    terms = []
    streams = {'ph%d' % bj: lambda o: sb('B', o)}
    memo = {}
    for (j, off, w) in cout:
        v = vals[(j, off)]
        mm = {}
        for leaf in tm.support(v):
            if isinstance(leaf, T) and leaf.k == 'a' and leaf.a[0] == 'ph':
                key = leaf.a[1:]+(leaf.w,)
                if leaf.a[1] == 'ph%d' % bj: mm[leaf] = concat_le([sb('B', E(leaf.a[2]+i)) for i in range(leaf.w//8)][::-1 if I.big() else 1])
                elif key in m: mm[leaf] = m[key]
                else: return None
        t = tm.subst(v, mm, {'streams': streams}, {} )
        for leaf in tm.support(t):
            if isinstance(leaf, str):
                if leaf != 'B': return None
            elif leaf.a[0] == 'sym' and leaf in xs: pass
            elif leaf.a[0] == 'sb': pass
            else: return None
        terms.append(t)
    for k, a in found.items():
        if a.kind in ('signed-overflow', 'shift-range', 'div-zero', 'uninitialised'): I.alarms.setdefault(k, a)
    tp = Template(N, tuple(c[2] for c in cin), tuple(terms))
    return Use(tp, cin, cout, (bj, 0), fn)

# ------------------------------------------------------------------ representatives
# Two templates that are the same computation up to the order of the chaining words, restricted to
# the words that a given word depends on, share a representative.
_clo = {}; _rep = {}; _reps = {}
def closure(Tp, i):
    """(sub-template of the words that word i depends on, their indices, index of i, byte shift)"""
    key = (Tp, i)
    r = _clo.get(key)
    if r is not None: return r
    need = [i]; k = 0
    while k < len(need):
        for leaf in tm.support(Tp.terms[need[k]]):
            if isinstance(leaf, T) and leaf.a[0] == 'sym' and leaf in Tp.xs:
                j = Tp.xs.index(leaf)
                if j not in need: need.append(j)
        k += 1
    idx = sorted(need)
    used = set()
    def bytes_of(t, seen):
        if t in seen: return
        seen.add(t)
        if t.k == 'a' and t.a[0] == 'sb':
            used.add(t.a[2].const); return
        for c in tm.children(t): bytes_of(c, seen)
    seen = set()
    for j in idx: bytes_of(Tp.terms[j], seen)
    m = min(used) if used and None not in used else 0
    if len(idx) == len(Tp.terms) and m == 0: r = (Tp, idx, i, 0)
    else:
        ren = {Tp.xs[j]: sym(Tp.widths[j], ('X', k)) for k, j in enumerate(idx)}
        tmp = {Tp.xs[j]: sym(Tp.widths[j], ('Y', k)) for k, j in enumerate(idx)}
        back = {sym(Tp.widths[j], ('Y', k)): sym(Tp.widths[j], ('X', k)) for k, j in enumerate(idx)}
        st = {'streams': {'B': lambda o: tm.atom(8, 'sb', 'B', o-m)}}
        memo = {}
        ts = [tm.subst(tm.subst(Tp.terms[j], tmp, st, memo), back) for j in idx]
        r = (Template(Tp.N, tuple(Tp.widths[j] for j in idx), tuple(ts)), idx, idx.index(i), m)
    _clo[key] = r
    return r
def colours(Tp):
    from .eqv import step_val
    import hashlib
    n = len(Tp.terms)
    col = [w for w in Tp.widths]
    h = lambda *a: int.from_bytes(hashlib.blake2b(repr(a).encode()).digest()[:8], 'little')
    blk = bytes(h('b', k) & 255 for k in range(Tp.N))
    for rnd in range(3 if n > 1 else 1):
        X = [h('x', c) & tm.full(w) for c, w in zip(col, Tp.widths)]
        new = step_val(Tp, X, blk)
        col = [h(c, v) for c, v in zip(col, new)]
    return col
def representative(Tp):
    """(representative, perm) with representative word perm[j] == word j of Tp"""
    r = _rep.get(Tp)
    if r is not None: return r
    from itertools import permutations
    n = len(Tp.terms)
    try: col = colours(Tp)
    except Exception: col = None
    ident = list(range(n))
    if col is not None:
        for R, rcol in _reps.setdefault((Tp.N, tuple(sorted(Tp.widths)), tuple(sorted(col))), []):
            groups = {}
            for k, c in enumerate(rcol): groups.setdefault(c, []).append(k)
            mine = {}
            for k, c in enumerate(col): mine.setdefault(c, []).append(k)
            cands = [[]]
            amount = 1
            for c in mine:
                amount *= len(list(permutations(groups[c]))) if len(groups[c]) < 6 else 1000
            if amount > 200: continue
            opts = [dict()]
            for c, ks in mine.items():
                opts = [{**o, **dict(zip(ks, p))} for o in opts for p in permutations(groups[c])]
            for o in opts:
                m1 = {Tp.xs[j]: sym(Tp.widths[j], ('Y', o[j])) for j in range(n)}
                m2 = {sym(Tp.widths[j], ('Y', o[j])): sym(Tp.widths[j], ('X', o[j])) for j in range(n)}
                memo = {}; memo2 = {}
                if all(tm.subst(tm.subst(Tp.terms[j], m1, None, memo), m2, None, memo2) is R.terms[o[j]] for j in range(n)):
                    r = (R, [o[j] for j in range(n)]); _rep[Tp] = r
                    return r
        _reps[(Tp.N, tuple(sorted(Tp.widths)), tuple(sorted(col)))].append((Tp, col))
    r = (Tp, ident); _rep[Tp] = r
    return r
def shiftseq(seq, m, N):
    if m == 0 or not seq.p: return seq
    p = list(seq.p)
    b = SeqB(None); left = m
    for k, q in enumerate(p):
        if left:
            L = plen(q)
            c = L.const
            if c is not None and c <= left: left -= c; continue
            if q[0] == 's': q = ('s', q[1], q[2]+left, q[3]-left)
            elif q[0] == 'f': q = ('f', q[1], q[2]-left)
            else: return None
            left = 0
        b.add(q)
    last = p[-1]
    if last[0] == 's': b.add(('s', last[1], last[2]+last[3], E(m)))
    else: b.add(('f', const(8, 0), E(m)))
    return b.seq()
def unify(Tp, i, X, seq):
    """canonical term of word i of Tp iterated from X over seq"""
    S, idx, k, m = closure(Tp, i)
    q = shiftseq(seq, m, Tp.N)
    if q is None: return cv(Tp, X, seq)[i]
    P = power(S)
    if P is not None: return unify(P, k, [X[j] for j in idx], q)
    R, perm = representative(S)
    Y = [None]*len(idx)
    for j, p in zip(idx, perm): Y[p] = X[j]
    return cv(R, tuple(Y), q)[perm[k]]

_pow = {}
def power(S):
    """a template of which S is an iterate, or None"""
    key = (S, len(Template._tab))
    r = _pow.get(key, 0)
    if r != 0: return r
    r = None
    from .eqv import step_val
    import random
    rnd = random.Random(5)
    X = [rnd.getrandbits(w) for w in S.widths]; blk = bytes(rnd.randrange(256) for _ in range(S.N))
    want = None
    for P in sorted(Template._tab.values(), key=lambda t: t.id):
        if P.N >= S.N or S.N % P.N or P.widths != S.widths: continue
        try:
            if want is None: want = step_val(S, X, blk)
            Y = X
            for o in range(0, S.N, P.N): Y = step_val(P, Y, blk[o:o+P.N])
        except Exception: continue
        if Y != want: continue
        bs = [sb('B', E(i)) for i in range(S.N)]
        Z = S.xs
        for o in range(0, S.N, P.N): Z = P.step(Z, bs[o:o+P.N])
        if tuple(Z) == S.terms: r = P; break
    _pow[key] = r
    return r
