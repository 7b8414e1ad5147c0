"""The same obligations on other builds of the same sources: with the branches of constant
evaluation taken (H10), and for hosts of other byte order and word size (H11).

Each build is analysed against the definitions like the ordinary build.  An obligation that fails in
one build only shows that the builds compute different things."""
import os, subprocess, time
from . import check
from .check import *
from .hashmodel import PLAIN, LEGACY, HMACS, ALL

CE = ('-D__builtin_is_constant_evaluated()=true', '-Wno-builtin-macro-redefined')
INC = {'gnu/stubs-%s.h' % x: '' for x in ('32', '64', 'soft', 'hard', 'lp64', '64-v1', 'x32')}
INC['bits/wordsize.h'] = '#if __SIZEOF_POINTER__ == 8\n# define __WORDSIZE 64\n#else\n# define __WORDSIZE 32\n# define __WORDSIZE32_SIZE_ULONG 0\n# define __WORDSIZE32_PTRDIFF_LONG 0\n#endif\n'
INC['bits/endianness.h'] = '#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__\n# define __BYTE_ORDER __BIG_ENDIAN\n#else\n# define __BYTE_ORDER __LITTLE_ENDIAN\n#endif\n'
TARGETS = ['powerpc64-linux-gnu', 'i686-linux-gnu', 'powerpc-linux-gnu', 's390x-linux-gnu', 'armv7-linux-gnueabi', 'aarch64_be-linux-gnu']
def target_flags(w, t):
    d = os.path.join(w.dir, 'target')
    for n, s in INC.items():
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p):
            with open(p, 'w') as f: f.write(s)
    def first(*ps): return [p for p in ps if os.path.isdir(p)]
    paths = [d]+first('/usr/include/c++/13', '/usr/include/x86_64-linux-gnu/c++/13', '/usr/include/c++/13/backward', '/usr/lib/llvm-18/lib/clang/18/include', '/usr/include/x86_64-linux-gnu', '/usr/include')
    fl = ['--target='+t, '-nostdinc', '-nostdinc++']
    for p in paths: fl += ['-isystem', p]
    return tuple(fl)

# ------------------------------------------------------------------ memory helpers written as loops
def hook_memory(I):
    """detail::memcpy and detail::memset of a build in which they are loops: where the loop is shown to
    do what the memory routine does, for all lengths, its uses are read as that routine"""
    from .interp import State, demangle
    from .aff import E, V, ZERO
    from .mem import Region, Ptr, parts_to_seq, SeqB, iv, NULL
    from .terms import sym
    from . import terms as tm
    for fn in list(I.mod.fns.values()):
        if fn.decl: continue
        d = demangle(fn.name)
        for nm, call in (('memcpy', I.memcpy), ('memset', I.memset)):
            if not d.startswith('boost::hash2::detail::%s(' % nm): continue
            I.mod.body(fn)
            if len(fn.params) != 3: continue
            if not same_as_routine(I, fn, nm): continue
            I.externs[fn.name] = make_hook(I, fn, nm, call)
def make_hook(I, fn, nm, call):
    from .mem import Ptr
    from . import terms as tm
    def hook(I2, st, args, ins, f):
        d, s, n = args
        e = st.view(n)
        if e is None or not isinstance(d, Ptr) or d.r is None or (nm == 'memcpy' and (not isinstance(s, Ptr) or s.r is None)): return I2.run_fn(st, fn, args, ins)
        if nm == 'memcpy':
            if d.r == s.r and not (st.store.ge0(d.off-s.off-e) or st.store.ge0(s.off-d.off-e)): return I2.run_fn(st, fn, args, ins)
            I2.memcpy(st, d, s, e, ins)
        else: I2.memset(st, d, tm.trunc(s, 8) if s.w > 8 else s, e, ins)
        return [(st, None)]
    return hook
def same_as_routine(I, fn, nm):
    from .interp import State
    from .aff import E, V, ZERO
    from .mem import Region, Ptr, parts_to_seq, SeqB, iv, Seq
    from . import terms as tm, mem as mm
    st = State(); n = V('n')
    st.store = st.store.add_ge0(n).add_ge0(E(1 << 29 if I.mod.ptrsize == 4 else 1 << 60)-n)
    o = V('mo'); st.store = st.store.add_ge0(o-1).add_ge0(E(1 << 20)-o)
    D = Region('mD', o+n+1, ('s', 'MD', ZERO), 'obj', 'mD'); D.owner = st.uid; D.to_segs(); st.mem['mD'] = D
    S = Region('mS', o+n+1, ('s', 'MS', ZERO), 'input', 'mS'); st.mem['mS'] = S
    v = tm.sym(32, 'msv')
    saved = I.alarms; I.alarms = {}
    try:
        outs = I.run_fn(st, fn, [Ptr('mD', o), Ptr('mS', o) if nm == 'memcpy' else v, iv(n, mm.PTRBITS[0])])
        if I.alarms or not outs: return False
        for s, _ in outs:
            pos = ZERO
            for a, b, c in s.mem['mD'].read_parts(ZERO, o+n+1, s.store):
                if not s.store.eq0(a-pos): return False
                pos = b
                if s.store.eq0(a-b): continue
                old = c[0] == 's' and c[1] == 'MD' and s.store.eq0(c[2]-a)
                if s.store.ge0(o-b) or s.store.ge0(a-o-n):
                    if not old: return False
                elif not (s.store.ge0(a-o) and s.store.ge0(o+n-b)): return False
                elif nm == 'memcpy':
                    if c[0] == 's' and c[1] == 'MS' and s.store.eq0(c[2]-a): pass
                    elif c[0] in 'wf' and s.store.eq0(b-a-1) and tm.extract(c[1], 8*(c[2] if c[0] == 'w' else 0), 8) is mm.sb('MS', s.store.norm(a)): pass
                    else: return False
                else:
                    x = c[1] if c[0] == 'f' else tm.extract(c[1], 8*c[2], 8) if c[0] == 'w' else None
                    if x is not tm.trunc(v, 8): return False
            if not s.store.eq0(pos-o-n-1): return False
        return True
    except Exception as e:
        if type(e).__name__ in ('Unknown', 'NeedFork', 'NeedForkConst', 'NeedForkBool', 'KeyError', 'AttributeError'): return False
        raise
    finally: I.alarms = saved

# ------------------------------------------------------------------ all obligations of some builds
class Build:
    def __init__(self, name, flags, prep=None): self.name = name; self.flags = flags; self.prep = prep
    def tag(self): return self.name.replace(' ', '_').replace('-', '_')
def jobs_of(w, b, hashes, appends, values, tier, only=None):
    """(key, fn, args, timeout); key = (build, kind, property, ...); only: {(kind, prop): subjects}"""
    from . import registry, append_check as ac, value_check as vc, subjects, props_value as pv
    out = []
    if hashes:
        bc = w.compile(os.path.join(HERE, 'h', 'hash.cpp'), b.flags)
        for prop, algs in hashes:
            for a in algs:
                if only is None or a in only.get(('hash', prop), ()): out.append(((b.name, 'hash', prop, a), registry.hash_subject, (bc, prop, a, None, {'tier': tier, 'prep': b.prep}), 200))
    for prop in appends:
        if only is not None and not only.get(('append', prop)): continue
        mods, bad = ac.build(w, '%s_%s' % (b.tag(), prop), subjects.LISTS[prop], 17, b.flags)
        for g, bc in mods:
            idx = [k for k in range(len(g.subjects)) if only is None or ac.label(g.subjects[k]) in only[('append', prop)]]
            m = 50
            for a in range(0, len(idx), m):
                out.append(((b.name, 'append', prop, bc, a), ac.chunk, (bc, subjects.LISTS[prop], g.keep, 17, idx[a:a+m], 'nonempty' if prop == 'A06' else 'message', {'prep': b.prep}), 120))
    for prop in values:
        if only is not None and not only.get(('value', prop)): continue
        src = os.path.join(w.dir, 'value_%s_%s.cpp' % (b.tag(), prop))
        with open(src, 'w') as f: f.write(pv.gir_source() if prop == 'G01' else pv.digest_source())
        bc = w.compile(src, b.flags)
        us = [('g01', i) for i in range(len(pv.RT))]+[('g01a', i) for i in range(len(pv.AR))] if prop == 'G01' else [(prop.lower(), n) for n in pv.NS]
        out += [((b.name, 'value', prop, f, i), vc.unit, (bc, f, i), 120) for f, i in us if only is None or '%s %s' % (f, i) in only[('value', prop)]]
    return out
HW = {'spooky2_128': 3, 'sha1_160': 3, 'hmac_sha1_160_t': 3, 'hmac_sha2_512_t': 2, 'hmac_sha2_384_t': 2, 'hmac_sha2_512_224_t': 2, 'hmac_sha2_512_256_t': 2}
def weight(key): return -HW.get(key[3], 1) if key[1] == 'hash' else -0.5
def collect(R, jobs, deadline, tab):
    """tab: {(kind, property, subject): {build: {obligation: (status, detail, where)}}}"""
    for key, (st, val), sec in run_pool(sorted(jobs, key=lambda j: weight(j[0])), deadline=deadline):
        name, kind, prop = key[:3]
        if st == 'broken': raise Broken('%s: %s' % (key, val))
        sub0 = key[3] if kind == 'hash' else '%s %s' % (key[3], key[4]) if kind == 'value' else 'part %s' % key[4]
        if st != 'ok': tab.setdefault((kind, prop, sub0), {}).setdefault(name, {})['analysis'] = ('unknown', str(val)[:200], None); continue
        if kind == 'hash':
            obl = [(sub0, val['obl'])]; fns, stats = val['fns'], val['stats']
            if val['err']: obl.append((sub0, [('analysis', 'unknown', val['err'], None)]))
        elif kind == 'append': obl = val[0]; fns, stats = val[1], val[2]
        else: obl = [(sub0, val[0])]; fns, stats = val[1], val[2]
        for sub, os_ in obl:
            t = tab.setdefault((kind, prop, sub), {}).setdefault(name, {})
            for n, s, d, wh in os_:
                if t.get(n, ('',))[0] != 'violated' and (s != 'proved' or n not in t): t[n] = (s, d, wh)
        R.fns |= set(fns)
        for k, v in stats.items(): R.stats[k] = R.stats.get(k, 0)+v
def bad(t): return [(n, x) for n, x in t.items() if x[0] == 'violated']
def cross(R, w, builds, ref, what, tier, cross_tmo):
    """builds analysed completely; a subject that fails in one of them is also analysed in the others
    (and in ref): failing in one build only is a difference between builds"""
    hashes, appends, values = what; tab = {}
    from concurrent.futures import ThreadPoolExecutor
    one = []
    for b in builds:
        h, a, v = [what_of(x, b) for x in what]
        one += [(b, h, [], [])]+[(b, [], [x], []) for x in a]+[(b, [], [], [x]) for x in v]
    with ThreadPoolExecutor(3) as ex: jobs = [j for js in ex.map(lambda x: jobs_of(w, *x, tier), one) for j in js]
    R.stats['compile_s'] = round(time.time()-R.t0, 1)
    collect(R, jobs, R.t0+cross_tmo, tab)
    others = {b.name: b for b in builds+[ref]}
    need = {}
    for (kind, prop, sub), bs in tab.items():
        if any(bad(t) for t in bs.values()):
            for b in others:
                if b not in bs: need.setdefault(b, {}).setdefault((kind, prop), set()).add(sub)
    jobs = []
    for b, only in need.items(): jobs += jobs_of(w, others[b], *[what_of(x, None) for x in what], tier, only)
    if jobs: collect(R, jobs, R.t0+cross_tmo+150, tab)
    for (kind, prop, sub), bs in sorted(tab.items()):
        failing = [b for b in bs if bad(bs[b])]
        fine = [b for b in bs if not bad(bs[b]) and any(x[0] == 'proved' for x in bs[b].values())]
        for b in bs:
            if b == ref.name and b not in [x.name for x in builds]: continue
            for n, (s, d, wh) in bs[b].items():
                lab = '%s: %s %s' % (b, prop, sub)
                if s != 'violated': R.add(lab, n, s, d, wh)
                elif fine: R.add(lab, n, 'violated', {'what': d, 'holds in': fine}, wh)
                else: R.add(lab, n, 'unknown', 'fails in every build that was analysed (%s)' % ', '.join(failing))
def what_of(x, b):
    """lists may hold (item, set of build names) to limit an item to some builds"""
    out = []
    for i in x:
        if isinstance(i, tuple) and len(i) == 3: (p, a, names) = i; i = (p, a)
        elif isinstance(i, tuple) and isinstance(i[1], set): i, names = i
        else: names = None
        if b is None or names is None or b.name in names: out.append(i)
    return out

def modern(l): return [a for a in l if not any(x in a for x in LEGACY)]
def h10(w, tier, rule, trust, assume):
    R = Report('H10', tier, 'proof')
    ce = Build('constant evaluation', CE, 'ce'); rt = Build('run time', ())
    N = {rt.name, ce.name} if tier != 'quick' else {ce.name}
    what = ([('H01', modern(PLAIN)), ('H03', modern(ALL), N), ('H04', modern(ALL), N), ('H05', modern(ALL) if tier != 'quick' else modern(PLAIN), N), ('H12', modern(HMACS) if tier != 'quick' else ['hmac_md5_128_t', 'hmac_sha2_256_t', 'hmac_sha2_512_t', 'hmac_ripemd_160_t'], N)],
        ['A01', 'A03']+[(p, N) for p in ('A02', 'A05', 'A07', 'A08')+(('A04', 'A06', 'A09') if tier != 'quick' else ())], ['D02', 'G01', ('D01', {rt.name})])
    cross(R, w, [ce, rt], rt, what, tier, 400 if tier == 'quick' else 600)
    return R.finish(rule, trust, '/verif/bin/check H10 --tier %s' % tier, assume)
def h11(w, tier, rule, trust, assume):
    R = Report('H11', tier, 'proof')
    rt = Build('x86-64', ())
    ts = TARGETS[:2] if tier == 'quick' else TARGETS
    bs = [Build(t, target_flags(w, t)) for t in ts]
    first = {ts[0], ts[1]}
    tail = [a for a in PLAIN if a[:5] not in ('fnv1a', 'sipha')]
    what = ([('H01', PLAIN), ('H03', ALL, first), ('H04', ALL, first), ('H05', PLAIN, first), ('H12', HMACS, first), ('H11', tail)],
        ['A01', 'A03']+[(p, first) for p in ('A02', 'A04', 'A05', 'A07')+(('A06', 'A08', 'A09') if tier != 'quick' else ())], ['D01', 'D02', 'G01'])
    cross(R, w, bs, rt, what, tier, 450 if tier == 'quick' else 600)
    return R.finish(rule, trust, '/verif/bin/check H11 --tier %s' % tier, assume)
