"""Object hashing: which subjects are analysed for which property, and the analysis of all of them."""
import shlex, os, subprocess, time
from .check import *
from . import check
from .shapes import *
from . import subjects

class Sel(Gen):
    """a generator that keeps only some subjects"""
    def __init__(self, keep, std):
        Gen.__init__(self); self.keep = keep; self.std = std; self.k = 0
    def want(self, t, how):
        if not usable(t, how, self.std): return False
        self.k += 1
        return self.keep is None or self.k-1 in self.keep
    def obj(self, t, flavors):
        for f in flavors:
            if ('want', t.cpp, f) in self.seen: continue
            self.seen.add(('want', t.cpp, f))
            if self.want(t, 'obj'): Gen.obj(self, t, [f])
    def rng(self, t, how, flavors):
        for f in flavors:
            if ('wantr', t.cpp, how, f) in self.seen: continue
            self.seen.add(('wantr', t.cpp, how, f))
            if self.want(t, how): Gen.rng(self, t, how, [f])
def usable(t, how, std):
    if how == 'span' and std < 20: return False
    if how == 'view' and std < 17: return False
    return not (raw(t, std) or (std < 14 and has(t, Cls)) or (std < 17 and 'std::byte' in t.cpp))
def has(t, c):
    if isinstance(t, c): return True
    if isinstance(t, Cls): return any(has(u, c) for u in list(t.bases)+[m for _, m, _ in t.members()])
    return any(has(u, c) for u in getattr(t, 'ts', ())) or (hasattr(t, 't') and has(t.t, c))

def raw(t, std):
    """does t need a later language mode"""
    if isinstance(t, Raw): return t.std > std or any(raw(l[0], std) for l in t.ls if l[0] not in ('lit', 'user'))
    if isinstance(t, Cls): return any(raw(u, std) for u in list(t.bases)+[m for _, m, _ in t.members()])
    return any(raw(u, std) for u in getattr(t, 'ts', ())) or (hasattr(t, 't') and raw(t.t, std))
def make(lists, keep, std):
    g = Sel(keep, std)
    for f in lists: f(g)
    return g
def build(w, tag, lists, std, flags=(), mode=('-DNDEBUG',)):
    """[(generator, module file)], [subjects that do not compile]"""
    bad = []
    def attempt(keep, name):
        g = make(lists, keep, std)
        src = os.path.join(w.dir, name+'.cpp'); base = os.path.join(w.dir, name)
        with open(src, 'w') as f: f.write(g.text())
        cmd = ['clang++-18', '-std=c++%d' % std]+list(mode)+['-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-I'+check.REPO+'/include', '-emit-llvm', '-c', src, '-o', base+'.0.bc']+list(flags)
        return g, base, subprocess.Popen('%s && %s -passes=sroa %s.0.bc -o %s.bc' % (' '.join(map(shlex.quote, cmd)), check.OPT, base, base), shell=True, stdout=subprocess.DEVNULL, stderr=open(base+'.err', 'w'))
    n = make(lists, None, std).k
    todo = [(set(range(a, n, 4)), '%s_%d' % (tag, a)) for a in range(min(4, n))]
    out = []; first = True
    while todo:
        batch = todo[:8]; todo = todo[8:]
        for keep, name, (g, base, p) in [(k, nm, attempt(k, nm)) for k, nm in batch]:
            if p.wait() == 0: out.append((g, base+'.bc')); continue
            if len(keep) == 1:
                bad += [(s, open(base+'.err').read()[-600:]) for s in g.subjects] or [(None, open(base+'.err').read()[-600:])]
                continue
            ks = sorted(keep); m = max(1, len(ks)//8)
            todo += [(set(ks[i:i+m]), '%s_%d' % (name, i)) for i in range(0, len(ks), m)]
    return out, bad
def chunk(bc, lists, keep, std, idx, mode, opts):
    """analysis of some subjects of one module"""
    import signal
    from . import llvmc, props_append as pa
    from .hashmodel import Res
    from .interp import demangle
    g = make(lists, keep, std)
    am = pa.AM(llvmc.Module(bc)); am.opts = opts; am.count = opts.get('n')
    if opts.get('prep') == 'ce':
        from .variants import hook_memory
        hook_memory(am.I)
    out = []; res = None
    class Slow(Exception): pass
    for k in idx:
        s = g.subjects[k]
        res = Res('')
        t0 = time.time(); am.I.deadline = t0+opts.get('limit', 8)
        try: pa.analyse(am, g.types, s, res, mode)
        except BaseException as e:
            n = type(e).__name__
            if n == 'Broken': raise
            res.add(label(s), 'unknown', '%s: %s' % (n, str(e)[:300]))
            am.reset()
        out.append((label(s), [(n, st, d if st != 'proved' else None, wh) for n, st, d, wh in res.obl]))
    return out, sorted(demangle(f) for f in am.I.stats['functions']), {k: am.I.stats.get(k, 0) for k in ('instructions', 'accesses', 'partitions')}
def label(s): return '%s %s %s' % (s[0], s[1].cpp, FLAVORS[s[2]][0])
def append_check(prop, tier, w, rule, trust, assume, extra=None):
    R = Report(prop, tier, 'proof')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    jobs = []
    stds = (17, 11) if tier == 'quick' else (11, 14, 17, 20)
    groups = [(std, subjects.LISTS[prop]) for std in stds]
    if tier != 'quick' and prop in ('A02', 'A05', 'A06', 'A08'):
        for k in range(6): groups.append((17, [lambda g, k=k: subjects.random_shapes(g, seed*100+k, 60)]))
    if prop in ('A02', 'A05', 'A08') and tier == 'quick': groups.append((17, [lambda g: subjects.random_shapes(g, seed, 30)]))
    mode = 'nonempty' if prop == 'A06' else 'message'
    for gi, (std, lists) in enumerate(groups):
        mods, bad = build(w, '%s%d_%d' % (prop, std, gi), lists, std)
        for s, err in bad: R.add('harness', label(s) if s else 'header', 'unknown', 'does not compile: '+err[-200:])
        for g, bc in mods:
            n = len(g.subjects); m = 40
            for a in range(0, n, m): jobs.append(((std, gi, bc, a), chunk, (bc, lists, g.keep, std, list(range(a, min(n, a+m))), mode, {}), 120 if tier == 'quick' else 300))
    if not jobs: raise Broken('no subject of %s compiles' % prop)
    redo = []; args = {j[0]: j for j in jobs}
    for key, (st, val), sec in run_pool(jobs, deadline=R.t0+(240 if tier == 'quick' else 600)):
        if st == 'broken': raise Broken(val)
        if st != 'ok':
            R.add('chunk', 'C++%d part %s' % (key[0], key[3]), 'unknown', val)
            redo.append((key, args[key][2][4])); continue
        bad = []
        for k, (lab, obl) in zip(args[key][2][4], val[0]):
            if any(o[1] not in ('proved', 'violated') for o in obl): bad.append(k)
            for n, s, d, wh in obl: R.add('C++%d %s' % (key[0], lab), n, s, d, wh)
        if bad: redo.append((key, bad))
        R.fns |= set(val[1])
        for k, v in val[2].items(): R.stats[k] = R.stats.get(k, 0)+v
    if redo:
        # not decided for all counts: small counts, so that a violation still shows
        jobs2 = []
        for key, idx in redo:
            bc, ls, keep, std, _, md, _ = args[key][2]
            for c in (0, 1, 2, 3, 5, 9, 17, 40):
                for a in range(0, len(idx), 4): jobs2.append(((key, c, a), chunk, (bc, ls, keep, std, idx[a:a+4], md, {'n': c}), 30))
        for (key, c, a), (st, val), sec in run_pool(jobs2[:4000], deadline=R.t0+(400 if tier == 'quick' else 750)):
            if st != 'ok': continue
            for lab, obl in val[0]:
                for n, s, d, wh in obl:
                    if s == 'violated': R.add('C++%d %s' % (key[0], lab), n+' (count %d)' % c, s, d, wh)
        R.notes.append('%d subjects again with concrete counts' % sum(len(i) for _, i in redo))
    if extra: extra(R, w, tier)
    return R.finish(rule, trust, '/verif/bin/check %s --tier %s' % (prop, tier), assume)
