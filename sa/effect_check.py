"""C02: effects of everything reachable, over the call graph of the IR."""
import os, re, time
from .check import *
from . import check

PURE = re.compile(r'^(_ZSt18_Rb_tree_(in|de)crementP\w+|memcpy|memmove|memset|memcmp|bcmp|strlen|memchr|abs|labs|__cxa_pure_virtual|_ZSt9terminatev|__clang_call_terminate|__cxa_begin_catch|__gxx_personality_v0|abort|__assert_fail)$|^llvm\.')
ALLOC = re.compile(r'^(_Zn[wa]|_Zd[la]|malloc$|calloc$|realloc$|free$|aligned_alloc$|posix_memalign$|alloca$)')
THROW = re.compile(r'^(__cxa_throw|__cxa_rethrow|__cxa_allocate_exception|_ZSt1[0-9]*rethrow|_ZSt\d+__throw_|_ZN5boost\d*\d+throw)')
GUARD = re.compile(r'^__cxa_(guard|atexit|thread_atexit)')
IO = re.compile(r'^(f?printf|v?f?s?n?printf|puts|putchar|f?put[cs]|fwrite|fread|fopen|fclose|fflush|write|read|open|close|getenv|setenv|time|clock|clock_gettime|gettimeofday|rand|srand|random|exit|_exit|system|signal|raise|pthread_\w+|_ZNSo|_ZNSi|_ZStls|_ZSt16__ostream|_ZNSt6chrono|__errno_location|__tls_get_addr|_ZTW\w+)')
STDLIB = re.compile(r'^_Z(N?K?S[tsoaib]|TVN?St|[ls]s|eq)|^_Z(nw|na|dl|da)')
ATOMIC = ('atomicrmw', 'cmpxchg', 'fence')

def globals_of(c, out):
    if not isinstance(c, tuple): 
        if isinstance(c, list):
            for x in c: globals_of(x, out)
        return
    if c[0] == 'glob': out.append(('g', c[1])); return
    if c[0] == 'fn': out.append(('f', c[1])); return
    for x in c[1:]:
        if isinstance(x, (tuple, list)): globals_of(x, out)
def refs(ins):
    out = []
    vals = list(ins.ops)
    if ins.op == 'phi': vals += list(ins.x.values())
    if ins.op == 'gep': vals += [v for v, _ in ins.x[1]]
    for v in vals:
        if v[0] == 'k': globals_of(v[1], out)
    return out
def scan(bc, names, mine, shared=()):
    """[(root, status, rule, detail, where)], functions; mine: may this external function be a harness function;
    shared: functions that may allocate, throw and write to a stream, but share no state of ours"""
    from . import llvmc
    from .interp import demangle
    m = llvmc.Module(bc)
    out = []; memo = {}; fns = set(); stats = {'functions': 0, 'instructions': 0, 'calls': 0}
    def local(fn):
        """findings in the body of one function, and what it calls"""
        r = memo.get(fn.name)
        if r is not None: return r
        m.body(fn); fs = []; cs = []; stats['functions'] += 1
        if not fn.name.startswith('llvm.'): fns.add(demangle(fn.name))
        for bb in fn.blocks:
            for ins in bb.phis+bb.instrs:
                stats['instructions'] += 1
                if ins.op in ATOMIC: fs.append(('violated', 'shared state', 'atomic operation', ins.loc()))
                if ins.op in ('load', 'store') and ins.flags and ins.op == 'store': fs.append(('unknown', 'shared state', 'volatile store', ins.loc()))
                for k, g in refs(ins):
                    if k == 'f': cs.append((g, ins)); continue
                    if not g.const and not g.name.startswith('llvm.'): fs.append(('violated', 'static mutable state', 'uses the modifiable variable %s' % demangle(g.name), ins.loc()))
                    elif g.tls: fs.append(('violated', 'static mutable state', 'uses the thread-local variable %s' % demangle(g.name), ins.loc()))
                if ins.op in ('call', 'invoke'):
                    stats['calls'] += 1; c = ins.x[0]
                    if c[0] == 'fn': cs.append((c[1], ins))
                    else: fs.append(('unknown', 'call graph', 'indirect call', ins.loc()))
        memo[fn.name] = (fs, cs); return fs, cs
    for n in names if names is not None else [f.name for f in m.fns.values() if not f.decl and f.linkage == 0]:
        fn = m.fns.get(n)
        if fn is None or fn.decl: out.append((n, 'unknown', 'harness', 'function %s is missing' % n, None)); continue
        seen = {fn.name: None}; todo = [fn]; found = {}
        while todo:
            f = todo.pop()
            fs, cs = local(f)
            for s, rule, d, wh in fs: found.setdefault((s, rule, d), (f, wh))
            for g, ins in cs:
                if g.decl:
                    nm = g.name
                    if PURE.search(nm) or mine(nm) or n in shared and (STDLIB.search(nm) or nm == '__cxa_call_unexpected'): continue
                    for rx, rule in ((ALLOC, 'allocation'), (THROW, 'exceptions'), (GUARD, 'static mutable state'), (IO, 'input and output')):
                        if rx.search(nm): found.setdefault(('violated', rule, 'calls %s' % demangle(nm)), (f, ins.loc())); break
                    else: found.setdefault(('unknown', 'call graph', 'calls %s' % demangle(nm)), (f, ins.loc()))
                elif g.name not in seen: seen[g.name] = (f, ins.loc()); todo.append(g)
        def path(f):
            p = []
            while f is not None:
                p.append(demangle(f.name)[:120]); q = seen.get(f.name); f = q[0] if q else None
            return p[::-1]
        rules = {'static mutable state', 'shared state', 'allocation', 'exceptions', 'input and output'}
        if n in shared:
            rules -= {'allocation', 'exceptions', 'input and output'}
            found = {k: v for k, v in found.items() if k[1] not in ('allocation', 'exceptions', 'input and output')}
        for (s, rule, d), (f, wh) in found.items():
            rules.discard(rule); out.append((n, s, rule, {'what': d, 'call path': path(f)}, wh))
        for r in sorted(rules): out.append((n, 'proved', 'no '+r, None, None))
    return out, sorted(fns), stats
def c02(w, tier, rule, trust, assume):
    from . import append_check as ac, props_value as pv, subjects
    R = Report('C02', tier, 'proof')
    jobs = []
    stds = (17, 11) if tier == 'quick' else (11, 14, 17, 20)
    for std in stds:
        bc = w.compile(os.path.join(HERE, 'h', 'hash.cpp'), (), std='c++%d' % std, tag='c%d' % std)
        jobs.append((('C++%d' % std, 'hash', None), scan, (bc, None, harness), 300))
        for nm, src, text in (('digest', pv.digest_source(), ('ts_', 'os_')), ('gir', pv.gir_source(), ('\0',))):
            p = os.path.join(w.dir, 'c02_%s.cpp' % nm)
            with open(p, 'w') as f: f.write(src)
            b = w.compile(p, (), std='c++%d' % std, tag='c%d%s' % (std, nm))
            names = re.findall(r'\b([a-z]+_\d+(?:_\d+)?)\(', src)
            jobs.append((('C++%d' % std, nm, None), scan, (b, names, harness, {x for x in names if x.startswith(text)}), 300))
        for prop in ('A01', 'A03', 'A05', 'A02', 'A07')+(('A04', 'A08', 'A09') if tier != 'quick' else ()):
            mods, bad = ac.build(w, 'c02_%s_%d' % (prop, std), subjects.LISTS[prop], std)
            for g, b in mods: jobs.append((('C++%d' % std, prop, b), scan, (b, None, harness), 300))
    for key, (st, val), sec in run_pool(jobs, deadline=R.t0+600):
        if st == 'broken': raise Broken(val)
        if st != 'ok': R.add('%s %s' % key[:2], 'analysis', 'unknown', val); continue
        for n, s, rl, d, wh in val[0]: R.add('%s %s %s' % (key[0], key[1], n), rl, s, d, wh)
        R.fns |= set(val[1])
        for k, v in val[2].items(): R.stats[k] = R.stats.get(k, 0)+v
    return R.finish(rule, trust, '/verif/bin/check C02 --tier %s' % tier, assume)
def harness(n): return n.startswith(('rec_', 'arch_', 'it_'))
