"""Runs the analysis of one property over all of its subjects, writes the evidence and the verdict.

Exit 0: no subject violates the property.  Exit 1: at least one does (one VIOLATION line).  Exit 2:
the analysis itself is broken (a harness does not build, a subject vanished, nothing was analysed)."""
import itertools, sys, os, json, time, subprocess, tempfile, shutil, signal, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HASH2_REPO', '/repo')
OPT = '/usr/lib/llvm-18/bin/opt'
class Broken(Exception): pass

class Work:
    """scratch directory of one run, and the IR modules built in it from the current sources"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='hash2sa.'); self.mods = {}; self.nr = itertools.count()
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def compile(self, src, flags=(), std='c++17', tag='', clang='clang++-18'):
        key = (src, tuple(flags), std, tag)
        if key in self.mods: return self.mods[key]
        base = os.path.join(self.dir, '%s-%d' % (os.path.basename(src), next(self.nr)))
        cmd = [clang, '-std='+std]+([] if '-UNDEBUG' in flags else ['-DNDEBUG'])+['-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-I'+REPO+'/include', '-emit-llvm', '-c', src, '-o', base+'.0.bc']+list(flags)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Broken('%s does not compile:\n%s' % (src, r.stderr[-3000:]))
        r = subprocess.run([OPT, '-passes=sroa', base+'.0.bc', '-o', base+'.bc'], capture_output=True, text=True)
        if r.returncode: raise Broken('opt: '+r.stderr[-2000:])
        self.mods[key] = base+'.bc'
        return base+'.bc'
    def try_compile(self, src, flags=(), std='c++17', cc='clang++-18'):
        r = subprocess.run([cc, '-std='+std, '-fsyntax-only', '-I'+REPO+'/include', src]+list(flags), capture_output=True, text=True)
        return r.returncode == 0, r.stderr

# ------------------------------------------------------------------ subjects in processes of their own
def _child(fn, args, conn):
    sys.setrecursionlimit(200000)
    import resource, threading
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    out = [None]
    def go():
        try: out[0] = ('ok', fn(*args))
        except MemoryError: out[0] = ('unknown', 'out of memory')
        except Broken as e: out[0] = ('broken', str(e))
        except BaseException as e:
            n = type(e).__name__
            out[0] = ('unknown' if n in ('Unknown', 'NeedFork', 'NeedForkConst', 'NeedForkBool', 'RecursionError') else 'crash', '%s: %s\n%s' % (n, e, traceback.format_exc()[-1500:]))
    threading.stack_size(512 << 20)
    t = threading.Thread(target=go); t.start(); t.join()
    try: conn.send(out[0])
    except Exception as e: conn.send(('crash', 'result not transferable: %s' % e))
    conn.close()
def run_pool(jobs, procs=8, deadline=None):
    """jobs: list of (key, fn, args, timeout); yields (key, (status, value), seconds)"""
    ctx = mp.get_context('fork')
    pending = list(jobs); running = {}
    while pending or running:
        while pending and len(running) < procs:
            key, fn, args, tmo = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, args, b)); p.start(); b.close()
            running[key] = (p, a, time.time(), tmo)
        done = []
        mp.connection.wait([v[1] for v in running.values()], timeout=0.5)
        for key, (p, a, t0, tmo) in running.items():
            if a.poll():
                try: r = a.recv()
                except EOFError: r = ('crash', 'subject process ended')
                p.join(); done.append((key, r, time.time()-t0))
            elif not p.is_alive(): done.append((key, ('crash', 'subject process ended'), time.time()-t0)); p.join()
            elif time.time()-t0 > tmo or (deadline and time.time() > deadline):
                p.kill(); p.join(); done.append((key, ('unknown', 'time limit'), time.time()-t0))
        for d in done: running.pop(d[0]); yield d

# ------------------------------------------------------------------ reporting
def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop): out.append(l.split(' ', 2)[2])
    return out
class Report:
    def __init__(self, prop, tier, level):
        self.prop = prop; self.tier = tier; self.level = level; self.t0 = time.time()
        self.obl = 0; self.proved = 0; self.agree = 0; self.unknown = []; self.violations = []; self.fns = set(); self.stats = {}; self.subjects = {}
        self.samples = []; self.notes = []; self.extra = {}
    def add(self, subject, name, status, detail=None, where=None):
        self.obl += 1
        d = self.subjects.setdefault(subject, {'obligations': 0, 'discharged': 0})
        d['obligations'] += 1
        if status == 'proved':
            self.proved += 1; d['discharged'] += 1
            if d['discharged'] == 1 and len(self.samples) < 40: self.samples.append('%s: %s' % (subject, name))
        elif status == 'violated': self.violations.append({'subject': subject, 'rule': name, 'where': where, 'detail': detail})
        else: self.unknown.append('%s: %s (%s)' % (subject, name, str(detail)[:300]))
    def finish(self, rule, trusted, cmd, assumptions):
        kf = known_findings(self.prop)
        news = []; old = []
        for v in self.violations:
            ident = '%s %s' % (v['subject'], v['rule'])
            (old if any(k == ident for k in kf) else news).append(v)
        cov = {'subjects': self.subjects, 'functions_analysed': sorted(self.fns)[:400], 'functions_analysed_count': len(self.fns), 'rule': rule, 'statistics': self.stats, 'undecided': self.unknown[:50], 'undecided_count': len(self.unknown), 'notes': self.notes[:40]}
        cov.update(self.extra)
        cov['obligations'] = self.obl; cov['discharged'] = self.proved
        if self.level == 'proof': cov.update({'checker_cmd': cmd, 'trusted_base': trusted, 'samples': self.samples})
        else: cov.update({'explanation': rule, 'samples': self.samples, 'trusted_base': trusted})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': self.level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time()-self.t0, 2), 'violations': len(news)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop+'.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(HERE, 'evidence', self.prop+'.violation.txt')
        if os.path.exists(rp): os.remove(rp)
        print('%s: %d subjects, %d functions, %d obligations, %d discharged, %d undecided, %d violated, %.1f s' % (self.prop, len(self.subjects), len(self.fns), self.obl, self.proved, len(self.unknown), len(self.violations), time.time()-self.t0))
        for u in self.unknown[:8]: print('  undecided:', u[:300])
        for k in sorted({'%s %s' % (v['subject'], v['rule']) for v in old}): print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if news:
            with open(rp, 'w') as f:
                for v in news:
                    f.write('property %s\nsubject  %s\nrule     %s\nwhere    %s\n%s\n\n' % (self.prop, v['subject'], v['rule'], v['where'], json.dumps(v['detail'], indent=1, default=str)))
            v = news[0]
            for v in news[:6]: print('  violated: %s | %s | %s | %s' % (v['subject'], v['rule'], v['where'], str(v['detail'])[:500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.obl == 0 or not self.subjects: raise Broken('nothing was analysed')
        return 0

def main(argv):
    prop = argv[0]; tier = 'quick'
    if '--tier' in argv: tier = argv[argv.index('--tier')+1]
    from . import registry
    w = Work()
    try: return registry.run(prop, tier, w)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e)); return 2
    finally: w.close()
