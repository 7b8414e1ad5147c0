"""Checks of digest<N> and get_integral_result."""
import os, time
from .check import *
from . import check

def unit(bc, f, n):
    from . import llvmc, props_value as pv
    from .hashmodel import Res
    vm = pv.VM(llvmc.Module(bc)); vm.I.deadline = time.time()+150; res = Res('')
    getattr(pv, f)(vm, res, n)
    return [(a, s, d if s != 'proved' else None, w) for a, s, d, w in res.obl], sorted(pv.demangle(x) for x in vm.I.stats['functions']), {k: vm.I.stats.get(k, 0) for k in ('instructions', 'accesses', 'partitions')}
def compiles(w, cases, stds, cc='clang++-18'):
    """[(name, source, must it compile)] -> [(name, std, must, did, message)]"""
    from concurrent.futures import ThreadPoolExecutor
    def one(a):
        k, (name, src, must), std = a
        p = os.path.join(w.dir, 'cc%d_%d.cpp' % (k, std))
        with open(p, 'w') as f: f.write(src)
        ok, err = w.try_compile(p, std='c++%d' % std, cc=cc)
        return name, std, must, ok, err
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, [(k, c, s) for k, c in enumerate(cases) for s in stds]))
def judge(R, w, cases, stds):
    for name, std, must, ok, err in compiles(w, cases, stds):
        rule = 'accepted' if must else 'rejected'
        if ok == must: R.add('C++%d %s' % (std, name), rule, 'proved')
        elif not must: R.add('C++%d %s' % (std, name), rule, 'violated', 'the program compiles', name)
        else: R.add('C++%d %s' % (std, name), rule, 'violated', 'the program does not compile: '+next((l for l in err.splitlines() if 'error' in l), '')[:300], name)
P = '#include <boost/hash2/digest.hpp>\n#include <boost/hash2/get_integral_result.hpp>\n#include <array>\n#include <cstdint>\nusing namespace boost::hash2;\n'
def d01_cases():
    out = []
    for n in (1, 4, 16, 20): 
        for m, ok in ((2*n+1, True), (2*n+2, True), (2*n, False), (2*n-1, False)): out.append(('to_chars(digest<%d>, char[%d])' % (n, m), P+'void f( digest<%d> const& d ) { char w[ %d ]; to_chars( d, w ); }\n' % (n, m), ok))
    return out
def g01_cases():
    out = []
    for t in ('bool',):
        for r in ('std::uint32_t', 'std::uint64_t', 'std::uint8_t', 'digest<16>', 'std::array<unsigned char, 8>'): out.append(('get_integral_result<%s>(%s)' % (t, r), P+'void f( %s const& r ) { (void)get_integral_result<%s>( r ); }\n' % (r, t), False))
    for t in ('float', 'double', 'int*', 'digest<8>'):
        out.append(('get_integral_result<%s>(std::uint64_t)' % t, P+'void f( std::uint64_t const& r ) { (void)get_integral_result<%s>( r ); }\n' % t, False))
    for r in ('signed char', 'short', 'int', 'long', 'long long', 'digest<4>', 'digest<7>', 'std::array<unsigned char, 7>', 'std::array<unsigned char, 1>'):
        for t in ('unsigned char', 'int', 'std::size_t'): out.append(('get_integral_result<%s>(%s)' % (t, r), P+'void f( %s const& r ) { (void)get_integral_result<%s>( r ); }\n' % (r, t), False))
    return out
def value_check(prop, tier, w, rule, trust, assume):
    from . import props_value as pv
    R = Report(prop, tier, 'proof')
    src = os.path.join(w.dir, 'value.cpp')
    with open(src, 'w') as f: f.write(pv.gir_source() if prop == 'G01' else pv.digest_source())
    jobs = []
    for std in ((17, 11) if tier == 'quick' else (11, 14, 17, 20)):
        bc = w.compile(src, std='c++%d' % std, tag=str(std))
        us = [('g01', i) for i in range(len(pv.RT))]+[('g01a', i) for i in range(len(pv.AR))] if prop == 'G01' else [(prop.lower(), n) for n in pv.NS]
        jobs += [((std, f, i), unit, (bc, f, i), 200) for f, i in us]
    for key, (st, val), sec in run_pool(jobs, deadline=R.t0+(240 if tier == 'quick' else 600)):
        if st == 'broken': raise Broken(val)
        if st != 'ok': R.add('C++%d %s %d' % key, 'analysis', 'unknown', val); continue
        for n, s, d, wh in val[0]: R.add('C++%d %s' % (key[0], n.split(':')[0]), n.partition(': ')[2] or 'value', s, d, wh)
        R.fns |= set(val[1])
        for k, v in val[2].items(): R.stats[k] = R.stats.get(k, 0)+v
    if prop == 'G01': judge(R, w, g01_cases(), (11, 17))
    if prop == 'D01': judge(R, w, d01_cases(), (11, 17))
    return R.finish(rule, trust, '/verif/bin/check %s --tier %s' % (prop, tier), assume)
