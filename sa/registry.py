"""The checks: for each property the subjects it is analysed on and the analysis that decides it."""
import time
from .check import *
from . import check

TRUST = ['clang 18 front end and opt -passes=sroa (the IR that is analysed)', 'transfer functions and normal forms of /verif/sa', 'published definitions transcribed in /verif/sa/specs.py (validated by tools/validate_specs.py against hashlib and published vectors)']
TRUSTC = ['constant evaluation and semantic analysis of clang 18 and g++ 13']
ASSUME = ['BOOST_ASSERT is compiled out (NDEBUG), as in the library\'s release use', 'messages are shorter than 2^60 bytes', 'x86-64 IR unless stated otherwise']

# ------------------------------------------------------------------ hash properties
def hash_subject(bc, prop, alg, fix, opts):
    from . import llvmc, props_hash
    from .hashmodel import HM, Res, finish
    mod = llvmc.Module(bc)
    hm = HM(mod, alg)
    hm.fix = fix or {}; hm.opts = opts or {}
    if hm.opts.get('prep') == 'ce':
        from .variants import hook_memory
        hook_memory(hm.I)
    res = Res(alg)
    err = None
    try: getattr(props_hash, prop.lower())(hm, res)
    except BaseException as e:
        n = type(e).__name__
        if n not in ('Unknown', 'NeedFork', 'NeedForkConst', 'NeedForkBool', 'RecursionError', 'Broken'): raise
        if n == 'Broken': raise
        err = '%s: %s' % (n, str(e)[:300])
    finish(res, hm)
    for a in hm.I.alarms.values():
        if a.kind == 'diverges' or prop == 'H14' and a.kind in props_hash.COSTKINDS:
            if not any(o[1] == 'violated' and o[3] == a.loc for o in res.obl): res.obl.append(('the operation returns', 'violated', {'what': a.msg, 'witness': a.store[:300]}, a.loc))
    if hm.I.unproved: res.obl.append(('memory access within bounds', 'unknown', hm.I.unproved[0][:300], None))
    alarms = [(a.kind, a.loc, a.msg) for a in hm.I.alarms.values()]
    return {'obl': [(n, s, d if s != 'proved' else None, w) for n, s, d, w in res.obl], 'fns': sorted(res.fns), 'stats': res.stats, 'notes': res.notes, 'err': err, 'alarms': alarms}

def hash_check(prop, tier, w, algs, rule, level='proof', flags=(), src='hash.cpp', fixes=None, tmo=None, assume=None):
    R = Report(prop, tier, level)
    bc = w.compile(os.path.join(HERE, 'h', src), flags)
    t1 = tmo or (240 if tier == 'quick' else 600)
    jobs = [(a, hash_subject, (bc, prop, a, None, {'tier': tier}), t1) for a in order(algs)]
    redo = []
    for a, (st, val), sec in run_pool(jobs):
        if st == 'broken': raise Broken('%s: %s' % (a, val))
        if st == 'crash': R.notes.append('%s: %s' % (a, val)); redo.append((a, val)); continue
        if st == 'unknown': redo.append((a, val)); continue
        und = absorb(R, a, val)
        if (val['err'] or und) and not any(o[1] == 'violated' for o in val['obl']): redo.append((a, val['err'] or und))
    if redo:
        # concrete lengths instead of symbolic ones
        jobs = []
        for a, why in redo:
            R.add(a, 'for all lengths', 'unknown', why)
            for k, fx in enumerate((fixes or default_fixes)(prop, a)):
                jobs.append(((a, k), hash_subject, (bc, prop, a, fx, {'tier': tier}), 120))
        for (a, k), (st, val), sec in run_pool(jobs, deadline=R.t0+(600 if tier == 'quick' else 800)):
            if st != 'ok': continue
            absorb(R, a, val, only_violations=True)
    return R.finish(rule, TRUST, '/verif/bin/check %s --tier %s' % (prop, tier), assume or ASSUME)
def absorb(R, a, val, only_violations=False):
    und = None
    for n, s, d, wh in val['obl']:
        if s not in ('proved', 'violated'): und = und or '%s: %s' % (n, d)
        if only_violations and s not in ('violated', 'proved'): continue
        R.add(a, n, s, d, wh)
    R.fns |= set(val['fns'])
    for k, v in val['stats'].items(): R.stats[k] = R.stats.get(k, 0)+v
    R.notes += ['%s: %s' % (a, x) for x in val['notes']]
    return und
HEAVY = ['sha1_160', 'spooky2_128', 'hmac_sha1_160_t', 'sha2_384', 'sha2_512', 'sha2_512_224', 'sha2_512_256']
def order(algs): return sorted(algs, key=lambda a: (a not in HEAVY and a.replace('hmac_', '').replace('_t', '') not in HEAVY, a))
BLOCK = {'siphash_32': 4, 'siphash_64': 8, 'xxhash_32': 16, 'xxhash_64': 32, 'murmur3_32': 4, 'murmur3_128': 16, 'spooky2_128': 192, 'fnv1a_32': 1, 'fnv1a_64': 1, 'sha2_384': 128, 'sha2_512': 128, 'sha2_512_224': 128, 'sha2_512_256': 128}
def block(a): return BLOCK.get(a.replace('hmac_', '').replace('_t', ''), 64)
def default_fixes(prop, a):
    N = block(a)
    base = sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, N-9, N-8, N-1, N, N+1, 2*N-9, 2*N-1, 2*N, 2*N+1, 2*N+3, 3*N, 3*N+5, 4*N+1} - {x for x in range(-20, 0)})
    if prop == 'H02':
        ls = sorted({0, 1, 3, N//2, N-1, N, N+1, 2*N, 2*N+3} - {-1})
        return [{'L1': x, 'L2': y} for x in ls for y in ls]
    return [{'n': x, 'L1': x, 'k': x} for x in base]

from .hashmodel import PLAIN, DIGESTS, LEGACY, HMACS, ALL
RULES = {
 'H01': 'abstract interpretation of constructor, update and result over symbolic message length and content; every exit of the partitioned length space must have the normal form of the published definition',
 'H03': 'the object built from an integer seed, against the object (or published initial state) the seed is documented to stand for: member-wise normal forms of the whole object, or first and second result after a further message of any length',
 'H04': 'the object built from a byte sequence of any length (null and non-null when empty), against the documented function of the key: member-wise normal forms of the whole object, or first and second result after a further message of any length',
 'H05': 'from the generalised state (arbitrary chaining words, any number of whole blocks): the state after update and result is again a block-boundary state, the result of a message continued after result() is the published function of message, padding and continuation (digests, hmac), and later results are not identically the earlier ones',
 'H06': 'byte-wise provenance of the whole object after result() from the generalised state and after keyed construction: no byte is a message or key byte or such a byte combined with a constant',
 'H07': 'copies and assignments have member-wise the normal forms of the original, operations write only the region of the object they are given, and no result has uninitialised memory, an address or a mutable global in its support',
 'H08': 'every load, store and memory routine of constructors, update and result from the generalised state is within the region it addresses for all lengths; nothing but the object and the returned value is written; null only with zero length',
 'H09': 'every shift, signed operation, division, pointer computation and branch of the analysed operations is defined for all inputs',
 'H13': 'in a build with assertions, on every path of constructors, update, result and copy from the generalised state and from the states they lead to: no call of the assertion handler is reachable, for all lengths and fill levels',
 'H14': 'on every path of constructors, update, result and copy from the generalised state: every loop whose trip count depends on a length has an inductive summary with an affine trip count, no counter of such a loop can wrap around before its bound, no two such loops are nested, and in result, copy and the other constructors the trip counts are bounded by a constant; the call graph has no cycle and no allocation of variable size on the stack',
 'H12': 'key schedule of every key length (each length up to a block, all longer lengths symbolically) and result for arbitrary inner and outer chaining words and any message, against RFC 2104',
 'H02': 'closure: the states reachable by update from the generalised state (arbitrary chaining words, any number of whole blocks, stale buffer) are mapped into themselves by a further update, with the same parameters as one update of the concatenation; overloads compared',
}
AI = 'abstract interpretation of the compiled IR'
META = {
 'H01': dict(technique=AI+': symbolic lengths, loop summaries, normal-form comparison with the published definition', level='proof', note='All messages of all lengths below 2^60 for the 19 algorithms; the published definitions are transcribed in sa/specs.py. Trusts the clang front end and the analyser.'),
 'H02': dict(technique=AI+': inductive closure of the generalised object states under update', level='proof', note='All splits into any number of pieces, by induction over update; trusts the clang front end and the analyser.'),
 'H03': dict(technique=AI+': state equivalence of seeded objects', level='proof', note='All 64-bit seeds, all further messages, 29 hash classes (hmac included).'),
 'H04': dict(technique=AI+': state equivalence of keyed objects', level='proof', note='All key lengths below 2^60 and contents, 29 hash classes; nonempty hmac keys belong to H12.'),
 'H05': dict(technique=AI+': inductive step over result() from generalised states', level='proof', note='All states reachable by update and result for the 19 plain algorithms; hmac from arbitrary key schedules for two results. That later results differ is shown as not identical for any length class, not as unequal for every message.'),
 'H06': dict(technique=AI+': provenance of object bytes', level='proof', note='All messages and keys; masking with constants counts as verbatim, other invertible encodings do not.'),
 'H07': dict(technique=AI+': state equality, write effects and support of results', level='proof', note='Copies of generalised states; results of all operations.'),
 'H08': dict(technique=AI+': bounds, nullness and write obligations at every memory access', level='proof', note='All lengths and fill levels; alarms carry integer witnesses.'),
 'H09': dict(technique=AI+': definedness obligations of arithmetic, pointers and branches', level='proof', note='All lengths and fill levels; alarms carry witnesses.'),
 'H13': dict(technique=AI+' with assertions compiled in: reachability of the assertion handler', level='proof', note='All lengths, fill levels and histories of update and result; 29 hash classes; reports carry integer witnesses.'),
 'H14': dict(technique=AI+': trip counts of the loop summaries; cycles of the call graph', level='proof', note='All lengths below 2^60; counts rounds and calls, not seconds.'),
 'H12': dict(technique=AI+': key schedule and result normal forms against RFC 2104', level='proof', note='Every key length below 2^60, every message, all ten digests.'),
}
OB = 'abstract interpretation of hash_append on the compiled IR'
RULES.update({
 'A01': 'for every scalar type and flavor, hash_append on a symbolic value of an archetype hash object: the update term must be the documented bytes',
 'A02': 'for objects, arrays and contiguous or iterator ranges of every element type: the message, whichever path was instantiated, must be that of the element-by-element definition, for symbolic contents and counts; the raw-bytes traits against the table of types for which they may hold',
 'A03': 'for float and double in every context: the message has the bytes of the value with negative zero replaced, for all bit patterns',
 'A04': 'for ranges of every iterator category, symbolic count and contents: the message is the repetition of the element message followed by the count in size_type and byte order of the flavor',
 'A05': 'for fixed-size aggregates, symbolic contents: the message is the concatenation of the documented constituents, located through address functions compiled from the same sources',
 'A06': 'every path through hash_append has an update term of positive length, the empty forms included',
 'A07': 'the combination is the sum over the elements of the result of a copy of the prior state updated with the element, for symbolic count, contents and prior state',
 'A09': 'a program per documented category and per overlap of categories must compile, one per unsupported type must not, in every language mode; for types in several categories the message is that of the documented category',
 'A08': 'types with tag_invoke that record hash object, flavor and object, in every nesting: each invocation appears once, in place, with the caller\'s arguments',
})
SHAPES = ' Quantification over types is by an enumerated family of shapes (sa/subjects.py), over values and counts it is symbolic.'
META.update({p: dict(technique=OB+', normal-form comparison of messages', level='proof', note=n+SHAPES) for p, n in {
 'A01': 'All values of every fundamental scalar, enumeration and pointer type in five flavors.', 'A02': 'All values and counts.', 'A03': 'All bit patterns of float and double in every context; a signalling NaN may come out quiet.',
 'A04': 'All counts below 2^56 and all contents for contiguous storage and archetype iterators of every category; node containers up to three elements.', 'A05': 'All values of nested arrays, tuples, digests and described classes.',
 'A06': 'All values and counts.', 'A07': 'All counts, contents and prior states; hash results of 32, 64 and 128 bits.', 'A08': 'All values.', 'A09': 'Acceptance and rejection are decided by the compiler on an enumerated family of types; messages of types in several categories for all values.'}.items()})
RULES.update({
 'D01': 'to_chars (symbolic output range), the array form, to_string and stream insertion on digests of symbolic contents: every character, as a function of the byte it shows, over all 256 values; returned pointer, untouched remainder and bounds; the array form rejects short arrays',
 'D02': 'construction, addresses of all accessors (symbolic index), and on every path of the comparisons the byte equalities it decided, for digests of symbolic contents',
 'G01': 'get_integral_result as a term of a symbolic result for every pair of types: identity, injectivity and uniformity decided on the form c*r and its slices, all 16-bit results enumerated; rejected pairs must not compile',
})
META.update({
 'D01': dict(technique='abstract interpretation of the compiled IR over symbolic digests and buffer lengths, characters as functions of one byte', level='proof', note='All contents and all output lengths for 17 digest sizes from 1 to 65; std::string and std::ostream internals below _M_create and __ostream_insert are modelled.'),
 'D02': dict(technique='abstract interpretation of the compiled IR over symbolic digests, equality by the byte equalities decided on each path', level='proof', note='All contents and indexes for 17 digest sizes from 1 to 65.'),
 'G01': dict(technique='abstract interpretation of the compiled IR to a term of the result, algebraic decision of injectivity and uniformity; compile-fail witnesses', level='proof', note='All values of 7 unsigned and 8 array-like result types and 14 target types.'),
})
RULES.update({
 'H10': 'the obligations of H01, H03, H04, H05, H12, A01 to A08, D02 and G01 on two builds of the same sources, one with the branches of constant evaluation taken (__builtin_is_constant_evaluated() replaced by true): an obligation that holds in one build and fails in the other is a difference; loops of detail::memcpy and memset are first shown to do what the routines do',
 'H11': 'the obligations of H01, H03, H04, H05, H12, A01 to A07, D01, D02 and G01, and the total length in the padding of messages of any length, on the IR of the same sources compiled for big-endian and 32-bit targets, with memory modelled in the byte order and word size of the target: an obligation that holds on x86-64 and fails on a target is a difference',
})
META.update({
 'H10': dict(technique=AI+' of two builds, with and without the branches of constant evaluation', level='proof', note='Both builds are compared with the definition, for all inputs; the legacy algorithms (not constexpr) are left out. That the constant evaluator of the compiler agrees with the IR is trusted.'),
 'H11': dict(technique=AI+' compiled for big-endian and 32-bit targets', level='proof', note='powerpc64 and i686 in the quick check, also powerpc, s390x, armv7 and aarch64_be in the thorough one; 32-bit buffers up to 1 GB. clang for each target stands for every compiler of the target.'),
})
RULES.update({
 'C01': 'every header, alone and after any other, is accepted by two compilers in every language mode together with code that uses each thing it declares; in the IR of those units every definition of the library has discardable linkage and nothing of the library is left undefined',
 'C03': 'every operation documented as constexpr must be accepted in a static_assert by two compilers: algorithms and hmac over message, key and piece lengths around every block boundary, hash_append of every category, range functions, digest, get_integral_result',
})
RULES['C02'] = 'from every operation the call graph of the IR is closed; no function in it refers to a modifiable or thread-local variable, initialises a function-local static at run time, allocates, throws, performs input or output or uses atomic operations; writes through pointers are bounded to the object by H08 and A01 to A07'
META['C02'] = dict(technique='effect analysis over the closed call graph of the IR', level='proof', note='All executions: the analysis is flow-insensitive. Operations on hash objects, digests (formatting into a stream or string excluded), get_integral_result, hash_append of scalars and fixed-size aggregates.')
META.update({
 'C01': dict(technique='compile witnesses per header, language mode and order, and linkage analysis of the IR', level='proof', note='clang 18 and g++ 13 on x86-64 decide acceptance; orders are sampled with both orders of every pair covered.'),
 'C03': dict(technique='compile witnesses: static_assert over constant evaluation in every language mode', level='proof', note='Constant evaluation is by nature of given arguments: every fill level and every category is covered, contents are fixed; H10 decides the values for all inputs.'),
})
def run(prop, tier, w):
    if prop == 'C02':
        from .effect_check import c02
        return c02(w, tier, RULES[prop], TRUST[:1]+['effect scan of /verif/sa/effect_check.py'], ASSUME[:1])
    if prop in ('C01', 'C03'):
        from . import compile_check
        return getattr(compile_check, prop.lower())(w, tier, RULES.get(prop, ''), TRUSTC, ASSUME)
    if prop in ('H10', 'H11'):
        from . import variants
        return getattr(variants, prop.lower())(w, tier, RULES[prop], TRUST, ASSUME)
    if prop in ('D01', 'D02', 'G01'):
        from .value_check import value_check
        return value_check(prop, tier, w, RULES[prop], TRUST, ASSUME)
    if prop in ('A02', 'A09'):
        from .append_check import append_check
        from . import category_check as cc
        return append_check(prop, tier, w, RULES[prop], TRUST, ASSUME, extra=getattr(cc, prop.lower()))
    if prop in ('A01', 'A02', 'A03', 'A04', 'A05', 'A06', 'A07', 'A08'):
        from .append_check import append_check
        return append_check(prop, tier, w, RULES[prop], TRUST, ASSUME)
    if prop in ('H01', 'H02'): return hash_check(prop, tier, w, PLAIN, RULES[prop])
    if prop == 'H12': return hash_check(prop, tier, w, HMACS, RULES[prop])
    if prop in ('H03', 'H04', 'H05', 'H06', 'H07', 'H08', 'H09'): return hash_check(prop, tier, w, ALL, RULES[prop])
    if prop == 'H14': return hash_check(prop, tier, w, ALL, RULES[prop])
    if prop == 'H13': return hash_check(prop, tier, w, ALL, RULES[prop], flags=('-UNDEBUG',), assume=['BOOST_ASSERT is compiled in']+ASSUME[1:])
    raise Broken('unknown property '+prop)
