#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept in one place so that
DESIGN.md, MANIFEST.json and the checks agree on ids)."""
import json, os
HD='include/boost/hash2/'
ALG=[HD+x for x in ('fnv1a.hpp','siphash.hpp','xxhash.hpp','md5.hpp','sha1.hpp','sha2.hpp','ripemd.hpp')]
LEG=[HD+'legacy/murmur3.hpp',HD+'legacy/spooky2.hpp']
HMAC=[HD+'hmac.hpp']
DET=[HD+'detail/'+x for x in ('read.hpp','write.hpp','rot.hpp','memcpy.hpp','memset.hpp','memcmp.hpp','is_constant_evaluated.hpp','bit_cast.hpp','config.hpp')]
HA=[HD+'hash_append.hpp']
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'hook_needed':None}
    if obs: a['observe_at']=obs
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('H01','Every algorithm computes its published hash function for every message',
 'For every message of every length, a default-constructed hash object that is fed the message and asked for result() returns exactly the value that the published definition of the algorithm assigns to the message (FNV-1a, SipHash-2-4 and HalfSipHash with zero key, XXH32, XXH64, MD5, SHA-1, SHA-224/256/384/512/512-224/512-256, RIPEMD-128/160, MurmurHash3 x86_32 and x64_128, SpookyHash V2). The 64-bit message length that enters padding or finalization is the true total length, also for messages far larger than 4 GB.',
 ['inputs'],'all messages, all lengths, for each of the shipped algorithms',
 'Tests compare a few dozen fixed vectors, almost all shorter than two blocks; padding edges, rarely used rounds on unusual words, large counts and long multi-block messages are not reached.',
 ALG+LEG+DET,[('block functions','transform / mix / update_ of each algorithm'),('padding and finalization','result() of each algorithm'),('byte order helpers',HD+'detail/read.hpp, write.hpp, rot.hpp')],
 ['Hash::update','Hash::result'],[('chaining state, partial block, fill level, total length','the digest state','private members of each algorithm')])
p('H02','update() is insensitive to how the message is split',
 'For every message and every way of cutting it into consecutive pieces, including empty pieces and single bytes, feeding the pieces to update() in order leaves the hash object giving the same results as one update() with the whole message. The void const* and unsigned char const* overloads of update() are interchangeable.',
 ['inputs','histories'],'all call histories of update(): all fill levels crossed with all piece lengths, for every algorithm, hmac<> and the legacy algorithms',
 'Tests split a handful of short messages at a handful of points; the guarantee is over all (fill level, length) pairs and all continuations.',
 ALG+LEG+HMAC,[('partial-block buffering','update() of each algorithm')],['Hash::update','Hash::result'])
p('H03','Integer seeding follows the documented rule for all 64-bit seeds',
 'Constructing any hash algorithm or hmac<> from a 64-bit seed of zero gives an object equivalent to a default-constructed one, and any nonzero seed gives exactly the documented keyed or seeded initial state, to which all 64 bits of the seed contribute (XXH32/XXH64 and SipHash initialise their state from the seed as published; FNV-1a behaves as if the eight little-endian bytes of the seed had been passed to update(), the digest algorithms as if result() had then been called as well; hmac<> uses those eight bytes as key).',
 ['inputs'],'all 2^64 seeds, every algorithm with an integer-seed constructor',
 'Tests use a couple of small seeds; a seed bit that is dropped, mixed twice or mis-ordered shows only for other seeds.',
 ALG+LEG+HMAC,[('integer-seed constructors','each algorithm')],['Hash(std::uint64_t)'])
p('H04','Byte-sequence seeding follows the documented rule for all keys',
 'Constructing any hash algorithm or hmac<> from a byte sequence (p, n) with n == 0 (p may be null) is equivalent to default construction; otherwise the initial state is the documented function of exactly those n bytes: a 16-byte key for SipHash-64 and an 8-byte key for SipHash-32 load the key words directly, legacy MurmurHash3 and SpookyHash use the leading bytes as key and hash the rest, hmac<> uses the key as RFC 2104 prescribes, FNV-1a behaves as if the bytes had been passed to update(), and every other case as if the bytes had been passed to update() and result() called.',
 ['inputs'],'all keys of all lengths, every algorithm with a byte-sequence constructor',
 'Tests use one or two key lengths; boundary lengths (0, just below, at and above the key or block size) and key contents are not enumerable.',
 ALG+LEG+HMAC,[('byte-sequence constructors','each algorithm'),('hmac<>::init',HD+'hmac.hpp')],['Hash(unsigned char const*, std::size_t)'])
p('H05','result() leaves a valid, advanced state for any further calls',
 'After result() the object remains a fully valid hash object: calling update() and result() in any order and any number of times afterwards is defined, deterministic and split-insensitive, and each result() changes the state that later results are computed from, so that successive results form an extended output stream rather than a constant one. A result() call behaves as the documented extension of the message (the padding and length become part of the message for the digest algorithms; the non-digest algorithms perturb their internal state).',
 ['histories','inputs'],'all histories of update() and result(), from every fill level',
 'The tests call result() a few times in a row after one short message; states reachable after a result() at an arbitrary fill level and message length are unbounded.',
 ALG+LEG+HMAC,[('result()','each algorithm'),('fill level and length bookkeeping','m_ == n_ % N')],['Hash::result'])
p('H06','No plaintext remains in the object after finalization or keyed construction',
 'After result() returns, no byte of the message or of the key is still stored verbatim in the hash object of a buffering algorithm or of hmac<>; the same holds right after construction from a non-block-sized byte-sequence seed and after hmac<> key setup.',
 ['histories','inputs'],'all messages, fill levels and key lengths; every non-legacy algorithm with an internal buffer and hmac<>',
 'The test searches the object for one fixed pattern at one length; residue depends on fill level, padding placement and key length.',
 [HD+x for x in ('md5.hpp','sha1.hpp','sha2.hpp','ripemd.hpp','xxhash.hpp','siphash.hpp','hmac.hpp')],[('buffer clearing','memset after transform, result()')],['object representation'])
p('H07','Hash objects are independent values',
 'Hash objects have value semantics: a copy continues with exactly the results the original would have given, operations on one object never influence another, and every result is a deterministic function of the constructor arguments and the bytes passed since (never of uninitialised memory, addresses, or previous use of other objects).',
 ['histories','programs'],'all interleavings of operations on any number of objects and copies',
 'Tests copy an object at one point in one history; hidden sharing, uninitialised state or address dependence is not observable from single runs.',
 ALG+LEG+HMAC+[HD+'digest.hpp'],[('trivially copyable state','data members of each algorithm')],['copy construction','copy assignment'])
p('H08','Memory safety: only the given bytes are read, only the object is written',
 'For every valid (p, n), including a null p when n is zero, every constructor, update() and result() reads only bytes in [p, p+n) and the object itself, writes only inside the object and the returned value, never passes a null pointer to a memory routine, and never indexes outside its buffers whatever the fill level.',
 ['inputs','histories'],'all (p, n), all fill levels and histories, every algorithm, hmac<>, and legacy',
 'Running without sanitizers on short messages cannot show the absence of an out-of-bounds access for other lengths and fill levels.',
 ALG+LEG+HMAC+DET,[('bounds arithmetic','update()/result()/init()')],['update','result','constructors'])
p('H09','No undefined arithmetic or uninitialised reads on any input',
 'No operation of the library, on any valid input, shifts by an amount outside the width of the operand, overflows a signed integer, divides by zero, dereferences or computes an out-of-range pointer, or lets a value read from uninitialised storage influence a result or a branch.',
 ['inputs','histories'],'all inputs and all histories; hash algorithms, hmac<>, byte-order helpers, hash_append for scalars, get_integral_result for every supported pair of types, digest',
 'Undefined behaviour that does not change today\'s output is invisible to tests, and depends on operand values (for example large result values in a narrow multiplication).',
 ALG+LEG+HMAC+DET+HA+[HD+'get_integral_result.hpp',HD+'digest.hpp'],[('unsigned arithmetic','all'),('rotation helpers',HD+'detail/rot.hpp')],['every public operation'])
p('H10','Constant evaluation and run time compute the same values',
 'For every operation that can be constant evaluated, the branch taken during constant evaluation and the branch taken at run time produce the same object state, the same returned value and the same message bytes for all inputs.',
 ['inputs','configurations'],'all inputs; every operation whose implementation distinguishes constant evaluation (byte-order reads, memory helpers, hash_append fast paths), under C++14, 17 and 20 dispatch',
 'Tests compare compile-time and run-time results on a few short constants only.',
 DET+HA+ALG+[HD+'digest.hpp'],[('is_constant_evaluated dispatch',HD+'detail/is_constant_evaluated.hpp')],['constexpr calls of update/result/hash_append'])
p('H11','Results do not depend on the byte order or word size of the host',
 'The same message bytes produce the same results on little-endian and big-endian hosts and on 32-bit and 64-bit hosts, and objects serialised with an explicit little or big flavor produce the same message bytes on all of them.',
 ['configurations','inputs'],'host byte orders and pointer widths, all inputs',
 'The test suite runs on one x86-64 host, so the big-endian and 32-bit code paths are never even compiled.',
 ALG+LEG+HMAC+DET+HA+[HD+'endian.hpp',HD+'flavor.hpp'],[('explicit byte-order reads and writes',HD+'detail/read.hpp, write.hpp'),('endian::native',HD+'endian.hpp')],['results across targets'])
p('H12','hmac<H> is HMAC as defined by RFC 2104 for every key and message',
 'For every supported hash algorithm H, every key of any length and every message, hmac<H> yields H((K xor opad) || H((K xor ipad) || message)), where K is the key zero-padded to the block size, or the hash of the key when the key is longer than one block. A default-constructed or zero-length-keyed hmac<H> is HMAC with the empty key.',
 ['inputs'],'all keys, all key lengths, all messages, all digest algorithms with a block size',
 'Tests cover the RFC vectors; key lengths around the block size, and the block sizes of every algorithm, are sampled at most once.',
 HMAC,[('hmac<>::init, update, result',HD+'hmac.hpp')],['hmac<H>'])

p('H13','The library\'s own consistency checks never fail for valid calls',
 'No BOOST_ASSERT in the library fails in any history of valid calls: for every message length, buffer fill level and split into update() calls, with any number of copies and repeated result() calls, a build with assertions behaves like one without.',
 ['inputs','histories'],'all lengths, fill levels, histories and algorithms, with assertions compiled in',
 'Tests run a handful of lengths with assertions on; an assertion that a rare fill level violates stops a debug build of a user and signals a broken invariant in a release build.',
 ALG+LEG+HMAC,[('BOOST_ASSERT','update(), result(), detail::read/write')],['Hash::update','Hash::result'])

p('H14','Every operation returns, in work linear in the length and constant stack',
 'Every constructor, update() and result() returns for every length up to 2^60 bytes: no loop fails to advance or wraps its counter before reaching its bound. The number of loop rounds of update() and of seeded construction is at most linear in the length, that of result() is bounded by a constant, and no operation recurses or allocates stack or heap in proportion to the message.',
 ['inputs','histories'],'all lengths, fill levels and algorithms',
 'Tests hash short messages; a 32-bit counter that never reaches a length above 4 GiB, a quadratic copy, or a recursion per block is invisible at those sizes.',
 ALG+LEG+HMAC,[('block loops','update()'),('byte loops','detail/memcpy.hpp, detail/memset.hpp, legacy/*.hpp')],['Hash::update','Hash::result'])

p('A01','Scalars are serialised as exactly sizeof(T) bytes in the flavor\'s byte order',
 'hash_append of an integral, character, boolean, enumeration, pointer, null pointer or float/double value appends exactly sizeof(value) bytes that are the object representation of the value in the byte order selected by the flavor (enumerations as their underlying type, floating point as the bits of the value with negative zero replaced by positive zero), and equal values always append equal bytes.',
 ['inputs','programs'],'all values of all fundamental scalar types, enumerations and pointers, in every flavor',
 'Tests check a few values per type and flavor; the guarantee is over all values.',
 HA+DET+[HD+'flavor.hpp'],[('do_hash_append for scalar types',HA[0]),('detail::write',HD+'detail/write.hpp')],['message passed to Hash::update'])
p('A02','The contiguous fast path never changes the message',
 'Whenever hashing the raw bytes of an object or of an array of objects is used as an optimisation, the bytes appended are identical to those of the element-by-element definition for every value, so results do not depend on whether the fast path was taken. Only types in which equality of values coincides with equality of object representations, and whose representation agrees with the requested byte order, are ever hashed as raw bytes by default.',
 ['inputs','programs','configurations'],'all element types, flavors and values; single objects, arrays, C arrays and contiguous containers',
 'Tests compare the two paths on a few arrays; the trait must be right for every type category and both byte orders.',
 HA+[HD+'is_contiguously_hashable.hpp',HD+'is_endian_independent.hpp',HD+'is_trivially_equality_comparable.hpp'],[('is_contiguously_hashable dispatch',HA[0])],['message passed to Hash::update'])
p('A03','Floating-point values that compare equal hash equal',
 'hash_append appends the same bytes for positive and negative zero, and otherwise the bit pattern of the value in the flavor\'s byte order (a signalling NaN may be quieted), wherever the value occurs: alone, in arrays, in containers, and as a member of a larger object.',
 ['inputs','programs'],'all float and double values in all contexts',
 'A test of +0.0 and -0.0 in one context does not cover the other contexts in which a raw-bytes shortcut could be taken.',
 HA+[HD+'is_trivially_equality_comparable.hpp'],[('v + 0 normalisation',HA[0])],['message passed to Hash::update'])
p('A04','Ordered ranges append every element in order, then the element count',
 'hash_append of a range whose size is not part of its type (has_constant_size false) appends the message of every element, each exactly once and in iteration order, followed by the number of elements converted to the flavor\'s size_type and serialised in the flavor\'s byte order. The message is the same for every container or iterator category holding the same elements, and an empty range still appends its zero count.',
 ['inputs','programs'],'all element types, element counts, container kinds, iterator categories and flavors',
 'Tests use containers of up to a few elements of a few types.',
 HA+[HD+'flavor.hpp'],[('hash_append_range / hash_append_sized_range / hash_append_size',HA[0])],['message passed to Hash::update'])
p('A05','Fixed-size aggregates append every constituent once, in order, without a size',
 'hash_append of a C array, std::array, boost::array, digest, tuple-like or described class appends the messages of all elements (for described classes: all described base subobjects, then all described members, whatever their access) exactly once, in the order of their declaration or description and with no size, forwarding the caller\'s flavor. A constant-size object with no constituents appends a single zero byte.',
 ['inputs','programs'],'all values and all shapes of fixed-size aggregate, including nested and empty ones',
 'Tests instantiate a few shapes; order, multiplicity and flavor propagation must hold for every shape and value.',
 HA+[HD+'has_constant_size.hpp',HD+'digest.hpp'],[('do_hash_append for arrays, tuples, described classes',HA[0])],['message passed to Hash::update'])
p('A06','Every hash_append call contributes to the message',
 'Every call of hash_append, for every supported type and value, passes at least one byte to Hash::update, in particular for empty containers, empty arrays, empty tuples and classes without members, so that sequences of objects cannot collide merely because some of them are empty.',
 ['inputs','programs'],'all supported types and values',
 'Tests check a few empty types.',
 HA,[('zero-byte fallbacks',HA[0])],['calls of Hash::update'])
p('A07','Unordered ranges hash independently of element order, from the state before them',
 'hash_append of an unordered range appends a 64-bit combination that is symmetric in the elements, followed by the element count: each element contributes exactly once, through an integral result of a copy of the hash state as it was before the range, and the state itself receives nothing else. The message is therefore invariant under any permutation of iteration order and depends on the elements, on their multiplicity and on the state.',
 ['inputs','histories'],'all element counts, all orders, all prior states',
 'Tests compare two orders of small sets.',
 HA+[HD+'get_integral_result.hpp'],[('hash_append_unordered_range',HA[0])],['message passed to Hash::update'])
p('A08','User customisation and flavor reach every level of nesting',
 'For a class or enumeration type with a tag_invoke overload for hash_append, hash_append calls exactly that overload, exactly once, with the caller\'s hash object, the caller\'s flavor and the object itself, and appends nothing of its own; this holds when the object is nested in arrays, containers, tuples or described classes, and the flavor\'s byte order and size type reach every nested scalar and size.',
 ['programs','inputs'],'all nestings and all flavors',
 'Tests customise one type and hash it in a few contexts.',
 HA+[HD+'detail/has_tag_invoke.hpp'],[('tag_invoke dispatch',HA[0])],['calls of tag_invoke','message passed to Hash::update'])
p('A09','Documented type categories are accepted, unsupported types are rejected',
 'For every documented category of type exactly one serialisation applies, so that hash_append compiles and follows the documented one; types with no documented serialisation (classes without description or customisation, unions, long double, pointers to members, functions) are rejected at compile time rather than hashed as raw bytes.',
 ['programs'],'all type categories and their combinations, in every supported language mode',
 'Tests only contain programs that compile; that a program must not compile cannot be tested by running one.',
 HA+[HD+'is_contiguously_hashable.hpp',HD+'has_constant_size.hpp',HD+'is_trivially_equality_comparable.hpp',HD+'detail/has_tag_invoke.hpp'],[('enable_if constraints of do_hash_append',HA[0])],['compile success or failure'])
p('D01','digest formatting is exact and never writes outside the given buffer',
 'Formatting a digest of N bytes yields exactly 2N lowercase hexadecimal digits, two per byte, most significant nibble first, in index order, the same from to_string, to_chars and stream insertion. to_chars writes nothing outside [first, last), returns the end of the output on success and null when the space is insufficient, and the array form NUL-terminates within its array.',
 ['inputs'],'all digest values, sizes and output ranges',
 'Tests format a few digests into buffers of a few sizes.',
 [HD+'digest.hpp'],[('to_chars',HD+'digest.hpp')],['to_chars','to_string','operator<<'])
p('D02','digest is a regular array-like value',
 'A default-constructed digest is all zero bytes; size, max_size, begin/end, data, front, back and indexing expose exactly its N bytes in order and all refer to the same storage; two digests compare equal exactly when all N bytes are equal, and operator!= is the negation of operator==.',
 ['inputs'],'all digest sizes and contents',
 'Tests compare digests that differ in one or two positions.',
 [HD+'digest.hpp',HD+'detail/memcmp.hpp'],[('digest<N>',HD+'digest.hpp')],['digest<N>'])
p('G01','get_integral_result is exact, deterministic and loses no more than it must',
 'get_integral_result<T>(r) is defined for every integral T other than bool and every value of an unsigned or array-like result type, does not depend on the signedness of T, equals the little-endian value of the first bytes for array-like results and the value itself for equal widths, is injective when T is wider than the result, and gives every value of T equally often, up to rounding, when T is narrower. Signed result types, bool and array results shorter than eight bytes are rejected at compile time.',
 ['inputs','programs'],'all pairs of result type and target type, all result values',
 'Tests evaluate a handful of values per pair; injectivity and uniformity are over all values.',
 [HD+'get_integral_result.hpp'],[('multipliers per width pair',HD+'get_integral_result.hpp')],['get_integral_result'])
p('C01','Headers are self-contained and safe in many translation units',
 'Every public header compiles on its own and in any order with the others, in every supported language mode, with everything it declares usable, and can be included in any number of translation units without multiple definitions or missing definitions at link time.',
 ['configurations','programs'],'every public header, every supported language mode, both link directions',
 'The tests include headers in fixed combinations, one translation unit per program.',
 [HD+'*.hpp'],[('templates, inline and constexpr definitions','all headers')],['compilation','linking'])
p('C02','Hashing has no side effects outside its arguments',
 'No operation on hash objects, digests or hash_append of scalars and fixed-size aggregates allocates memory, throws, performs input/output, or reads or writes global or static mutable state; concurrent use of distinct objects is therefore free of data races. Digest to_string and stream insertion, which do allocate and write to their stream, share no state either.',
 ['schedules','programs'],'all schedules of operations on distinct objects',
 'Absence of hidden shared state cannot be established by single-threaded runs.',
 ALG+LEG+HMAC+DET+HA+[HD+'digest.hpp',HD+'get_integral_result.hpp'],[('pure computation','all headers')],['call graph'])
p('C03','Everything documented as constexpr is usable in constant expressions',
 'Every operation documented as constexpr (constructors, update with unsigned char const*, result, hash_append and its range forms, digest operations, get_integral_result, hmac<>) can be used in a constant expression in C++14 and later, from every fill level and for every branch.',
 ['programs','configurations'],'every documented constexpr operation, language modes C++14 to C++23',
 'Tests exercise some of the algorithms and paths in constant expressions.',
 ALG+HMAC+DET+HA+[HD+'digest.hpp',HD+'get_integral_result.hpp'],[('BOOST_CXX14_CONSTEXPR','all headers')],['constant expressions'])
p('N01','Hash results are statistically well distributed',
 'Distinct messages, seeds and repeated result() calls give values that are indistinguishable from independent uniform values for the intended use of each algorithm (avalanche, collision rate, repeated results).',
 ['inputs'],'distribution over messages, seeds and successive results',
 'Statistical quality is a statement about distributions, not about any finite sample.',
 ALG+LEG,[('the algorithms themselves','each header')],['Hash::result'])
p('N02','Hashing throughput is not degraded by how the caller splits the message',
 'The wall-clock time of hashing a message depends on its length and, up to a constant factor per call, not on how it is split into update() calls or on its contents.',
 ['inputs','schedules'],'all messages and splits, on every machine',
 'Tests do not measure time.',
 ALG+LEG+HMAC,[('block loops','update()')],['running time'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
