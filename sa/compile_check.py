"""C01 (headers), C03 (constant expressions): programs that must be accepted, and the linkage of what they define."""
import os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from .check import *
from . import check
from .hashmodel import PLAIN, LEGACY, HMACS, ALL

def modern(l): return [a for a in l if not any(x in a for x in LEGACY)]
HDR = {'fnv1a': 'fnv1a', 'siphash': 'siphash', 'xxhash': 'xxhash', 'md5': 'md5', 'sha1': 'sha1', 'sha2': 'sha2', 'ripemd': 'ripemd'}
def header(a):
    a = a.replace('hmac_', '')
    return next(HDR[k] for k in HDR if a.startswith(k))
def cppname(a): return 'hmac<%s>' % a[5:-2] if a.startswith('hmac_') else a

# ------------------------------------------------------------------ C03: hash algorithms
ALGSRC = r'''
#include <boost/hash2/%(hdr)s.hpp>
%(extra)s
#include <cstdint>
#include <cstddef>
using namespace boost::hash2;
typedef %(cpp)s H;
struct M { unsigned char d[ 700 ]; };
constexpr M fill( unsigned a, unsigned b ) { M m = {}; for( unsigned i = 0; i < 700; ++i ) m.d[ i ] = static_cast<unsigned char>( i * a + b + ( i >> 8 ) ); return m; }
constexpr M m0 = fill( 37, 11 );
template<class R> constexpr bool same( R const& a, R const& b ) { return a == b; }
// whole messages of every length in [lo, hi)
constexpr unsigned whole( std::size_t lo, std::size_t hi )
{
    unsigned r = 0;
    for( std::size_t n = lo; n < hi; ++n ) { H h; h.update( m0.d, n ); r += same( h.result(), h.result() ); }
    return r;
}
// two pieces, and continuation after result()
constexpr unsigned pieces( std::size_t n, std::size_t k )
{
    H h( 0x0123456789abcdefull );
    h.update( m0.d, n ); h.update( m0.d + n, k ); h.update( m0.d, 0 ); h.update( static_cast<unsigned char const*>( nullptr ), 0 );
    H c( h ); H d; d = c;
    unsigned r = same( h.result(), c.result() );
    h.update( m0.d, 3 ); d.update( m0.d + 1, 70 );
    r += same( h.result(), d.result() );
    return r;
}
// construction
constexpr unsigned keyed( std::size_t lo, std::size_t hi )
{
    unsigned r = 0;
    for( std::size_t n = lo; n < hi; ++n ) { H h( m0.d, n ); h.update( m0.d, 5 ); r += same( h.result(), h.result() ); }
    return r;
}
constexpr unsigned seeds()
{
    H a( std::uint64_t( 0 ) ), b( std::uint64_t( 1 ) ), c( ~std::uint64_t( 0 ) ), e( nullptr, 0 ), f = H();
    return same( a.result(), b.result() ) + same( c.result(), e.result() ) + same( f.result(), a.result() );
}
constexpr H object( 42 );
constexpr H copy( object );
static_assert( H::block_size > 0 || true, "" );
static_assert( ( seeds(), true ), "seeds" );
'''
NOBLOCK = ('fnv1a', 'siphash', 'xxhash')
def block(a):
    a = a.replace('hmac_', '')
    return 1 if a.startswith('fnv1a') else 4 if a.startswith('siphash_32') else 8 if a.startswith('siphash_64') else 16 if a.startswith('xxhash_32') else 32 if a.startswith('xxhash_64') else 128 if a.startswith(('sha2_384', 'sha2_512')) else 64
def alg_source(a, tier):
    s = ALGSRC % {'hdr': header(a), 'cpp': cppname(a), 'extra': '#include <boost/hash2/hmac.hpp>' if a.startswith('hmac') else ''}
    if a.startswith(NOBLOCK): s = s.replace('static_assert( H::block_size > 0 || true, "" );\n', '')
    B = block(a); big = B >= 64
    top = 2*B+2 if not a.startswith('hmac') else B+2
    step = 1
    ob = []
    lens = sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, B-17, B-16, B-9, B-8, B-1, B, B+1, 2*B-9, 2*B-1, 2*B, 2*B+1, 3*B, 3*B+1} & set(range(0, 400)))
    if tier != 'quick' or not big:
        for lo in range(0, max(top, 40), 16): ob.append(('update and result of every length from %d' % lo, 'whole( %d, %d )' % (lo, lo+16)))
    else:
        for n in lens: ob.append(('update and result of length %d' % n, 'whole( %d, %d )' % (n, n+1)))
    ps = [(i, j) for i in sorted({0, 1, B-1, B, B+1, 2*B}) for j in sorted({1, B-1, B, B+1, 3*B-1})]
    if tier != 'quick' and B <= 64: ps = [(i, j) for i in range(0, B+1) for j in sorted({1, B-i if B > i else 1, 2*B-i, 2*B-i+1})]
    if tier == 'quick' and a.startswith('hmac'): ps = ps[::3]
    for i, j in ps: ob.append(('pieces of %d and %d bytes, copies, continuation after result' % (i, j), 'pieces( %d, %d )' % (i, j)))
    ks = sorted({0, 1, 7, 8, 9, 15, 16, 17, B-1, B, B+1, 2*B, 2*B+1})
    for n in ks: ob.append(('byte sequence of %d bytes as seed' % n, 'keyed( %d, %d )' % (n, n+1)))
    return s, ob
# ------------------------------------------------------------------ C03: hash_append, digest, get_integral_result
APP = r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/hmac.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/describe.hpp>
#include <boost/container_hash/is_unordered_range.hpp>
#include <array>
#include <tuple>
#include <utility>
#include <vector>
#include <string>
#include <cstdint>
using namespace boost::hash2;
typedef unsigned char B;
enum E0 { e0 = 3 }; enum class E1 : unsigned short { a = 7 }; enum class E2 : signed char { a = -7 };
struct X { int a; short b; };
BOOST_DESCRIBE_STRUCT( X, (), (a, b) )
struct Y0 {}; BOOST_DESCRIBE_STRUCT( Y0, (), () )
struct Y: X { constexpr Y( int i ): X{ i, 2 }, c( i ) {} bool c; private: double d = 1.5; BOOST_DESCRIBE_CLASS( Y, (X), (c), (), (d) ) };
struct Z { int v; template<class H, class F> friend constexpr void tag_invoke( hash_append_tag const&, H& h, F const& f, Z const& z ) { hash_append( h, f, z.v ); } };
struct Str { static constexpr std::size_t N = 8; typedef char value_type; typedef char const* iterator; typedef char const* const_iterator; typedef char const& reference; typedef char const& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  std::uint8_t n; char d[ N ]; constexpr char const* begin() const { return d; } constexpr char const* end() const { return d + n; } constexpr char const* data() const { return d; } constexpr std::size_t size() const { return n; } };
struct Ints { typedef int value_type; struct iterator { typedef int value_type; typedef int const& reference; typedef int const* pointer; typedef std::ptrdiff_t difference_type; typedef std::forward_iterator_tag iterator_category;
    int const* p; constexpr int const& operator*() const { return *p; } constexpr iterator& operator++() { ++p; return *this; } constexpr iterator operator++( int ) { iterator r = *this; ++p; return r; } friend constexpr bool operator==( iterator a, iterator b ) { return a.p == b.p; } friend constexpr bool operator!=( iterator a, iterator b ) { return a.p != b.p; } };
  typedef iterator const_iterator; int d[ 4 ]; std::size_t n; constexpr iterator begin() const { return { d }; } constexpr iterator end() const { return { d + n }; } };
struct Un: Ints { constexpr Un( int a, int b, std::size_t k ): Ints{ { a, b, 5, 6 }, k } {} };
struct Kx: Ints { constexpr Kx( int a ): Ints{ { a, 2, 5, 6 }, 4 } {} static constexpr std::size_t size() { return 4; } };
namespace boost { namespace container_hash { template<> struct is_unordered_range<Un>: std::integral_constant<bool, true> {}; } }
namespace boost { namespace hash2 { template<> struct has_constant_size<Kx>: std::integral_constant<bool, true> {}; } }
struct Tr { int a, b; }; // trivially equality comparable
namespace boost { namespace hash2 { template<> struct is_trivially_equality_comparable<Tr>: std::true_type {}; } }
template<class H, class F, class T> constexpr typename H::result_type one( T const& v ) { H h; hash_append( h, F(), v ); h.update( static_cast<unsigned char const*>( nullptr ), 0 ); return h.result(); }
template<class H, class F, class T, std::size_t N> constexpr typename H::result_type range( T const (&v)[ N ], std::size_t a, std::size_t b ) { H h( 7 ); hash_append_range( h, F(), v + a, v + b ); hash_append_sized_range( h, F(), v + a, v + b ); hash_append_unordered_range( h, F(), v + a, v + b ); hash_append_size( h, F(), b - a ); return h.result(); }
template<class H, class F> constexpr typename H::result_type bytes() { H h; unsigned char d[ 5 ] = { 1, 2, 3, 4, 5 }; hash_append_range( h, F(), d, d + 5 ); hash_append_range( h, F(), d, d ); unsigned char const* p = d; hash_append_range( h, F(), p, p + 3 ); hash_append( h, F(), d ); return h.result(); }
template<class H, class F> constexpr typename H::result_type iters() { H h; Ints q{ { 1, 2, 3, 4 }, 3 }; hash_append_range( h, F(), q.begin(), q.end() ); hash_append_sized_range( h, F(), q.begin(), q.end() ); hash_append_unordered_range( h, F(), q.begin(), q.end() ); return h.result(); }
template<class H> constexpr typename H::result_type dflt() { H h; hash_append( h, {}, 1 ); B d[ 2 ] = { 1, 2 }; hash_append_range( h, {}, d, d + 2 ); hash_append_sized_range( h, {}, d, d + 2 ); hash_append_unordered_range( h, {}, d, d + 2 ); hash_append_size( h, {}, 2 ); return h.result(); }
#define USE( ... ) static_assert( ( ( __VA_ARGS__ ), true ), "" )
'''
# (name, expression with T standing for the call prefix, least language mode)
VALS = [('bool', 'true', 14), ('char', "'a'", 14), ('signed char', '(signed char)-1', 14), ('unsigned char', '(unsigned char)200', 14), ('char16_t', "u'x'", 14), ('char32_t', "U'x'", 14), ('wchar_t', "L'x'", 14), ('short', '(short)-2', 14), ('unsigned short', '(unsigned short)2', 14), ('int', '-5', 14), ('unsigned', '5u', 14),
    ('long', '-5l', 14), ('unsigned long', '5ul', 14), ('long long', '-5ll', 14), ('unsigned long long', '5ull', 14), ('unscoped enumeration', 'e0', 14), ('scoped enumeration', 'E1::a', 14), ('signed scoped enumeration', 'E2::a', 14), ('float', '1.5f', 14), ('negative zero float', '-0.0f', 14), ('double', '-1.5', 14), ('negative zero double', '-0.0', 14),
    ('std::pair', 'std::pair<int, short>( 1, 2 )', 14), ('std::tuple', 'std::tuple<int, char, bool>( 1, (char)2, true )', 14), ('empty std::tuple', 'std::tuple<>()', 14), ('digest', 'digest<5>{ { 1, 2, 3, 4, 5 } }', 14), ('tag_invoke class', 'Z{ 4 }', 14), ('contiguous range', 'Str{ 3, { 1, 2, 3 } }', 14), ('empty contiguous range', 'Str{ 0, {} }', 14), ('forward range', 'Ints{ { 1, 2, 3, 4 }, 3 }', 14), ('empty forward range', 'Ints{ {}, 0 }', 14),
    ('unordered range', 'Un( 1, 2, 4 )', 14), ('empty unordered range', 'Un( 1, 2, 0 )', 14), ('constant size range', 'Kx( 1 )', 14), ('pair of ranges', 'std::pair<Str, Ints>( Str{ 3, { 1, 2, 3 } }, Ints{ { 1, 2, 3, 4 }, 3 } )', 14),
    ('std::array of int', 'std::array<int, 3>{ { 1, 2, 3 } }', 14), ('std::array of bytes', 'std::array<unsigned char, 3>{ { 1, 2, 3 } }', 14), ('std::array of ranges', 'std::array<Ints, 2>{ { Ints{ { 1, 2, 3, 4 }, 3 }, Ints{ {}, 0 } } }', 14), ('empty std::array', 'std::array<int, 0>{}', 14), ('std::array of arrays', 'std::array<std::array<short, 2>, 2>{}', 14),
    ('described class', 'X{ 1, 2 }', 17), ('described class with base and private members', 'Y( 4 )', 17), ('empty described class', 'Y0()', 17), ('array of described classes', 'std::array<X, 2>{}', 17),
    ('std::string', 'std::string( "abc" )', 20), ('std::vector', 'std::vector<int>{ 1, 2, 3 }', 20)]
ARRS = [('int[3]', 'int', '{ 1, 2, 3 }', 3), ('unsigned char[4]', 'unsigned char', '{ 1, 2, 3, 4 }', 4), ('char[4]', 'char', '{ 1, 2, 3, 4 }', 4), ('bool[2]', 'bool', '{ true, false }', 2), ('double[2]', 'double', '{ 1.5, -0.0 }', 2), ('E1[2]', 'E1', '{ E1::a, E1::a }', 2), ('Z[2]', 'Z', '{ { 1 }, { 2 } }', 2), ('Str[2]', 'Str', '{ { 1, { 1 } }, { 0, {} } }', 2), ('unsigned long long[2]', 'unsigned long long', '{ 1, 2 }', 2)]
FL = ['default_flavor', 'little_endian_flavor', 'big_endian_flavor']
def app_source(std):
    ob = []; s = APP
    if std >= 17: pass
    for f in FL:
        for n, v, m in VALS:
            if std >= m:
                for h in ('md5_128',) if f != FL[0] else ('md5_128', 'xxhash_64', 'hmac<sha2_256>'): ob.append(('hash_append of %s, %s, %s' % (n, f, h), 'one<%s, %s>( %s )' % (h, f, v)))
        for i, (n, t, v, k) in enumerate(ARRS):
            if f == FL[0]: s += 'constexpr %s arr%d[] = %s; constexpr %s arr2_%d[ 2 ][ %d ] = { %s, %s };\n' % (t, i, v, t, i, k, v, v)
            ob.append(('hash_append of %s, %s' % (n, f), 'one<md5_128, %s>( arr%d )' % (f, i)))
            ob.append(('hash_append of an array of %s, %s' % (n, f), 'one<fnv1a_64, %s>( arr2_%d )' % (f, i)))
            ob.append(('range functions on %s, %s' % (n, f), 'range<md5_128, %s>( arr%d, 0, %d )' % (f, i, k)))
            ob.append(('range functions on %s, empty, %s' % (n, f), 'range<xxhash_32, %s>( arr%d, 1, 1 )' % (f, i)))
        for h in ('fnv1a_32', 'xxhash_64', 'md5_128', 'sha2_512'):
            ob.append(('hash_append_range of bytes, %s, %s' % (f, h), 'bytes<%s, %s>()' % (h, f)))
            ob.append(('range functions on iterators, %s, %s' % (f, h), 'iters<%s, %s>()' % (h, f)))
    for h in ('fnv1a_32', 'xxhash_64', 'md5_128', 'hmac<md5_128>'): ob.append(('default flavor from {}, %s' % h, 'dflt<%s>()' % h))
    # digest
    s += r'''
template<std::size_t N> constexpr int dig()
{
    unsigned char a[ N ] = {}; for( std::size_t i = 0; i < N; ++i ) a[ i ] = static_cast<unsigned char>( 17 * i + 200 );
    digest<N> d( a ), e, g{}, c( d ); digest<N> const k( a ); e = d;
    int r = ( d == e ) + ( d != g ) + ( c == k ) + ( e != k );
    for( unsigned char* p = d.begin(); p != d.end(); ++p ) r += *p;
    for( unsigned char const* p = k.begin(); p != k.end(); ++p ) r += *p;
    for( std::size_t i = 0; i < N; ++i ) { d[ i ] = k[ i ]; r += d.data()[ i ] + k.data()[ i ]; }
    d.front() = k.back(); d.back() = k.front();
    r += static_cast<int>( k.size() + k.max_size() );
    return r;
}
template<std::size_t N> constexpr int text()
{
    unsigned char a[ N ] = {}; for( std::size_t i = 0; i < N; ++i ) a[ i ] = static_cast<unsigned char>( 17 * i + 200 );
    digest<N> d( a ); char t[ 2*N+1 ] = {}; char u[ 2*N+5 ] = {};
    to_chars( d, t ); to_chars( d, u );
    char* p = to_chars( d, u, u + 2*N ); char* q = to_chars( d, u, u + 2*N - 1 ); char* z = to_chars( d, u, u );
    return t[ 0 ] + ( p == u + 2*N ) + ( q == nullptr ) + ( z == nullptr );
}
'''
    for n in (1, 2, 4, 8, 16, 20, 28, 32, 48, 64): ob += [('digest<%d> operations' % n, 'dig<%d>()' % n), ('digest<%d> to_chars' % n, 'text<%d>()' % n)]
    for t in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long'):
        for r in ('(unsigned char)255', '(unsigned short)65535', '4294967295u', '18446744073709551615ull', '(unsigned char)0', '(unsigned short)1', '12345u', '1234567890123ull'):
            ob.append(('get_integral_result<%s>( %s )' % (t, r), 'get_integral_result<%s>( %s )' % (t, r)))
        ob.append(('get_integral_result<%s>( digest<16> )' % t, 'get_integral_result<%s>( digest<16>() )' % t))
        if std >= 17: ob.append(('get_integral_result<%s>( std::array )' % t, 'get_integral_result<%s>( std::array<unsigned char, 8>{} )' % t))
    return s, ob
CCFLAGS = {'clang++-18': ['-fconstexpr-steps=2147483647', '-fconstexpr-depth=4096', '-ferror-limit=0'], 'g++': ['-fconstexpr-ops-limit=17179869184', '-fconstexpr-loop-limit=2147483647', '-fconstexpr-depth=4096', '-fmax-errors=0']}
def witness(w, name, src, obl, std, cc):
    """(compiles, {index: message}) : every obligation is one static_assert line"""
    lines = src.count('\n')
    text = src+''.join('static_assert( ( (void)( %s ), true ), "" );\n' % e for _, e in obl)
    p = os.path.join(w.dir, '%s.cpp' % name)
    with open(p, 'w') as f: f.write(text)
    cmd = [cc, '-std=c++%d' % std, '-fsyntax-only', '-w', '-I'+check.REPO+'/include', p]+CCFLAGS[cc]
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired: return None, {}
    if r.returncode == 0: return True, {}
    bad = {}; base = os.path.basename(p)
    for l in r.stderr.splitlines():
        if base+':' not in l: continue
        b = l.split(base+':', 1)[1].split(':')
        if not b[0].isdigit(): continue
        k = int(b[0])-1-lines
        if ': error:' in l: bad.setdefault(k if 0 <= k < len(obl) else -1, l.split('error:', 1)[1].strip()[:300])
    if not bad: bad[-1] = next((l for l in r.stderr.splitlines() if 'error' in l), r.stderr[:300])[-400:]
    why = [l for l in r.stderr.splitlines() if 'note:' in l or ' in ' in l and 'constexpr' in l]
    return False, {k: m+(' | '+' | '.join(x.split('note:')[-1].strip()[:160] for x in why[:2]) if why else '') for k, m in bad.items()}
def c03(w, tier, rule, trust, assume):
    R = Report('C03', tier, 'proof')
    cfg = [('clang++-18', 14), ('g++', 14), ('g++', 17), ('clang++-18', 20)] if tier == 'quick' else [(c, s) for c in ('clang++-18', 'g++') for s in (14, 17, 20, 23)]
    cfga = [(c, s) for c in ('clang++-18', 'g++') for s in ((14, 17, 20) if tier == 'quick' else (14, 17, 20, 23))]
    jobs = []
    for a in modern(PLAIN)+modern(HMACS):
        src, ob = alg_source(a, tier)
        for cc, std in (cfg if tier != 'quick' or not a.startswith('hmac') else [('clang++-18', 14), ('g++', 17)]):
            n = 1 if tier == 'quick' else 4
            for i in range(n): jobs.append((cppname(a), src, ob[i::n], std, cc, i))
    for cc, std in cfga:
        src, ob = app_source(std); n = 2
        for i in range(n): jobs.append(('hash_append, digest, get_integral_result', src, ob[i::n], std, cc, i))
    jobs.sort(key=lambda j: -len(j[2]) if 'hash_append' not in j[0] else -10**6)
    def one(k):
        a, src, ob, std, cc, i = jobs[k]
        if time.time()-R.t0 > (500 if tier == 'quick' else 750): return k, None, {}
        return (k,)+witness(w, 'cx%d' % k, src, ob, std, cc)
    with ThreadPoolExecutor(8) as ex:
        for k, ok, bad in ex.map(one, range(len(jobs))):
            a, src, ob, std, cc, i = jobs[k]; lab = '%s C++%d %s' % (cc, std, a)
            if ok is None: R.add(lab, 'constant expressions', 'unknown', 'time limit'); continue
            if -1 in bad and len(bad) == 1:
                R.add(lab, 'definitions', 'violated', bad[-1], 'program using %s' % a); continue
            for j, (n, e) in enumerate(ob):
                if j in bad: R.add(lab, n, 'violated', {'what': bad[j], 'witness': e}, e)
                else: R.add(lab, n, 'proved')
    R.stats['programs'] = len(jobs)
    return R.finish(rule, trust, '/verif/bin/check C03 --tier %s' % tier, assume)

# ------------------------------------------------------------------ C01: headers
def alg_use(names, extra=''):
    s = ''
    for n in names:
        s += '''inline unsigned %(f)s( void const* p, std::size_t n )
{
    unsigned char b[ 3 ] = { 1, 2, 3 };
    boost::hash2::%(n)s h, k( n ), s( b, 3 ); boost::hash2::%(n)s c( h );
    h.update( p, n ); h.update( b, 3 ); k.update( static_cast<unsigned char const*>( p ), n ); c = k;
    boost::hash2::%(n)s::result_type r = h.result(), q = c.result();
    return ( r == q ) + ( s.result() != r ) + static_cast<unsigned>( sizeof( h ) );
}
''' % {'n': n, 'f': 'use_'+n.replace('<', '_').replace('>', '').replace('boost::hash2::', '')}
    return s+extra
CALLALG = lambda names: ''.join('    r += use_%s( p, n );\n' % n.replace('<', '_').replace('>', '').replace('boost::hash2::', '') for n in names)
SHA2 = ['sha2_256', 'sha2_224', 'sha2_512', 'sha2_384', 'sha2_512_224', 'sha2_512_256']
TOY = '''struct toy { typedef unsigned result_type; static constexpr int block_size = 64; unsigned v;
    toy(): v( 0 ) {} explicit toy( unsigned long long s ): v( static_cast<unsigned>( s ) ) {} toy( unsigned char const* p, std::size_t n ): v( 1 ) { update( p, n ); }
    void update( void const* p, std::size_t n ) { unsigned char const* q = static_cast<unsigned char const*>( p ); for( ; n; --n, ++q ) v = v * 31 + *q; } void update( unsigned char const* p, std::size_t n ) { update( static_cast<void const*>( p ), n ); } unsigned result() { return v; } };
'''
# header -> (declarations, statements adding to r)
USES = {
 'fnv1a': (alg_use(['fnv1a_32', 'fnv1a_64']), CALLALG(['fnv1a_32', 'fnv1a_64'])),
 'siphash': (alg_use(['siphash_32', 'siphash_64']), CALLALG(['siphash_32', 'siphash_64'])),
 'xxhash': (alg_use(['xxhash_32', 'xxhash_64']), CALLALG(['xxhash_32', 'xxhash_64'])),
 'md5': (alg_use(['md5_128']), CALLALG(['md5_128'])+'    { boost::hash2::hmac_md5_128 m; m.update( p, n ); r += m.result()[ 0 ]; }\n'),
 'sha1': (alg_use(['sha1_160']), CALLALG(['sha1_160'])+'    { boost::hash2::hmac_sha1_160 m; m.update( p, n ); r += m.result()[ 0 ]; }\n'),
 'sha2': (alg_use(SHA2), CALLALG(SHA2)+'    { boost::hash2::hmac_sha2_256 m; m.update( p, n ); r += m.result()[ 0 ]; }\n    { boost::hash2::hmac_sha2_512 m; m.update( p, n ); r += m.result()[ 0 ]; }\n'),
 'ripemd': (alg_use(['ripemd_160', 'ripemd_128']), CALLALG(['ripemd_160', 'ripemd_128'])+'    { boost::hash2::hmac_ripemd_160 m; m.update( p, n ); r += m.result()[ 0 ]; }\n'),
 'legacy/murmur3': (alg_use(['murmur3_32', 'murmur3_128']), CALLALG(['murmur3_32', 'murmur3_128'])),
 'legacy/spooky2': (alg_use(['spooky2_128']), CALLALG(['spooky2_128'])),
 'hmac': ('#include <array>\n'+TOY.replace('typedef unsigned result_type', 'typedef std::array<unsigned char, 4> result_type').replace('unsigned result() { return v; }', 'result_type result() { return {{ static_cast<unsigned char>( v ), 1, 2, 3 }}; }'), '    { boost::hash2::hmac<toy> h, k( n ), s( static_cast<unsigned char const*>( p ), n ), c( h ); h.update( p, n ); k.update( static_cast<unsigned char const*>( p ), n ); c = s; r += h.result()[ 0 ] + k.result()[ 0 ] + c.result()[ 1 ]; }\n'),
 'digest': ('#include <sstream>\n', '    { unsigned char a[ 4 ] = { 1, 2, 3, 4 }; boost::hash2::digest<4> d( a ), e; char t[ 9 ]; to_chars( d, t ); char* q = to_chars( d, t, t + 8 ); r += ( d == e ) + ( d != e ) + d[ 1 ] + d.front() + d.back() + static_cast<unsigned>( d.size() + d.max_size() + ( d.end() - d.begin() ) + ( q - t ) ) + *d.data(); r += static_cast<unsigned>( to_string( d ).size() ); std::ostringstream o; o << d; r += static_cast<unsigned>( o.str().size() ); }\n'),
 'get_integral_result': ('#include <array>\n', '    { std::array<unsigned char, 8> a = {{ 1, 2, 3, 4, 5, 6, 7, 8 }}; r += boost::hash2::get_integral_result<unsigned>( a ) + static_cast<unsigned>( boost::hash2::get_integral_result<unsigned char>( 5ull ) + boost::hash2::get_integral_result<unsigned long long>( (unsigned char)5 ) + boost::hash2::get_integral_result<int>( 5u ) + boost::hash2::get_integral_result<short>( 5ull ) ); }\n'),
 'endian': ('', '    r += boost::hash2::endian::native == boost::hash2::endian::little || boost::hash2::endian::native == boost::hash2::endian::big;\n'),
 'flavor': ('template<class F> unsigned flav() { return sizeof( typename F::size_type ) + static_cast<unsigned>( F::byte_order ); }\n', '    r += flav<boost::hash2::default_flavor>() + flav<boost::hash2::little_endian_flavor>() + flav<boost::hash2::big_endian_flavor>();\n'),
 'has_constant_size': ('#include <array>\n#include <vector>\n', '    r += boost::hash2::has_constant_size< std::array<int, 3> >::value + boost::hash2::has_constant_size< std::vector<int> >::value;\n'),
 'is_contiguously_hashable': ('', '    r += boost::hash2::is_contiguously_hashable< int, boost::hash2::endian::little >::value + boost::hash2::is_contiguously_hashable< int[3], boost::hash2::endian::big >::value;\n'),
 'is_endian_independent': ('', '    r += boost::hash2::is_endian_independent<char>::value + boost::hash2::is_endian_independent<int[2]>::value;\n'),
 'is_trivially_equality_comparable': ('', '    r += boost::hash2::is_trivially_equality_comparable<int>::value + boost::hash2::is_trivially_equality_comparable<float[2]>::value;\n'),
 'hash_append_fwd': ('struct fw { int v; template<class H, class F> friend void tag_invoke( boost::hash2::hash_append_tag const&, H& h, F const& f, fw const& x ) { boost::hash2::hash_append( h, f, x.v ); boost::hash2::hash_append_size( h, f, x.v ); boost::hash2::hash_append_range( h, f, &x.v, &x.v + 1 ); boost::hash2::hash_append_sized_range( h, f, &x.v, &x.v + 1 ); boost::hash2::hash_append_unordered_range( h, f, &x.v, &x.v + 1 ); } };\n', '    r += sizeof( fw );\n'),
 'hash_append': (TOY.replace('struct toy', 'struct toy2').replace('toy()', 'toy2()').replace('toy(', 'toy2(').replace('toy22', 'toy2')+'''#include <vector>
#include <list>
#include <set>
#include <map>
#include <unordered_set>
#include <string>
#include <utility>
#include <tuple>
#include <array>
enum eu { eu0 }; enum class es : short { a };
''', '''    { toy2 h; using namespace boost::hash2; int a[ 3 ] = { 1, 2, 3 }; unsigned char b[ 2 ] = { 1, 2 }; default_flavor d = {}; little_endian_flavor l = {}; big_endian_flavor g = {};
      hash_append( h, d, 1 ); hash_append( h, l, 'a' ); hash_append( h, g, 1.5f ); hash_append( h, d, 2.5 ); hash_append( h, l, true ); hash_append( h, g, 1ull ); hash_append( h, d, a ); hash_append( h, g, b ); hash_append( h, d, &a ); hash_append( h, d, nullptr ); hash_append( h, g, eu0 ); hash_append( h, g, es::a );
      hash_append_range( h, g, a, a + 3 ); hash_append_sized_range( h, l, a, a + 3 ); hash_append_unordered_range( h, d, a, a + 3 ); hash_append_size( h, d, 3 ); hash_append_range( h, d, b, b + 2 ); hash_append_range( h, {}, b, b + 2 ); hash_append( h, {}, 3 );
      hash_append( h, g, std::vector<int>() ); hash_append( h, d, std::vector<bool>() ); hash_append( h, l, std::list<std::string>() ); hash_append( h, d, std::set<int>() ); hash_append( h, g, std::map<int, std::string>() ); hash_append( h, d, std::unordered_set<int>() ); hash_append( h, d, std::pair<int, char>() ); hash_append( h, d, std::tuple<int, char, std::string>() ); hash_append( h, g, std::tuple<>() ); hash_append( h, d, std::array<int, 3>() ); hash_append( h, d, std::array<int, 0>() ); r += h.result(); }
'''),
}
def headers():
    base = os.path.join(check.REPO, 'include'); out = []
    for d, _, fs in os.walk(os.path.join(base, 'boost', 'hash2')):
        for f in sorted(fs):
            if f.endswith('.hpp'): out.append(os.path.relpath(os.path.join(d, f), base))
    return sorted(out)
def key(h): return h[len('boost/hash2/'):-4]
def unit(hs, name, std=0):
    """a translation unit that includes the headers, in order, and uses what they declare"""
    s = ''.join('#include <%s>\n' % h for h in hs)+''.join('#include <%s>\n' % h for h in hs)
    body = ''
    for i, h in enumerate(hs):
        u = USES.get(key(h))
        if not u: continue
        inc = ''.join(l+'\n' for l in u[0].splitlines() if l.startswith('#include')); rest = ''.join(l+'\n' for l in u[0].splitlines() if not l.startswith('#include'))
        s += inc+'#include <cstddef>\nnamespace tu_%s { namespace n%d {\n%s}}\n' % (name, i, rest)
        body += 'namespace n%d {\nunsigned all( void const* p, std::size_t n )\n{\n    unsigned r = 0; (void)p; (void)n;\n%s    return r;\n}}\n' % (i, u[1])
    return s+('namespace tu_%s {\n%s}\n' % (name, body) if body else '')
def c01(w, tier, rule, trust, assume):
    import random
    R = Report('C01', tier, 'proof')
    hs = headers(); pub = [h for h in hs if '/detail/' not in h]
    missing = [k for k in USES if 'boost/hash2/%s.hpp' % k not in hs]
    for k in missing: R.add(k+'.hpp', 'exists', 'unknown', 'header not found')
    stds = (11, 14, 17, 20) if tier == 'quick' else (11, 14, 17, 20, 23)
    progs = []     # (label, obligation, source, std, cc, ir)
    for h in hs:
        for cc in ('clang++-18', 'g++'):
            for std in stds: progs.append(('%s C++%d %s' % (cc, std, h), 'compiles alone, with everything it declares used', unit([h], 'a'), std, cc, cc == 'clang++-18' and std in (11, 17) or tier != 'quick' and cc == 'clang++-18'))
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    orders = [('alphabetical', pub), ('reverse alphabetical', pub[::-1])]
    for k in range(3 if tier == 'quick' else 20):
        p = list(pub); rnd.shuffle(p); orders += [('order %d' % k, p), ('order %d reversed' % k, p[::-1])]
    for n, p in orders:
        for cc, std in (('clang++-18', 17), ('g++', 11)): progs.append(('%s C++%d all headers, %s' % (cc, std, n), 'compiles', unit(p, 'a'), std, cc, cc == 'clang++-18' and n == 'alphabetical'))
    if tier != 'quick':
        for a in pub:
            for b in pub:
                if a != b: progs.append(('C++17 %s before %s' % (key(a), key(b)), 'compiles', unit([a, b], 'a'), 17, 'clang++-18', False))
    fns = set()
    def one(k):
        lab, ob, src, std, cc, ir = progs[k]
        p = os.path.join(w.dir, 'h%d.cpp' % k)
        with open(p, 'w') as f: f.write(src)
        cmd = [cc, '-std=c++%d' % std, '-w', '-I'+check.REPO+'/include', p]
        o = os.path.join(w.dir, 'h%d.bc' % k)
        cmd += ['-O0', '-DNDEBUG', '-emit-llvm', '-c', '-o', o] if ir else ['-fsyntax-only']
        r = subprocess.run(cmd, capture_output=True, text=True)
        return k, r.returncode == 0, next((l for l in r.stderr.splitlines() if 'error' in l), r.stderr[-300:])[:300], o if ir else None
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(len(progs))))
    syms = {}
    for k, ok, err, o in res:
        lab, ob, src, std, cc, ir = progs[k]
        R.add(lab, ob, 'proved' if ok else 'violated', None if ok else {'what': err, 'witness': 'g++/clang++ -fsyntax-only of a program that includes it'}, lab.split(' ', 2)[-1])
        if ok and o: symbols(R, lab, o, fns)
    R.fns = fns; R.stats['programs'] = len(progs)
    return R.finish(rule, trust, '/verif/bin/check C01 --tier %s' % tier, assume)
def symbols(R, lab, bc, fns):
    """linkage of every library function and variable the unit defines, definitions of all it needs"""
    from . import llvmc
    from .interp import demangle
    m = llvmc.Module(bc)
    for g in list(m.fns.values())+list(m.globals.values()):
        lib = LIBNAME.match(g.name)
        decl = g.decl if hasattr(g, 'decl') else g.init is None
        if decl:
            if lib: R.add(lab, 'defined: '+demangle(g.name), 'violated', 'used by the header but defined nowhere in it', demangle(g.name))
        elif g.linkage in STRONG:
            if not g.name.startswith(('_ZN4tu_a', 'llvm.')): R.add(lab, 'one definition: '+demangle(g.name), 'violated', 'a strong definition: including the header in two translation units gives multiple definitions', demangle(g.name))
        elif lib: fns.add(demangle(g.name)); R.add(lab, 'one definition: '+demangle(g.name), 'proved')
import re
LIBNAME = re.compile('^_Z(GV|TV|TI|TS|TT|GR|Z|L)*N[KVrRO]*5boost5hash2')
STRONG = (0, 7, 14)   # external, appending, common
