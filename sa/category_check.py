"""Which types hash_append accepts, which it rejects, and which may be hashed as raw bytes."""
from .value_check import judge
PRE = r'''#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/describe/class.hpp>
#include <boost/describe/enum.hpp>
#include <boost/array.hpp>
#include <array>
#include <atomic>
#include <bitset>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <vector>
#if __cplusplus >= 201703L
#include <optional>
#include <string_view>
#include <variant>
#endif
#if __cplusplus >= 202002L
#include <span>
#endif
using namespace boost::hash2;
'''
def call(t, flavors=('default_flavor', 'little_endian_flavor', 'big_endian_flavor')):
    return ''.join('void f%d( fnv1a_32& h, sha2_256& g, %s const& v ) { hash_append( h, %s(), v ); hash_append( g, %s(), v ); }\n' % (i, t, f, f) for i, f in enumerate(flavors))
def simple(names, std=11): return [(n, '', 'T', 'typedef %s T;\n' % n, std) for n in names]
INV = 'template<class Hash, class Flavor> friend void tag_invoke( hash_append_tag const&, Hash& h, Flavor const& f, %s const& v ) { hash_append( h, f, v.x ); }'
BODY = 'typedef int value_type; typedef int const* iterator; typedef int const* const_iterator; int b[ 3 ]; iterator begin() const { return b; } iterator end() const { return b + 3; } '
CON = 'int const* data() const { return b; } std::size_t size() const { return 3; } int const& front() const { return b[ 0 ]; } '
UN = 'typedef int key_type; struct hasher {}; '
TS = 'namespace std { template<> struct tuple_size<S>: std::integral_constant<std::size_t, %d> {}; }\n'
GET = 'template<std::size_t I> int const& get( S const& v ) { return v.x; }\n'
D = 'BOOST_DESCRIBE_CLASS(S, (), (%s), (), ()) '
def accepted():
    out = []
    for n in ['bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'wchar_t', 'char16_t', 'char32_t', 'float', 'double', 'std::nullptr_t', 'void*', 'void const*', 'int*', 'int**', 'void (*)( int )',
        'int[ 3 ]', 'int[ 2 ][ 3 ]', 'double[ 1 ]', 'char[ 4 ]', 'int* [ 2 ]', 'std::array<int, 3>', 'std::array<int, 0>', 'std::array<std::array<char, 2>, 3>', 'std::array<std::string, 2>', 'boost::array<int, 3>', 'boost::array<double, 0>', 'digest<1>', 'digest<16>', 'digest<64>',
        'std::vector<int>', 'std::vector<bool>', 'std::vector<std::vector<std::string>>', 'std::string', 'std::wstring', 'std::u16string', 'std::u32string', 'std::deque<int>', 'std::list<double>', 'std::forward_list<int>', 'std::set<int>', 'std::multiset<std::string>', 'std::map<int, std::string>', 'std::multimap<int, int>',
        'std::unordered_set<int>', 'std::unordered_multiset<std::string>', 'std::unordered_map<std::string, std::vector<int>>', 'std::unordered_multimap<int, double>', 'std::pair<int, float>', 'std::pair<std::string, std::pair<int, char>>', 'std::tuple<>', 'std::tuple<int>', 'std::tuple<int, std::string, std::vector<double>>', 'std::pair<int const, char>', 'std::tuple<int const&, char>', 'std::unordered_map<int, std::unordered_set<int>>',
        'int const', 'int const[ 3 ]', 'std::vector<int> const']:
        out.append((n, 'template<class T> using I = T; using T = I<%s>;\n' % n if '[' in n or '(*)' in n else 'typedef %s T;\n' % n, 11))
    out += [(n, 'typedef %s T;\n' % n, 17) for n in ('std::byte', 'std::string_view', 'std::wstring_view', 'std::vector<std::byte>', 'std::array<std::byte, 4>')]
    out += [(n, 'typedef %s T;\n' % n, 20) for n in ('std::span<int const>', 'std::span<unsigned char>', 'char8_t', 'std::u8string')]
    # no fixed-extent span: an empty one has no data
    for nm, src, std in [
        ('enumeration', 'enum T { a, b };\n', 11), ('scoped enumeration', 'enum class T: unsigned char { a };\n', 11), ('scoped enumeration of bool', 'enum class T: bool {};\n', 11),
        ('enumeration with tag_invoke', 'enum class T: int {};\ntemplate<class H, class F> void tag_invoke( hash_append_tag const&, H& h, F const& f, T const& ) { hash_append( h, f, 7 ); }\n', 11),
        ('class with tag_invoke', 'struct S { int x; '+INV % 'S'+' };\ntypedef S T;\n', 11),
        ('class template with tag_invoke', 'template<class U> struct S { U x; '+INV % 'S'+' };\ntypedef S<std::string> T;\n', 11),
        ('polymorphic class with tag_invoke', 'struct S { int x; virtual ~S() {} '+INV % 'S'+' };\ntypedef S T;\n', 11),
        ('union with tag_invoke', 'union S { int x; float y; '+INV % 'S'+' };\ntypedef S T;\n', 11),
        ('move-only class with tag_invoke', 'struct S { int x; S( S const& ) = delete; S& operator=( S const& ) = delete; '+INV % 'S'+' };\ntypedef S T;\n', 11),
        ('class deriving from one with tag_invoke', 'struct S { int x; '+INV % 'S'+' };\nstruct T: S {};\n', 11),
        ('range', 'struct T { '+BODY+'};\n', 11), ('contiguous range', 'struct T { '+BODY+CON+'};\n', 11), ('unordered range', 'struct T { '+BODY+UN+'};\n', 11), ('unordered contiguous range', 'struct T { '+BODY+CON+UN+'};\n', 11),
        ('constant-size range', 'struct S { '+BODY+'};\n'+TS % 3+'typedef S T;\n', 11), ('constant-size contiguous range', 'struct S { '+BODY+CON+'};\n'+TS % 3+'typedef S T;\n', 11),
        ('constant-size unordered range', 'struct S { '+BODY+UN+'};\n'+TS % 3+'typedef S T;\n', 11), ('constant-size unordered contiguous range', 'struct S { '+BODY+CON+UN+'};\n'+TS % 3+'typedef S T;\n', 11),
        ('range with tag_invoke', 'struct S { int x; '+BODY+INV % 'S'+'};\ntypedef S T;\n', 11), ('contiguous range with tag_invoke', 'struct S { int x; '+BODY+CON+INV % 'S'+'};\ntypedef S T;\n', 11),
        ('unordered range with tag_invoke', 'struct S { int x; '+BODY+UN+INV % 'S'+'};\ntypedef S T;\n', 11), ('unordered contiguous range with tag_invoke', 'struct S { int x; '+BODY+CON+UN+INV % 'S'+'};\ntypedef S T;\n', 11),
        ('constant-size range with tag_invoke', 'struct S { int x; '+BODY+INV % 'S'+'};\n'+TS % 3+'typedef S T;\n', 11), ('constant-size contiguous range with tag_invoke', 'struct S { int x; '+BODY+CON+INV % 'S'+'};\n'+TS % 3+'typedef S T;\n', 11),
        ('tuple-like', 'struct S { int x; };\n'+TS % 2+GET+'typedef S T;\n', 11), ('tuple-like with tag_invoke', 'struct S { int x; '+INV % 'S'+' };\n'+TS % 2+GET+'typedef S T;\n', 11), ('empty tuple-like', 'struct S { int x; };\n'+TS % 0+GET+'typedef S T;\n', 11),
        ('class deriving from std::vector', 'struct T: std::vector<int> {};\n', 11), ('class deriving from std::vector with tag_invoke', 'struct S: std::vector<int> { int x; '+INV % 'S'+' };\ntypedef S T;\n', 11),
        ('described class', 'struct S { int x; '+D % 'x'+'};\ntypedef S T;\n', 14), ('described empty class', 'struct S { '+D % ''+'};\ntypedef S T;\n', 14), ('described class, outside', 'struct S { int x; };\nBOOST_DESCRIBE_STRUCT(S, (), (x))\ntypedef S T;\n', 14),
        ('described class with private members', 'class S { int x; double y; BOOST_DESCRIBE_CLASS(S, (), (), (), (x, y)) };\ntypedef S T;\n', 14), ('described class with protected base', 'struct B0 { int z; BOOST_DESCRIBE_CLASS(B0, (), (z), (), ()) };\nstruct S: protected B0 { int x; BOOST_DESCRIBE_CLASS(S, (B0), (x), (), ()) };\ntypedef S T;\n', 14),
        ('described class with private base', 'struct B0 { int z; BOOST_DESCRIBE_CLASS(B0, (), (z), (), ()) };\nstruct S: private B0 { int x; BOOST_DESCRIBE_CLASS(S, (B0), (x), (), ()) };\ntypedef S T;\n', 14),
        ('described polymorphic class', 'struct S { int x; virtual ~S() {} '+D % 'x'+'};\ntypedef S T;\n', 14), ('described class with containers', 'struct S { std::vector<std::string> x; std::map<int, double> y; int z[ 3 ]; '+D % 'x, y, z'+'};\ntypedef S T;\n', 14),
        ('described class with tag_invoke', 'struct S { int x; '+D % 'x'+INV % 'S'+' };\ntypedef S T;\n', 14), ('described range', 'struct S { '+BODY+D % 'b'+'};\ntypedef S T;\n', 14), ('described contiguous range', 'struct S { '+BODY+CON+D % 'b'+'};\ntypedef S T;\n', 14),
        ('described unordered range', 'struct S { '+BODY+UN+D % 'b'+'};\ntypedef S T;\n', 14), ('described tuple-like', 'struct S { int x; '+D % 'x'+'};\n'+TS % 2+GET+'typedef S T;\n', 14), ('described range with tag_invoke', 'struct S { int x; '+BODY+D % 'x, b'+INV % 'S'+' };\ntypedef S T;\n', 14),
        ('described everything with tag_invoke', 'struct S { int x; '+BODY+CON+UN+D % 'x, b'+INV % 'S'+' };\n'+TS % 3+'typedef S T;\n', 14), ('described constant-size range', 'struct S { '+BODY+CON+D % 'b'+'};\n'+TS % 3+'typedef S T;\n', 14),
        ('described enumeration', 'enum class T { a, b };\nBOOST_DESCRIBE_ENUM(T, a, b)\n', 14),
        ('described class holding itself in a vector', 'struct S { int x; std::vector<S> y; '+D % 'x, y'+'};\ntypedef S T;\n', 14)]: out.append((nm, src, std))
    return out
def rejected():
    out = []
    for n in ['long double', 'long double[ 2 ]', 'std::vector<long double>', 'std::pair<int, long double>', 'int P::*', 'int (P::*)( int )', 'int P::* [ 2 ]', 'std::array<int P::*, 2>', 'P', 'P[ 2 ]', 'std::vector<P>', 'std::pair<int, P>', 'std::tuple<char, P>', 'std::array<P, 2>', 'std::unordered_set<P*> P::*', 'U', 'U[ 2 ]', 'std::vector<U>', 'Q', 'void ( int )',
              'std::unique_ptr<int>', 'std::shared_ptr<int>', 'std::atomic<int>', 'std::bitset<8>', 'std::function<void()>', 'std::reference_wrapper<int>', 'C', 'E', 'std::map<int, P>', 'std::list<U>']:
        out.append((n, 'struct P { int x; int g( int ); };\nunion U { int i; float f; };\nclass Q { int x; public: virtual ~Q() {} };\nstruct C { int x; operator int() const { return x; } operator int*() const { return nullptr; } };\nstruct E {};\ntemplate<class T> using I = T; using T = I<%s>;\n' % n, 11))
    out += [(n, 'struct P { int x; };\ntypedef %s T;\n' % n, 17) for n in ('std::optional<int>', 'std::variant<int, char>', 'std::optional<P>')]
    out += [('described union', 'union T { int x; float y; };\nBOOST_DESCRIBE_STRUCT(T, (), (x, y))\n', 14), ('described class with an undescribed member', 'struct P { int x; };\nstruct S { P p; BOOST_DESCRIBE_CLASS(S, (), (p), (), ()) };\ntypedef S T;\n', 14),
            ('described class with an undescribed base', 'struct P { int x; };\nstruct S: P { int y; BOOST_DESCRIBE_CLASS(S, (P), (y), (), ()) };\ntypedef S T;\n', 14), ('described class with a long double member', 'struct S { long double p; BOOST_DESCRIBE_CLASS(S, (), (p), (), ()) };\ntypedef S T;\n', 14),
            ('described class with a union member', 'struct S { union { int a; float b; } p; BOOST_DESCRIBE_CLASS(S, (), (p), (), ()) };\ntypedef S T;\n', 14),
            ('private class deriving from a described one', 'struct B0 { int z; BOOST_DESCRIBE_CLASS(B0, (), (z), (), ()) };\nstruct T: B0 { int y; };\n', 14),
            ('class with tag_invoke for something else', 'struct other {};\nstruct T { int x; template<class H, class F> friend void tag_invoke( other const&, H& h, F const& f, T const& v ) { hash_append( h, f, v.x ); } };\n', 11),
            ('class with begin only', 'struct T { int const* begin() const; };\n', 11), ('class with tuple_size of another', 'struct S {}; struct T {};\n'+TS % 1, 11), ('class whose tag_invoke wants another class', 'struct S {}; struct T { template<class H, class F> friend void tag_invoke( hash_append_tag const&, H& h, F const& f, S const& ) { hash_append( h, f, 1 ); } };\n', 11)]
    return out
def a09(R, w, tier):
    stds = (11, 14, 17, 20)
    for std in stds:
        if tier == 'quick' and std == 14: batchstd = True
        acc = [(n, s) for n, s, m in accepted() if m <= std]
        rej = [(n, s) for n, s, m in rejected() if m <= std]
        # accepted programs are compiled several to a translation unit; a unit that fails is taken apart
        judge_batch(R, w, acc, std)
        if tier != 'quick' or std in (11, 17): judge(R, w, [(n, PRE+s+call('T', ('default_flavor',)), False) for n, s in rej]+[(n+' (big)', PRE+s+call('T', ('big_endian_flavor',)), False) for n, s in rej if tier != 'quick'], (std,))
        # the shape of a rejected program is right: with an accepted type it compiles
    judge(R, w, [('control of the rejected programs', PRE+'struct P { int x; int g( int ); };\nunion U { int i; float f; };\ntemplate<class T> using I = T; using T = I<P*>;\n'+call('T', ('default_flavor',)), True)], stds)
def judge_batch(R, w, acc, std):
    from concurrent.futures import ThreadPoolExecutor
    import os
    def unit(k, part):
        p = os.path.join(w.dir, 'acc%d_%d.cpp' % (std, k))
        body = ''.join('namespace N%d {\n%s%s}\n' % (i, s, call('T')) for i, (n, s) in enumerate(part) if 'namespace std' not in s)
        with open(p, 'w') as f: f.write(PRE+body)
        return w.try_compile(p, std='c++%d' % std)
    plain = [a for a in acc if 'namespace std' not in a[1] and 'boost' not in a[1].lower().replace('boost_describe', '').replace('boost::array', '')]
    alone = [a for a in acc if a not in plain]
    m = 12; parts = [plain[i:i+m] for i in range(0, len(plain), m)]
    with ThreadPoolExecutor(8) as ex: got = list(ex.map(lambda kp: unit(*kp), enumerate(parts)))
    for part, (ok, err) in zip(parts, got):
        if ok:
            for n, s in part: R.add('C++%d %s' % (std, n), 'accepted', 'proved')
        else: alone += part
    judge(R, w, [(n, PRE+s+call('T'), True) for n, s in alone], (std,))

# ------------------------------------------------------------------ raw bytes
# value of is_contiguously_hashable<T, order>: A = may be true in any order, N = native order only, F = never
def traits():
    A, N, F = 'A', 'N', 'F'
    t = [('bool', A), ('char', A), ('signed char', A), ('unsigned char', A), ('short', N), ('unsigned short', N), ('int', N), ('unsigned', N), ('long', N), ('unsigned long', N), ('long long', N), ('unsigned long long', N), ('wchar_t', N), ('char16_t', N), ('char32_t', N),
         ('float', F), ('double', F), ('long double', F), ('std::nullptr_t', F), ('void*', N), ('int const*', N), ('void (*)()', N), ('E1', A), ('E2', N), ('E3', N), ('EB', A), ('int S::*', F), ('int (S::*)()', F), ('S', F), ('SP', F), ('SE', F), ('S1', F), ('U', F), ('PB', F), ('VC', F),
         ('std::pair<int, int>', F), ('std::pair<char, char>', F), ('std::pair<char, int>', F), ('std::tuple<char>', F), ('std::tuple<>', F), ('std::tuple<int, int>', F), ('std::string', F), ('std::vector<char>', F), ('std::array<float, 2>', F), ('std::array<S, 2>', F), ('std::array<std::pair<char, int>, 2>', F), ('boost::array<double, 1>', F), ('std::array<char, 0>', F), ('std::array<int, 0>', F),
         ('std::complex<float>', F), ('std::unique_ptr<int>', F), ('std::unordered_set<int>', F), ('digest<16>', A), ('digest<1>', A), ('std::array<unsigned char, 4>', A), ('std::array<int, 4>', N), ('boost::array<int, 4>', N), ('std::array<bool, 2>', A), ('std::array<int*, 2>', N)]
    out = []
    for n, k in t:
        out.append((n, k)); out.append((n+' const', k))
        if n not in ('std::unique_ptr<int>',): out.append((n+' [ 3 ]', k)); out.append((n+' [ 2 ][ 2 ]', k)); out.append((n+' const [ 2 ]', k))
    return out
TPRE = PRE+'''struct S { int x; int g(); }; struct SP { char c; int x; }; struct SE {}; struct S1 { unsigned char c; }; union U { int i; float f; }; struct PB { int x; private: int y; }; struct VC { virtual ~VC(); };
enum class E1: unsigned char {}; enum class E2: short {}; enum E3 { e3 }; enum class EB: bool {};
template<class T> using I = T;
template<class T, endian E> struct val { static constexpr bool value = is_contiguously_hashable<T, E>::value; };
'''
def a02(R, w, tier):
    """a constant expression per trait value; one-directional: the raw path may be taken only where it is allowed"""
    import os
    for std in ((11, 17) if tier == 'quick' else (11, 14, 17, 20)):
        src = TPRE; lines = {}
        for n, k in traits():
            for e in ('little', 'big', 'native'):
                if k == 'A' or (k == 'N' and e != 'big'): continue
                nn = n.replace('(*)()', '(*)()')
                lines[src.count('\n')+1] = 'is_contiguously_hashable<%s, %s>' % (n, e)
                src += 'static_assert( !val<%s, endian::%s>::value, "raw" );\n' % (typ(n), e)
        p = os.path.join(w.dir, 'traits%d.cpp' % std)
        with open(p, 'w') as f: f.write(src)
        ok, err = w.try_compile(p, ['-ferror-limit=0'], std='c++%d' % std)
        bad = set()
        import re
        for m in re.finditer(r'traits%d\.cpp:(\d+):\d+: error: (.*)' % std, err): bad.add((int(m.group(1)), m.group(2)))
        if not ok and not bad: R.add('C++%d traits' % std, 'is_contiguously_hashable', 'unknown', err[-300:]); continue
        bl = {l: m for l, m in bad}
        for l, nm in lines.items():
            if l not in bl: R.add('C++%d %s' % (std, nm), 'is false', 'proved')
            elif 'static assertion' in bl[l] or 'static_assert' in bl[l]: R.add('C++%d %s' % (std, nm), 'is false', 'violated', 'the raw bytes of this type are hashed although equal values can have different bytes, or in another byte order', 'is_contiguously_hashable')
            else: R.add('C++%d %s' % (std, nm), 'is false', 'unknown', bl[l])
def typ(n):
    """a spelling that works for arrays of function and member pointers"""
    import re
    base = n.split(' [')[0]; dims = re.findall(r'\[ (\d+) \]', n)
    c = base.endswith(' const'); base = base[:-6] if c else base
    s = 'I<%s>' % base
    if c: s += ' const'
    return s+''.join('[ %s ]' % d for d in dims)
