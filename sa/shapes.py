"""Object shapes: C++ types together with the message their hash_append is documented to produce.

A shape knows its C++ spelling and lists, in message order, the constituents whose messages make up
the message of an object: scalars, literal bytes, user-customised sub-objects and dynamic ranges.
Where constituents live inside an object is asked of the compiled program (address functions), so no
layout is assumed except that of the standard containers built by the analysis itself."""

SCALARS = {  # name: (C++ type, size, category)
 'bool': ('bool', 1, 'bool'), 'char': ('char', 1, 'int'), 'schar': ('signed char', 1, 'int'), 'uchar': ('unsigned char', 1, 'int'),
 'short': ('short', 2, 'int'), 'ushort': ('unsigned short', 2, 'int'), 'int': ('int', 4, 'int'), 'uint': ('unsigned', 4, 'int'),
 'long': ('long', 8, 'int'), 'ulong': ('unsigned long', 8, 'int'), 'llong': ('long long', 8, 'int'), 'ullong': ('unsigned long long', 8, 'int'),
 'wchar': ('wchar_t', 4, 'int'), 'char16': ('char16_t', 2, 'int'), 'char32': ('char32_t', 4, 'int'),
 'float': ('float', 4, 'float'), 'double': ('double', 8, 'float'),
 'ptr': ('int*', 8, 'ptr'), 'cptr': ('void const*', 8, 'ptr'), 'fptr': ('FP', 8, 'ptr'), 'nullp': ('std::nullptr_t', 8, 'null'),
 'e_int': ('E_int', 4, 'int'), 'e_u8': ('E_u8', 1, 'int'), 'e_s16': ('E_s16', 2, 'int'), 'e_u64': ('E_u64', 8, 'int'), 'e_plain': ('E_plain', 4, 'int'), 'e_bool': ('E_bool', 1, 'bool'), 'byte': ('std::byte', 1, 'int'),
}
class Shape:
    def leaves(self, x): raise NotImplementedError
    def dynamic(self): return False
class Sc(Shape):
    def __init__(self, k): self.k = k; self.cpp, self.size, self.cat = SCALARS[k]; self.name = k
    def leaves(self, x): return [('sc', self, x)]
class Arr(Shape):
    """C array, std::array, boost::array"""
    def __init__(self, t, n, kind='c'):
        self.t = t; self.n = n; self.kind = kind; self.name = '%s%d_%s' % (kind, n, t.name)
        if kind == 'c': self.cpp = 'CA<%s,%d>' % (t.cpp, n)
        else: self.cpp = '%s::array<%s,%d>' % (kind, t.cpp, n)
    def dynamic(self): return self.t.dynamic()
    def leaves(self, x):
        if self.n == 0: return [('lit', b'\0')]
        return [l for i in range(self.n) for l in self.t.leaves('(%s)[%d]' % (x, i))]
class Dig(Shape):
    def __init__(self, n): self.n = n; self.cpp = 'digest<%d>' % n; self.name = 'digest%d' % n
    def leaves(self, x): return [('sc', Sc('uchar'), '(%s).data()[%d]' % (x, i)) for i in range(self.n)]
class Tup(Shape):
    def __init__(self, ts, kind='tuple'):
        self.ts = ts; self.kind = kind; self.name = '%s_%s' % (kind, '_'.join(t.name for t in ts))
        self.cpp = 'std::%s<%s>' % (kind, ','.join(t.cpp for t in ts))
    def dynamic(self): return any(t.dynamic() for t in self.ts)
    def leaves(self, x):
        if not self.ts: return [('lit', b'\0')]
        return [l for i, t in enumerate(self.ts) for l in t.leaves('std::get<%d>(%s)' % (i, x))]
class Cls(Shape):
    """described class: public bases, members by access"""
    def __init__(self, name, bases, pub, prot=(), priv=(), bacc=None):
        self.bacc = bacc or ['public']*len(bases); self.name = self.cpp = name; self.bases = bases; self.pub = pub; self.prot = prot; self.priv = priv
    def dynamic(self): return any(t.dynamic() for t in list(self.bases)+list(self.pub)+list(self.prot)+list(self.priv))
    def members(self):
        return [('a%d' % i, t, 'public') for i, t in enumerate(self.pub)] + [('b%d' % i, t, 'protected') for i, t in enumerate(self.prot)] + [('c%d' % i, t, 'private') for i, t in enumerate(self.priv)]
    def decl(self):
        s = '%s %s%s {\n' % ('struct', self.name, (': ' + ', '.join(a+' '+b.cpp for a, b in zip(self.bacc, self.bases))) if self.bases else '')
        for n, t, a in self.members(): s += ' %s: %s %s;\n public: %s const& get_%s() const { return %s; }\n' % (a, t.cpp, n, t.cpp, n, n)
        j = lambda p: '('+', '.join(n for n, _, a in self.members() if a == p)+')'
        s += ' BOOST_DESCRIBE_CLASS(%s, (%s), %s, %s, %s)\n};\n' % (self.name, ', '.join(b.cpp for b in self.bases), j('public'), j('protected'), j('private'))
        return s
    def leaves(self, x):
        r = [l for b in self.bases for l in b.leaves('((%s const&)(%s))' % (b.cpp, x))]
        r += [l for n, t, _ in self.members() for l in t.leaves('(%s).get_%s()' % (x, n))]
        return r or [('lit', b'\0')]
class User(Shape):
    """class with tag_invoke"""
    def __init__(self, k, n): self.k = k; self.n = n; self.cpp = 'User<%d,%d>' % (k, n); self.name = 'user%d_%d' % (k, n)
    def leaves(self, x): return [('user', self, x)]
class Dyn(Shape):
    """dynamic range with elements of a fixed shape.  kinds: vector, string"""
    def __init__(self, t, kind='vector'):
        self.t = t; self.kind = kind; self.name = '%s_%s' % (kind, t.name)
        self.cpp = {'vector': 'std::vector<%s>', 'string': 'std::basic_string<%s>'}[kind] % t.cpp
    def dynamic(self): return True
    def leaves(self, x): return [('dyn', self, x)]
class Raw(Shape):
    """a type with a declaration of its own; ls: its leaves as functions of an expression"""
    def __init__(self, cpp, decl, ls, std=11): self.cpp = self.name = cpp; self.text = decl; self.ls = ls; self.std = std
    def leaves(self, x):
        out = []
        for l in self.ls:
            if l[0] == 'lit': out.append(l)
            elif l[0] == 'user': out.append(('user', User(l[1], l[2]), l[3] % x))
            else: out += l[0].leaves(l[1] % x)
        return out
class KV(Tup):
    """value type of a map"""
    def __init__(self, k, v): Tup.__init__(self, (k, v), 'pair'); self.cpp = 'std::pair<%s const,%s>' % (k.cpp, v.cpp); self.name = 'kv_%s_%s' % (k.name, v.name)
class Nodes(Shape):
    """standard container holding n elements, not stored in one block"""
    def __init__(self, cont, t, n):
        self.cont = cont; self.t = t; self.n = n; self.name = '%s%d_%s' % (cont, n, t.name)
        if 'map' in cont: self.cpp = 'std::%s<%s,%s>' % (cont, t.ts[0].cpp, t.ts[1].cpp)
        elif cont == 'vbool': self.cpp = 'std::vector<bool>'
        else: self.cpp = {'deque': 'std::deque<%s>', 'list': 'std::list<%s>', 'forward_list': 'std::forward_list<%s>', 'set': 'std::set<%s>', 'multiset': 'std::multiset<%s>', 'unordered_set': 'std::unordered_set<%s>', 'unordered_multiset': 'std::unordered_multiset<%s>'}[cont] % t.cpp
    def dynamic(self): return True
    def leaves(self, x): return [('nodes', self, x)]

FLAVORS = {'D': ('default_flavor', 'little', 8, 1), 'L': ('little_endian_flavor', 'little', 8, 2), 'B': ('big_endian_flavor', 'big', 8, 3), 'X': ('make_FX', 'big', 4, 77), 'Y': ('FY', 'little', 2, 5), 'Z': ('FZ', 'big', 1, 6)}
PRE = r'''
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/hash2/get_integral_result.hpp>
#include <boost/describe/class.hpp>
#include <boost/array.hpp>
#include <array>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#if __cplusplus >= 201703L
#include <string_view>
#endif
#if __cplusplus >= 202002L
#include <span>
#endif
using namespace boost::hash2;
struct Rec;
extern "C" void rec_update( Rec*, void const*, std::size_t );
extern "C" unsigned long long rec_result( Rec* );
extern "C" void rec_user( Rec*, unsigned, unsigned, void const*, std::size_t );
struct Rec
{
    std::uint64_t s;
    typedef std::uint64_t result_type;
    void update( void const* p, std::size_t n ) { rec_update( this, p, n ); }
    std::uint64_t result() { return rec_result( this ); }
};
struct Rec32: Rec { typedef std::uint32_t result_type; std::uint32_t result() { return (std::uint32_t)rec_result( this ); } };
struct RecD: Rec { typedef digest<16> result_type; digest<16> result() { unsigned long long r = rec_result( this ); unsigned char b[16] = { (unsigned char)r, (unsigned char)(r >> 8), (unsigned char)(r >> 16), (unsigned char)(r >> 24), (unsigned char)(r >> 32), (unsigned char)(r >> 40), (unsigned char)(r >> 48), (unsigned char)(r >> 56), 1, 2, 3 }; return digest<16>( b ); } };
extern "C" std::uint64_t gir32( std::uint32_t x ) { return get_integral_result<std::uint64_t>( x ); }
// a flavor with state: passing on a default-constructed one is a difference
struct FX { using size_type = std::uint32_t; static constexpr auto byte_order = endian::big; unsigned k; FX(): k( 99 ) {} FX( int, unsigned x ): k( x ) {} };
inline FX make_FX() { return FX( 0, 77 ); }
struct FY { using size_type = std::uint16_t; static constexpr auto byte_order = endian::little; };
struct FZ { using size_type = unsigned char; static constexpr auto byte_order = endian::big; };
inline unsigned fid( default_flavor const& ) { return 1; }
inline unsigned fid( little_endian_flavor const& ) { return 2; }
inline unsigned fid( big_endian_flavor const& ) { return 3; }
inline unsigned fid( FX const& f ) { return f.k; }
inline unsigned fid( FY const& ) { return 5; }
inline unsigned fid( FZ const& ) { return 6; }
template<class T, std::size_t N> using CA = T[N];
template<int K, int N> struct User
{
    unsigned char b[ N ];
    template<class Hash, class Flavor> friend void tag_invoke( hash_append_tag const&, Hash& h, Flavor const& f, User const& v ) { rec_user( std::addressof( h ), K, fid( f ), v.b, N ); }
};
typedef void (*FP)( int ); enum class E_int: int {}; enum class E_u8: std::uint8_t {}; enum class E_s16: std::int16_t {}; enum class E_u64: std::uint64_t {}; enum E_plain { e0_, e1_ = 70000 }; enum class E_bool: bool {};
// archetype iterator: only what its category offers
template<class T, class Cat> struct It
{
    using iterator_category = Cat; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const*; using reference = T const&;
    T const* p;
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    It& operator++() { ++p; return *this; }
    It operator++( int ) { It r = *this; ++p; return r; }
    friend bool operator==( It a, It b ) { return a.p == b.p; }
    friend bool operator!=( It a, It b ) { return a.p != b.p; }
    template<class C = Cat, class = typename std::enable_if<std::is_convertible<C, std::bidirectional_iterator_tag>::value>::type> It& operator--() { --p; return *this; }
    template<class C = Cat, class = typename std::enable_if<std::is_convertible<C, std::random_access_iterator_tag>::value>::type> friend std::ptrdiff_t operator-( It a, It b ) { return a.p - b.p; }
    template<class C = Cat, class = typename std::enable_if<std::is_convertible<C, std::random_access_iterator_tag>::value>::type> It operator+( std::ptrdiff_t n ) const { return It{ p + n }; }
    template<class C = Cat, class = typename std::enable_if<std::is_convertible<C, std::random_access_iterator_tag>::value>::type> It& operator+=( std::ptrdiff_t n ) { p += n; return *this; }
    template<class C = Cat, class = typename std::enable_if<std::is_convertible<C, std::random_access_iterator_tag>::value>::type> bool operator<( It b ) const { return p < b.p; }
    template<class C = Cat, class = typename std::enable_if<std::is_convertible<C, std::random_access_iterator_tag>::value>::type> reference operator[]( std::ptrdiff_t n ) const { return p[ n ]; }
};
// iterator returning by value, no reference to an element exists
template<class T> struct ItV
{
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = void; using reference = T;
    T const* p;
    T operator*() const { return *p; }
    ItV& operator++() { ++p; return *this; }
    ItV operator++( int ) { ItV r = *this; ++p; return r; }
    friend bool operator==( ItV a, ItV b ) { return a.p == b.p; }
    friend bool operator!=( ItV a, ItV b ) { return a.p != b.p; }
};
template<class T, class I> struct RangeOf // a range that is not contiguous
{
    T const* f; T const* l;
    using value_type = T; using iterator = I; using const_iterator = I; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using reference = T const&;
    const_iterator begin() const { return const_iterator{ f }; }
    const_iterator end() const { return const_iterator{ l }; }
    std::size_t size() const { return l - f; }
};
template<class T> using R_in = RangeOf<T, It<T, std::input_iterator_tag>>;
template<class T> using R_fw = RangeOf<T, It<T, std::forward_iterator_tag>>;
template<class T> using R_bi = RangeOf<T, It<T, std::bidirectional_iterator_tag>>;
template<class T> using R_ra = RangeOf<T, It<T, std::random_access_iterator_tag>>;
template<class T> using R_val = RangeOf<T, ItV<T>>;
template<class T> struct R_un: R_fw<T> { using key_type = T; struct hasher {}; }; // unordered
template<class T> struct R_con // contiguous
{
    T const* f; std::size_t n;
    using value_type = T; using iterator = T const*; using const_iterator = T const*; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using reference = T const&;
    T const* begin() const { return f; }
    T const* end() const { return f + n; }
    T const* data() const { return f; }
    std::size_t size() const { return n; }
};
'''
class Gen:
    """harness source for a list of subjects"""
    def __init__(self):
        self.types = {}; self.cls = []; self.src = []; self.addr = {}; self.subjects = []; self.seen = set()
    def need(self, t):
        """address functions of a type; -> type id"""
        if t.cpp in self.types: return self.types[t.cpp][0]
        if isinstance(t, Cls):
            for u in list(t.bases)+[m for _, m, _ in t.members()]: self.decl(u)
        self.decl(t)
        i = len(self.types); self.types[t.cpp] = (i, t)
        s = 'typedef %s Ty%d;\nextern "C" std::size_t sizeof_%d() { return sizeof(Ty%d); }\n' % (t.cpp, i, i, i)
        for k, l in enumerate(t.leaves('*v')):
            if l[0] != 'lit': s += 'extern "C" void const* addr_%d_%d( Ty%d const* v ) { return std::addressof( %s ); }\n' % (i, k, i, l[2])
        self.src.append(s)
        for l in t.leaves('*v'):
            if l[0] in ('dyn', 'nodes'): self.need(l[1].t)
        return i
    def decl(self, t):
        for u in getattr(t, 'ts', []): self.decl(u)
        if hasattr(t, 't'): self.decl(t.t)
        if isinstance(t, Cls):
            for u in list(t.bases)+[m for _, m, _ in t.members()]: self.decl(u)
        if isinstance(t, Raw):
            for l in t.ls:
                if l[0] not in ('lit', 'user'): self.decl(l[0])
            if ('raw', t.cpp) not in self.seen: self.seen.add(('raw', t.cpp)); self.src.append(t.text)
        if isinstance(t, Cls):
            if t.name not in [c.name for c in self.cls]:
                self.cls.append(t); self.src.append(t.decl())
    def obj(self, t, flavors):
        """hash_append of an object"""
        i = self.need(t)
        for f in flavors:
            if ('ap', i, f) in self.seen: continue
            self.seen.add(('ap', i, f))
            self.src.append('extern "C" void ap_%d_%s( Rec* h, Ty%d const* v ) { hash_append( *h, %s(), *v ); }\n' % (i, f, i, FLAVORS[f][0]))
            self.subjects.append(('obj', t, f, 'ap_%d_%s' % (i, f)))
    def rng(self, t, how, flavors):
        """ranges over n elements of shape t given as (pointer, count)"""
        i = self.need(t)
        for f in flavors:
            F = FLAVORS[f][0]; nm = 'rg_%s_%d_%s' % (how, i, f); H = 'Rec'
            if nm in self.seen: continue
            self.seen.add(nm)
            if how.startswith('R_'): call = '%s<Ty%d> r{ p, %s }; hash_append( *h, %s(), r );' % (how, i, 'n' if how == 'R_con' else 'p + n', F) if how != 'R_un' else 'R_un<Ty%d> r; r.f = p; r.l = p + n; hash_append( *h, %s(), r );' % (i, F)
            elif how == 'view': call = 'std::basic_string_view<Ty%d> r( p, n ); hash_append( *h, %s(), r );' % (i, F)
            elif how == 'span': call = 'std::span<Ty%d const> r( p, n ); hash_append( *h, %s(), r );' % (i, F)
            elif how == 'range': call = 'hash_append_range( *h, %s(), p, p + n );' % F
            elif how == 'mrange': call = 'hash_append_range( *h, %s(), const_cast<Ty%d*>( p ), const_cast<Ty%d*>( p ) + n );' % (F, i, i)
            elif how == 'irange': call = 'using I = It<Ty%d, std::input_iterator_tag>; hash_append_range( *h, %s(), I{ p }, I{ p + n } );' % (i, F)
            elif how == 'sized': call = 'hash_append_sized_range( *h, %s(), p, p + n );' % F
            elif how == 'isized': call = 'using I = It<Ty%d, std::input_iterator_tag>; hash_append_sized_range( *h, %s(), I{ p }, I{ p + n } );' % (i, F)
            elif how == 'rsized': call = 'using I = It<Ty%d, std::random_access_iterator_tag>; hash_append_sized_range( *h, %s(), I{ p }, I{ p + n } );' % (i, F)
            elif how in ('unord', 'unord32', 'unordD'):
                H = {'unord': 'Rec', 'unord32': 'Rec32', 'unordD': 'RecD'}[how]
                call = 'using I = It<Ty%d, std::forward_iterator_tag>; hash_append_unordered_range( *h, %s(), I{ p }, I{ p + n } );' % (i, F)
            elif how == 'size': call = 'hash_append_size( *h, %s(), n );' % F
            self.src.append('extern "C" void %s( %s* h, Ty%d const* p, std::size_t n ) { %s }\n' % (nm, H, i, call))
            self.subjects.append((how, t, f, nm))
    def text(self): return PRE + ''.join(self.src)
