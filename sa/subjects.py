"""Subject lists of the object-hashing properties."""
import random
from .shapes import *
U8, I32, U16, I64, F32, F64, BOOL, CH = (Sc(k) for k in ('uchar', 'int', 'ushort', 'long', 'float', 'double', 'bool', 'char'))
ALLF = ['D', 'L', 'B', 'X', 'Y']
SC = [Sc(k) for k in SCALARS]
def A(t, n, k='c'): return Arr(t, n, k)
P = lambda *t: Tup(t, 'pair')
TU = lambda *t: Tup(t, 'tuple')
USR = User(1, 4); USR2 = User(2, 3)
E0 = Cls('Empty', (), ())
PT = Cls('Pt', (), (I32, I32))
PAD = Cls('Pad', (), (CH, I64, CH, U16))
PRV = Cls('Prv', (), (I32,), (U16, CH), (I64, F32))
DER = Cls('Der', (PT,), (CH, I32))
DER2 = Cls('Der2', (PT, E0, PAD), (U16,), (), (USR,))
NEST = Cls('Nest', (DER,), (A(PT, 2), P(CH, I32)), (A(U16, 3, 'std'),), (USR2, F64))
WRAP0 = Cls('Wrap0', (), (), (), (CH,))
PRVB = Cls('PrvB', (PT, E0, PAD), (CH,), (), (U16,), ['private', 'public', 'protected'])
PRVD = Cls('PrvD', (PRVB, WRAP0), (I32,), (), (), ['protected', 'private'])
FLT = Cls('Flt', (), (F32, CH, F64))
WRAP1 = Cls('Wrap1', (), (U8,))
ENUMS = Cls('Enums', (), (Sc('e_u8'), Sc('e_s16'), Sc('e_int'), Sc('e_u64'), BOOL))
DYNM = Cls('DynM', (), (Dyn(I32), CH, Dyn(CH, 'string')))
DYND = Cls('DynD', (DYNM,), (Dyn(P(CH, I32)), Dig(4)))

# ------------------------------------------------------------------ types in several categories, and specialised traits
INV = 'template<class Hash, class Flavor> friend void tag_invoke( hash_append_tag const&, Hash& h, Flavor const& f, %s const& v ) { rec_user( std::addressof( h ), %d, fid( f ), std::addressof( v ), sizeof( v ) ); }'
RNG = 'using value_type = %s; using iterator = %s const*; using const_iterator = iterator; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using reference = %s const&; iterator begin() const { return b; } iterator end() const { return b + %d; } '
CON = 'iterator data() const { return b; } std::size_t size() const { return %d; } %s const& front() const { return b[ 0 ]; } '
def rng(t, n, con=True): return RNG % (t, t, t, n)+(CON % (n, t) if con else '')
TS = 'namespace std { template<> struct tuple_size<%s>: std::integral_constant<std::size_t, %d> {}; }\n'
DESC = ' BOOST_DESCRIBE_CLASS(%s, (), (%s), (), ())'
UVEC = Raw('UVec', 'struct UVec { unsigned char b[ 4 ]; '+rng('unsigned char', 4)+INV % ('UVec', 11)+' };\n', [('user', 11, 4, '%s')])
UVEI = Raw('UVeI', 'struct UVeI { int b[ 2 ]; '+rng('int', 2, False)+INV % ('UVeI', 12)+' };\n', [('user', 12, 8, '%s')])
UUNO = Raw('UUno', 'struct UUno { int b[ 2 ]; using key_type = int; struct hasher {}; '+rng('int', 2, False)+INV % ('UUno', 13)+' };\n', [('user', 13, 8, '%s')])
UDES = Raw('UDes', 'struct UDes { int x; int y;'+DESC % ('UDes', 'x, y')+' '+INV % ('UDes', 14)+' };\n', [('user', 14, 8, '%s')], 14)
UTUP = Raw('UTup', 'struct UTup { int x; char y[ 4 ]; '+INV % ('UTup', 15)+' };\n'+TS % ('UTup', 2)+'template<std::size_t I> int const& get( UTup const& v ) { return v.x; }\n', [('user', 15, 8, '%s')])
UARR = Raw('UArr', 'struct UArr { short b[ 3 ]; '+rng('short', 3)+INV % ('UArr', 16)+' };\n'+TS % ('UArr', 3), [('user', 16, 6, '%s')])
UALL = Raw('UAll', 'struct UAll { short b[ 3 ]; using key_type = int; struct hasher {}; '+rng('short', 3)+DESC % ('UAll', 'b')+' '+INV % ('UAll', 17)+' };\n'+TS % ('UAll', 3), [('user', 17, 6, '%s')], 14)
ETAG = Raw('ETag', 'enum class ETag: short {};\nnamespace boost { namespace hash2 { template<> struct is_trivially_equality_comparable<ETag>: std::false_type {}; } }\n'+(INV % ('ETag', 18)).replace('friend ', '')+'\n', [('user', 18, 2, '%s')])
UBAS = Raw('UBas', 'struct UBasB { int x; int y; '+INV % ('UBasB', 19)+' };\nstruct UBas: UBasB {};\n', [('user', 19, 8, 'static_cast<UBasB const&>(%s)')])
UFRE = Raw('UFre', 'namespace nfre { struct UFre { int x; }; '+(INV % ('UFre', 20)).replace('friend ', '')+' }\nusing nfre::UFre;\n', [('user', 20, 4, '%s')])
UREF = Raw('URef', 'struct URef { int x; short y[ 2 ]; '+(INV % ('URef', 21))+' };\n', [('user', 21, 8, '%s')])
OVERLAP = [UVEC, UVEI, UUNO, UDES, UTUP, UARR, UALL, ETAG, UBAS, UFRE, UREF]
def crange(name, t, n, con): return Raw(name, 'struct %s { %s b[ %d ]; ' % (name, t.cpp, n or 1)+(rng(t.cpp, n, con) if con else rng(t.cpp, n, False).replace('%s const*;' % t.cpp, 'It<%s, std::forward_iterator_tag>;' % t.cpp).replace('return b;', 'return iterator{ b };').replace('return b +', 'return iterator{ b } +') .replace('iterator{ b } + %d' % n, 'iterator{ b + %d }' % n))+'};\n'+TS % (name, n), [(t, '(%%s).b[%d]' % k) for k in range(n)] or [('lit', b'\0')])
CRN = [crange('CrF%d_%s' % (n, t.name), t, n, False) for n in (0, 1, 3) for t in (U8, I32, F64)]+[crange('CrC%d_%s' % (n, t.name), t, n, True) for n in (0, 3) for t in (I32, U8)]
DRNG = Raw('DRng', 'struct DRng { int b[ 3 ]; char c; '+rng('int', 3)+DESC % ('DRng', 'c, b')+' };\n'+TS % ('DRng', 3), [(I32, '(%%s).b[%d]' % k) for k in range(3)], 14)
DTUP = Raw('DTup', 'struct DTup { int x; char y;'+DESC % ('DTup', 'x, y')+' };\n'+TS % ('DTup', 2)+'template<std::size_t I, class En = typename std::enable_if<I == 1>::type> int const& get( DTup const& v ) { return v.x; }\ntemplate<std::size_t I, class En = typename std::enable_if<I == 0>::type, class = void> char const& get( DTup const& v ) { return v.y; }\n', [(CH, '(%s).y'), (I32, '(%s).x')], 14)
TRIV = 'namespace boost { namespace hash2 { template<> struct is_trivially_equality_comparable<%s>: std::true_type {}; } }\n'
EIND = 'namespace boost { namespace hash2 { template<> struct is_endian_independent<%s>: std::true_type {}; } }\n'
TRV1 = Raw('Trv1', 'struct Trv1 { int a; short b; char c; unsigned char d;'+DESC % ('Trv1', 'a, b, c, d')+' };\n'+TRIV % 'Trv1', [(I32, '(%s).a'), (Sc('short'), '(%s).b'), (CH, '(%s).c'), (U8, '(%s).d')], 14)
TRV2 = Raw('Trv2', 'struct Trv2 { char a; unsigned char b, c;'+DESC % ('Trv2', 'a, b, c')+' };\n'+TRIV % 'Trv2'+EIND % 'Trv2', [(CH, '(%s).a'), (U8, '(%s).b'), (U8, '(%s).c')], 14)
EFAL = Raw('EFal', 'enum EFal: unsigned {};\n'+(TRIV % 'EFal').replace('true_type', 'false_type'), [(Sc('uint'), 'reinterpret_cast<unsigned const&>(%s)')])
SPEC = CRN+[DRNG, DTUP, TRV1, TRV2, EFAL]
MAPS = [Nodes(c, KV(k, v), n) for c in ('map', 'multimap') for k, v in ((I32, CH), (CH, F64), (I64, USR)) for n in (0, 1, 2)]
DEQ = [Nodes('deque', t, n) for t in (I32, U8, F64, P(CH, I32), USR) for n in (0, 1, 3)]
VB = [Nodes('vbool', BOOL, n) for n in (0, 1, 7, 8, 64, 66)]
def overlaps(g):
    for t in OVERLAP:
        g.obj(t, ALLF)
        if t is not UREF: g.obj(A(t, 2), ['D', 'X']); g.obj(TU(CH, t), ['D', 'X']); g.obj(Dyn(t), ['D', 'X']); g.rng(t, 'isized', ['D', 'X'])
        g.obj(Cls('OC_'+t.name, (), (t, CH), (), (A(t, 2),)), ['D', 'X'])
    for t in SPEC: g.obj(t, ALLF); g.obj(A(t, 2), ['D', 'X']); g.obj(P(CH, t), ['D', 'X'])
def special(g):
    for t in SPEC:
        g.obj(t, ALLF); g.obj(A(t, 2), ['D', 'B']); g.rng(t, 'range', ['D', 'B']); g.rng(t, 'R_con', ['D', 'B'])
def big_arrays(g):
    for t, n in ((U8, 300), (I32, 40), (CH, 70), (U16, 33), (Sc('e_u8'), 20)):
        g.obj(A(t, n), ['D', 'B']); g.obj(A(t, n, 'std'), ['D', 'B'])
    g.obj(A(A(U8, 20), 4), ['D', 'B']); g.obj(Dig(64), ['D', 'B']); g.obj(A(Dig(20), 3), ['D', 'B'])

def scalars(g):
    for t in SC: g.obj(t, ALLF)
def fastpath(g):
    """contiguous objects and ranges of every scalar"""
    for t in SC:
        g.obj(A(t, 3), ['D', 'L', 'B', 'X'])
        g.obj(A(t, 2, 'std'), ['D', 'B'])
        for how in ('range', 'R_con'): g.rng(t, how, ['D', 'L', 'B', 'X'])
    for t in (U8, CH, U16, I32, I64, F32, F64, Sc('e_u8'), Sc('e_s16'), Sc('ptr'), BOOL, Sc('byte'), Sc('char16')):
        for how in ('sized', 'mrange', 'irange', 'isized', 'rsized', 'R_ra'): g.rng(t, how, ['D', 'B'])
        g.obj(A(t, 2, 'boost'), ['D', 'B'])
        g.obj(A(A(t, 2), 3), ['D', 'B', 'L'])
        if t is not BOOL: g.obj(Dyn(t), ['D', 'B', 'X'])
    for t in (WRAP1, PT, PAD, FLT, P(CH, I32), P(U8, U8), TU(U8), TU(CH, CH), A(P(CH, I32), 2), ENUMS, PRV, E0, USR, Dig(3), A(U16, 2, 'std'), A(U8, 3, 'std'), A(U8, 2)):
        g.obj(t, ['D', 'L', 'B'])
        g.obj(A(t, 2), ['D', 'B'])
        g.rng(t, 'range', ['D', 'B'])
        if not isinstance(t, Arr) or t.kind != 'c': g.rng(t, 'R_con', ['D', 'B'])
def floats(g):
    for t in (F32, F64):
        g.obj(t, ALLF)
        for u in (A(t, 3), A(A(t, 2), 2), A(t, 2, 'std'), A(t, 2, 'boost'), P(t, CH), P(CH, t), TU(t), TU(I32, t, t), Dyn(t), Cls('F_'+t.k, (), (t, CH, A(t, 2))), Cls('G_'+t.k, (Cls('F_'+t.k, (), (t, CH, A(t, 2))),), (P(t, t),), (), (t,)), A(P(t, t), 2)): g.obj(u, ['D', 'L', 'B'])
        for how in ('range', 'mrange', 'irange', 'sized', 'isized', 'R_con', 'R_fw', 'R_ra', 'R_val', 'view', 'unord'): 
            if how != 'view': g.rng(t, how, ['D', 'B'])
        for c in ('list', 'set'): g.obj(Nodes(c, t, 2), ['D', 'B'])
        for u in (P(t, t), Cls('F_'+t.k, (), (t, CH, A(t, 2)))): g.rng(u, 'R_con', ['D', 'B']); g.rng(u, 'R_in', ['D', 'B'])
def ordered(g):
    for t in (U8, CH, U16, I32, I64, F64, P(CH, I32), PT, USR, A(U16, 2, 'std'), TU(), E0, Dig(2), Sc('char16')):
        for how in ('R_in', 'R_fw', 'R_bi', 'R_ra', 'R_val', 'R_con', 'sized', 'isized', 'rsized', 'range', 'irange', 'mrange'): g.rng(t, how, ['D', 'B', 'X', 'Y'])
        g.obj(Dyn(t), ['D', 'B', 'X', 'Y'])
    for t in (U8, I32): g.rng(t, 'sized', ['Z']); g.rng(t, 'R_fw', ['Z']); g.obj(Dyn(t), ['Z']); g.rng(t, 'size', ALLF+['Z'])
    for t in (CH, Sc('char16'), Sc('wchar')):
        g.obj(Dyn(t, 'string'), ['D', 'B', 'X']); g.rng(t, 'view', ['D', 'B', 'X'])
    for c in ('list', 'forward_list', 'set', 'multiset'):
        for t in (I32, P(CH, I32), USR):
            if t is USR and c in ('set', 'multiset'): continue
            for n in (0, 1, 2, 3): g.obj(Nodes(c, t, n), ['D', 'B', 'X'])
    for t in MAPS+DEQ+VB: g.obj(t, ['D', 'B', 'X'])
    for t in (U8, I32, F64, P(CH, I32), USR): g.rng(t, 'span', ['D', 'B', 'X'])
    for t in (A(Dyn(I32), 2), P(Dyn(I32), Dyn(CH, 'string')), TU(Dyn(CH, 'string'), CH, Dyn(P(CH, I32))), DYNM, DYND, A(Dyn(CH, 'string'), 2, 'std'), A(DYNM, 2)): g.obj(t, ['D', 'B', 'X'])
def aggregates(g):
    for t in (I32, CH, U8, F32, PT, USR, P(CH, I32), TU(), E0):
        for n in (1, 2, 5):
            g.obj(A(t, n), ['D', 'B']); g.obj(A(t, n, 'std'), ['D', 'B']); g.obj(A(t, n, 'boost'), ['D', 'B'])
        g.obj(A(t, 0, 'std'), ['D', 'B'])
        g.obj(A(A(t, 2), 2), ['D', 'B']); g.obj(A(A(t, 2, 'std'), 2, 'std'), ['D', 'B']); g.obj(A(A(t, 2, 'std'), 3), ['B', 'D'])
    for n in (1, 2, 16, 20, 64): g.obj(Dig(n), ALLF)
    for t in (P(CH, I32), P(I32, CH), P(P(CH, I64), U16), TU(), TU(I32), TU(CH, I32, I64, F64), TU(TU(), TU(CH)), TU(P(CH, U16), A(CH, 2, 'std'), USR), P(E0, TU()), TU(I32, CH, U16, I64, CH, I32, U16, U8),
              E0, PT, PAD, PRV, DER, DER2, PRVB, PRVD, NEST, FLT, WRAP1, ENUMS, Cls('Diamond', (DER, Cls('OnlyBase', (E0,), ())), ()), Cls('OnlyPriv', (), (), (), (I32, CH)), Cls('OnlyProt', (), (), (I64, CH)), Cls('Big', (), tuple([I32, CH]*12))): g.obj(t, ALLF)
    g.obj(Cls('OnlyBase', (E0,), ()), ALLF)
def nesting(g):
    for u in (USR, USR2):
        for t in (u, A(u, 2), A(A(u, 2), 2), A(u, 2, 'std'), A(u, 2, 'boost'), P(u, CH), P(CH, u), TU(u), TU(CH, u, I32, u), Dyn(u), A(P(u, CH), 2), Dyn(P(u, I32)), TU(TU(u)), Cls('U_%d' % u.k, (), (u, CH)), Cls('V_%d' % u.k, (Cls('U_%d' % u.k, (), (u, CH)),), (A(u, 2),), (u,), (P(u, u),)), Nodes('list', u, 2), Dyn(A(u, 2, 'std')), A(Dyn(u), 2)): g.obj(t, ALLF)
        for how in ('range', 'irange', 'sized', 'isized', 'R_con', 'R_fw', 'R_ra', 'R_in', 'R_val'): g.rng(u, how, ALLF)
        for how in ('unord', 'R_un'): g.rng(u, how, ['D', 'B', 'X'])
def unordered(g):
    for t in (U8, I32, I64, F64, P(CH, I32), PT, USR, E0, A(U16, 2, 'std')):
        for how in ('unord', 'R_un', 'unord32', 'unordD'): g.rng(t, how, ALLF)
    for c in ('unordered_set', 'unordered_multiset'):
        for n in (0, 1, 2, 3): g.obj(Nodes(c, I32, n), ['D', 'B', 'X'])
    for c in ('unordered_map', 'unordered_multimap'):
        for k, v in ((I32, CH), (CH, F64)):
            for n in (0, 1, 2): g.obj(Nodes(c, KV(k, v), n), ['D', 'B', 'X'])
    for t in (P(CH, Nodes('unordered_set', I32, 2)), TU(Nodes('unordered_set', I32, 1), I64, Nodes('unordered_set', I64, 2))): g.obj(t, ['D', 'B', 'X'])
def everything(g):
    """for nonemptiness"""
    scalars(g); aggregates(g)
    for t in (I32, U8, USR, E0, TU()):
        for how in ('R_in', 'R_fw', 'R_ra', 'R_con', 'R_un', 'sized', 'isized', 'unord'): g.rng(t, how, ['D', 'B', 'X'])
        g.obj(Dyn(t), ['D', 'B', 'X'])
    for t in (A(TU(), 2), A(E0, 2), TU(TU(), E0), P(TU(), TU()), A(A(I32, 0, 'std'), 2), A(A(I32, 0, 'std'), 0, 'std'), A(I32, 0, 'boost'), Cls('HasEmpty', (E0,), (TU(),)), Cls('HasZero', (), (A(I32, 0, 'std'),)), DYNM, DYND): g.obj(t, ['D', 'B', 'X'])
    for c in ('list', 'forward_list', 'set', 'unordered_set'):
        for n in (0, 1): g.obj(Nodes(c, I32, n), ['D', 'B', 'X'])

def random_shapes(g, seed, count):
    """random nested fixed-size shapes"""
    rnd = random.Random(seed); k = [0]
    def leaf(): return rnd.choice([Sc(rnd.choice(list(SCALARS))), Sc(rnd.choice(['char', 'int', 'ushort', 'double'])), USR, USR2, E0, PT, Dig(rnd.choice([1, 3])), TU()])
    def shape(d):
        if d == 0 or rnd.random() < .25: return leaf()
        x = rnd.randrange(6)
        if x == 0: return A(shape(d-1), rnd.choice([1, 2, 3]))
        if x == 1: return A(notc(shape(d-1)), rnd.choice([0, 1, 2]), rnd.choice(['std', 'boost']))
        if x == 2: return P(notc(shape(d-1)), notc(shape(d-1)))
        if x == 3: return TU(*[notc(shape(d-1)) for _ in range(rnd.randrange(4))])
        k[0] += 1; n = k[0]
        seq = lambda m: tuple(shape(d-1) for _ in range(rnd.randrange(m)))
        bases = []
        for _ in range(rnd.randrange(3)):
            b = Cls('RB%d_%d_%d' % (seed, n, len(bases)), (), seq(3)); bases.append(b)
        return Cls('R%d_%d' % (seed, n), tuple(bases), seq(3), seq(2), seq(2), [rnd.choice(['public', 'protected', 'private']) for _ in bases])
    def notc(t): return t if not (isinstance(t, Arr) and t.kind == 'c') else A(notc(t.t), t.n, 'std')
    for _ in range(count): g.obj(shape(rnd.choice([2, 3])), rnd.sample(ALLF, 2))
LISTS = {'A01': [scalars], 'A02': [fastpath, special, big_arrays], 'A03': [floats], 'A04': [ordered], 'A05': [aggregates, special, big_arrays], 'A06': [everything], 'A07': [unordered], 'A08': [nesting, overlaps], 'A09': [overlaps]}
