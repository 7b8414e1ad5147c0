"""development aid: evaluate the specifications on constants against hashlib and published vectors"""
import sys, os, hashlib, random
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from sa import terms as tm
from sa.terms import const
from sa.aff import *
from sa.mem import *
from sa.specs import *
def run(spec, data, init=None):
    L = E(len(data))
    def f(st):
        c = Ctx(st, {}, L); c.total = const(64, len(data)); c.tail_len = L; c.longmsg = lambda N: len(data) >= N
        X0 = init or spec.init()
        c.msg = lambda off, n: Seq(tuple(('b', const(8, data[i])) for i in range(off.const if isinstance(off, E) else off, (off.const if isinstance(off, E) else off) + Ei(c.store.norm(Ei(n))).const)))
        c.byte = lambda o: const(8, data[(o if isinstance(o, int) else o.const)])
        r = spec.final(c, X0)
        m = {}
        out = []
        for b in r:
            # unfold
            for _ in range(3):
                if b.k == 'c': break
                from sa.eqv import leaves_cv
                mm = {}
                for l in leaves_cv(b):
                    x = memo.get((l.a[1], l.a[3], l.a[4]))
                    if x is None: x = l.a[1].expand(l.a[3], canonseq(l.a[4], c.store), c.store); memo[(l.a[1], l.a[3], l.a[4])] = x
                    mm[l] = x[l.a[2]]
                b = tm.subst(b, mm)
            out.append(b.a)
        return bytes(out)
    memo = {}
    def canonseq(q, s):
        b = SeqB(s)
        for p in q.p: b.add(p)
        return b.seq()
    r = refine(Store(), {}, f)
    assert len(r) == 1
    return r[0]
if __name__ == '__main__':
    rnd = random.Random(1)
    H = {'md5_128': 'md5', 'sha1_160': 'sha1', 'sha2_224': 'sha224', 'sha2_256': 'sha256', 'sha2_384': 'sha384', 'sha2_512': 'sha512', 'sha2_512_224': 'sha512_224', 'sha2_512_256': 'sha512_256', 'ripemd_160': 'ripemd160'}
    for n, h in H.items():
        for L in (0, 1, 3, 55, 56, 63, 64, 111, 112, 130):
            d = bytes(rnd.randrange(256) for _ in range(L))
            try: want = hashlib.new(h, d).digest()
            except ValueError: print('no', h); break
            assert run(SPECS[n], d) == want, (n, L)
        print(n, 'ok')
    V = [('ripemd_128', b'', 'cdf26213a150dc3ecb610f18f6b38b46'), ('ripemd_128', b'abc', 'c14a12199c66e4ba84636b0f69144c77'), ('ripemd_160', b'abc', '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc'),
         ('ripemd_128', b'abcdefghijklmnopqrstuvwxyz', 'fd2aa607f71dc8f510714922b371834e'), ('ripemd_160', b'abcdefghijklmnopqrstuvwxyz', 'f71c27109c692c1b56bbdceb5b9d2865b3708dbc')]
    for n, d, w in V: assert run(SPECS[n], d).hex() == w, (n, d, run(SPECS[n], d).hex())
    iv = lambda b: int.from_bytes(b, 'little')
    assert iv(run(SPECS['fnv1a_32'], b'foobar')) == 0xbf9cf968 and iv(run(SPECS['fnv1a_64'], b'foobar')) == 0x85944171f73967e8
    k = [const(64, int.from_bytes(bytes(range(8)), 'little')), const(64, int.from_bytes(bytes(range(8, 16)), 'little'))]
    s = SPECS['siphash_64']; assert iv(run(s, bytes(range(15)), s.init(*k))) == 0xa129ca6149be45e5
    s = SPECS['siphash_32']; kk = [const(32, 0x03020100), const(32, 0x07060504)]
    # reference vectors of halfsiphash (32 bit output): in = {} -> a9359f5b , {00} -> 27475ab8
    assert run(s, b'', s.init(*kk)).hex() == 'a9359f5b' and run(s, b'\0', s.init(*kk)).hex() == '27475ab8', run(s, b'', s.init(*kk)).hex()
    assert iv(run(SPECS['xxhash_32'], b'')) == 0x02cc5d05 and iv(run(SPECS['xxhash_64'], b'')) == 0xef46db3751d8e999
    assert iv(run(SPECS['xxhash_64'], b'Nobody inspects the spammish repetition')) == 0xfbcea83c8a378bf1
    assert iv(run(SPECS['xxhash_32'], b'Nobody inspects the spammish repetition')) == 0xe2293b2f
    assert iv(run(SPECS['murmur3_32'], b'test')) == 0xba6bd213 and iv(run(SPECS['murmur3_32'], b'The quick brown fox jumps over the lazy dog')) == 0x2e4ff723
    assert run(SPECS['murmur3_128'], b'The quick brown fox jumps over the lazy dog')[:8][::-1].hex() == 'e34bbc7bbc071b6c'
    print('vectors ok')
