#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/xxhash.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#include <cstddef>
#include <cstdint>
#include <new>
using namespace boost::hash2;
typedef unsigned char const* pc;
#define ALG(H) \
 extern "C" unsigned long long size_##H() { return sizeof(H); } \
 extern "C" unsigned long long rsize_##H() { return sizeof(H::result_type); } \
 extern "C" void ctor_##H( H* h ) { ::new((void*)h) H; } \
 extern "C" void seed_##H( H* h, std::uint64_t s ) { ::new((void*)h) H(s); } \
 extern "C" void key_##H( H* h, pc p, std::size_t n ) { ::new((void*)h) H(p,n); } \
 extern "C" void update_##H( H* h, pc p, std::size_t n ) { h->update(p,n); } \
 extern "C" void updatev_##H( H* h, void const* p, std::size_t n ) { h->update(p,n); } \
 extern "C" void result_##H( H* h, H::result_type* r ) { ::new((void*)r) H::result_type( h->result() ); } \
 extern "C" void copy_##H( H* h, H const* g ) { ::new((void*)h) H(*g); } \
 extern "C" void assign_##H( H* h, H const* g ) { *h = *g; }
ALG(fnv1a_32)
ALG(fnv1a_64)
ALG(siphash_32)
ALG(siphash_64)
ALG(xxhash_32)
ALG(xxhash_64)
ALG(md5_128)
ALG(sha1_160)
ALG(sha2_224)
ALG(sha2_256)
ALG(sha2_384)
ALG(sha2_512)
ALG(sha2_512_224)
ALG(sha2_512_256)
ALG(ripemd_128)
ALG(ripemd_160)
typedef murmur3_32 m3_32; typedef murmur3_128 m3_128;
ALG(murmur3_32)
ALG(murmur3_128)
ALG(spooky2_128)
extern "C" void seed2_murmur3_128( murmur3_128* h, std::uint64_t s, std::uint64_t t ) { ::new((void*)h) murmur3_128(s,t); }
extern "C" void seed2_spooky2_128( spooky2_128* h, std::uint64_t s, std::uint64_t t ) { ::new((void*)h) spooky2_128(s,t); }
#define HM(H) typedef hmac<H> hmac_##H##_t; ALG(hmac_##H##_t)
HM(md5_128)
HM(sha1_160)
HM(sha2_224)
HM(sha2_256)
HM(sha2_384)
HM(sha2_512)
HM(sha2_512_224)
HM(sha2_512_256)
HM(ripemd_128)
HM(ripemd_160)
