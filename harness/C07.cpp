#include "common.h"
#include "templates/cache.h"
#include "templates/detachable_ordered_hash.h"
#include "templates/packed_ordered_hash.h"
using namespace CubicleSoft;
static uint64_t djb2(const char *s) { uint64_t h = 5381; for (; *s; s++) h = (h * 33) ^ (uint64_t)(int64_t)*s; return h; }
static uint32_t djbx(const uint8_t *p, size_t n, uint32_t h) { size_t i = 0; for (; i + 4 <= n; i += 4) { uint32_t w; memcpy(&w, p + i, 4); h = h * 33 ^ w; } for (size_t k = n; k > i; k--) h = h * 33 ^ p[k - 1]; return h; }
static uint64_t rl(uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }
static void rd(uint64_t v[4], size_t n) { while (n--) { v[0] += v[1]; v[1] = rl(v[1], 13) ^ v[0]; v[0] = rl(v[0], 32); v[2] += v[3]; v[3] = rl(v[3], 16) ^ v[2]; v[0] += v[3]; v[3] = rl(v[3], 21) ^ v[0]; v[2] += v[1]; v[1] = rl(v[1], 17) ^ v[2]; v[2] = rl(v[2], 32); } }
static uint64_t sip(const uint8_t *p, size_t n, uint64_t k0, uint64_t k1, size_t c, size_t d)
{
	uint64_t v[4] = { k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL }, m;
	size_t i = 0; for (; i + 8 <= n; i += 8) { memcpy(&m, p + i, 8); v[3] ^= m; rd(v, c); v[0] ^= m; }
	m = (uint64_t)n << 56; for (size_t k = i; k < n; k++) m |= (uint64_t)p[k] << (8 * (k - i));
	v[3] ^= m; rd(v, c); v[0] ^= m; v[2] ^= 0xff; rd(v, d); return v[0] ^ v[1] ^ v[2] ^ v[3];
}
static void one(size_t n, unsigned al)
{
	uint8_t *b = new uint8_t[n + al], *p = b + al; int mode = rnd(4); for (size_t i = 0; i < n; i++) p[i] = mode == 0 ? 0xff : mode == 1 ? rnd(2) * 0x80 : (uint8_t)rnd();
	uint64_t k1 = rnd(), k2 = rnd(); size_t init = rnd(2) ? 5381 : rnd(), c = rnd(6), d = rnd(7); if (rnd(3) == 0) c = 2, d = 4;
	CASE("%zu bytes %s, seed %zu, keys %llu %llu, rounds %zu %zu", n, hexs(p, n).c_str(), init, (unsigned long long)k1, (unsigned long long)k2, c, d);
	CHECK(CacheUtil::GetHashKey(p, n) == djbx(p, n, 5381), "cache key of data");
	CHECK(OrderedHashUtil::GetDJBX33XHashKey(p, n, init) == djbx(p, n, (uint32_t)init), "ordered hash DJBX33X");
	CHECK(PackedOrderedHashUtil::GetDJBX33XHashKey(p, n, init) == djbx(p, n, (uint32_t)init), "packed ordered hash DJBX33X");
	CHECK(OrderedHashUtil::GetSipHashKey(p, n, k1, k2, c, d) == sip(p, n, k1, k2, c, d), "ordered hash SipHash");
	CHECK(PackedOrderedHashUtil::GetSipHashKey(p, n, k1, k2, c, d) == sip(p, n, k1, k2, c, d), "packed ordered hash SipHash");
	delete[] b;
	char *s = new char[n + 1]; for (size_t i = 0; i < n; i++) s[i] = (char)(1 + rnd(255)); s[n] = 0;
	CHECK(CacheUtil::GetHashKey(s) == djb2(s), "cache key of a string");
	delete[] s;
	if (n & 7) NONTRIV();
}
static void harness()
{
	// published test vector: key 00..0f, data 00..0e
	uint8_t v[15]; for (int i = 0; i < 15; i++) v[i] = i;
	CASE("published SipHash-2-4 vector");
	CHECK(sip(v, 15, 0x0706050403020100ULL, 0x0f0e0d0c0b0a0908ULL, 2, 4) == 0xa129ca6149be45e5ULL, "oracle");
	CHECK(OrderedHashUtil::GetSipHashKey(v, 15, 0x0706050403020100ULL, 0x0f0e0d0c0b0a0908ULL, 2, 4) == 0xa129ca6149be45e5ULL, "SipHash");
	for (size_t n = 0; n < 70; n++) for (int k = 0; k < 30; k++) one(n, k & 7);
	while (time_left()) one(rnd(3) ? rnd(40) : rnd(1000), rnd(8));
}
