#include "utf8ref.h"
static void one(std::vector<uint32_t> v)
{
	for (size_t i = 0; i < v.size(); i++) if (!v[i]) v[i] = 'z';
	v.push_back(0); Buf s(1, v); const char *p = (const char *)s.p; size_t n = v.size() - 1;
	std::vector<int64_t> cp; std::vector<size_t> at, en;
	for (size_t x = 0; x < n; ) { DC d = dec8((uint8_t *)p, n, x); if (d.cp <= 0) { if (d.cp == 0 && x == 0) { cp.push_back(0); at.push_back(0); en.push_back(d.len); x += d.len; continue; } break; } if (x == 0 && comb(d.cp)) break; cp.push_back(d.cp); at.push_back(x); x += d.len; en.push_back(x); }
	bool f0 = !cp.empty() && cp[0] == 0;
	CASE("code points of %s", show(v).c_str());
	size_t pos = 0, size = 0, base = 0; uint32_t r = 0, nx = 0; bool hc = false;
	for (size_t i = 0; i < cp.size(); i++)
	{
		bool ok = U8::NextCodePoint(r, nx, p, pos, size, hc);
		CHECK(ok, "iteration ended before code point %zu of %zu", i, cp.size()); CHECK(r == cp[i], "code point %zu is %X instead of %llX", i, r, (long long)cp[i]); CHECK(size == n, "size %zu", size);
		bool last = i + 1 == cp.size(), c = !last && comb(cp[i + 1]);
		CHECK(hc == c, "code point %zu: combining flag %d", i, hc); CHECK(nx == (last ? 0 : cp[i + 1]) || f0, "code point %zu: next is %X", i, nx); CHECK(pos == (last ? en[i] : en[i + 1]) || (last && nx == 0), "position %zu after code point %zu", pos, i);
		if (!c) base++; if (c) NONTRIV();
	}
	bool ok = U8::NextCodePoint(r, nx, p, pos, size, hc); CHECK(!ok, "iteration continues with %X after code point %zu", r, cp.size());
	if (cp.empty()) base = 0;
	size_t l = U8::strlen(p); CHECK(l == base, "strlen is %zu instead of %zu", l, base);
	// ASCII iteration
	pos = 0; char a; for (size_t i = 0; i < cp.size(); i++) { bool c = i + 1 < cp.size() && comb(cp[i + 1]); if (cp[i] > 0x7F || c) continue; a = 1; CHECK(U8::NextASCIICodePoint(a, nx, p, pos, size), "ASCII iteration misses code point %zu", i); CHECK(a == (char)cp[i], "ASCII code point %zu is %02X", i, (uint8_t)a); }
	CHECK(!U8::NextASCIICodePoint(a, nx, p, pos, size), "ASCII iteration continues");
	// search
	std::vector<uint32_t> want; for (size_t i = 0; i < cp.size() && i < 12; i++) want.push_back(cp[rnd(cp.size())]); want.push_back(rcp()); want.push_back(0x301); want.push_back('a');
	for (size_t k = 0; k < want.size(); k++) for (int allow = 0; allow < 2; allow++)
	{
		size_t e = (size_t)-1, g = 31337; for (size_t i = 0; i < cp.size(); i++) if (cp[i] == want[k] && (allow || !(i + 1 < cp.size() && comb(cp[i + 1])))) { e = at[i]; break; }
		if (!allow && comb(want[k])) e = (size_t)-1;
		CASE("find %X (combining %d) in %s", want[k], allow, show(v).c_str());
		bool f = U8::FindCodePoint(g, want[k], p, allow); CHECK(f == (e != (size_t)-1), "search returned %d", f); CHECK(g == (f ? e : 31337), "found at %zu instead of %zu", g, e);
	}
}
static void harness()
{
	for (uint32_t c = 0; c < 0x120000; c += c > 0x10100 && (c & 0xFFF) > 8 ? 7 : 1) CHECK(U8::IsCombiningCodePoint(c) == comb(c), "IsCombiningCodePoint(%X)", c);
	for (int i = 0; i < 100000; i++) { uint32_t c = rnd(); CHECK(U8::IsCombiningCodePoint(c) == comb(c), "IsCombiningCodePoint(%X)", c); }
	one(std::vector<uint32_t>());
	for (uint32_t c = 1; c < 0x110000; c += c > 0x3000 && (c & 0xFFFF) > 0x10 && (c & 0xFFFF) < 0xFFF0 ? 11 : 1) { std::vector<uint32_t> v = enc(c, 1), e = v; e.insert(e.begin(), 'a'); if (rnd(2)) e.push_back('b'); one(e); if (rnd(3) == 0 || comb(c)) one(v); }
	for (unsigned a = 1; a < 256; a++) for (unsigned b = 1; b < 256; b += a < 0x80 ? 37 : 1) { std::vector<uint32_t> v; if (rnd(2)) v.push_back('k'); v.push_back(a); v.push_back(b); if (rnd(2)) { v.push_back(0x80 + (a ^ b) % 64); if (rnd(2)) v.push_back(0x80 + rnd(64)); } if (rnd(2)) v.push_back('q'); one(v); }
	do { for (size_t n = 0; n < 20; n++) one(rsrc(1, n)); one(rsrc(1, rnd(150))); std::vector<uint32_t> v; for (size_t i = rnd(20); i; i--) { int64_t c; do c = rcp(); while (!okcp(c) || !c); std::vector<uint32_t> e = enc(c, 1); v.insert(v.end(), e.begin(), e.end()); } one(v); } while (time_left());
}
