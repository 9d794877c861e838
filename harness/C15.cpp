#include "utf8ref.h"
#include "utf8/utf8_mixed_var.h"
using namespace CubicleSoft;
static std::vector<uint32_t> model(const uint8_t *s, size_t n, size_t w, size_t cap, bool meas)
{
	std::vector<uint32_t> o;
	for (size_t x = 0; x < n && (cap || meas); )
	{
		DC d = dec8(s, n, x); x += d.len;
		if (d.cp < 0) continue;
		if (!okcp(d.cp) || (o.empty() && comb(d.cp))) break;
		std::vector<uint32_t> e = enc(d.cp, w);
		if (!meas && o.size() + e.size() > cap) break;
		o.insert(o.end(), e.begin(), e.end());
	}
	return o;
}
static void one(const std::vector<uint32_t> &v, size_t w, bool all)
{
	Buf s(1, v); size_t n = v.size(), y = rnd(50);
	std::vector<uint32_t> full = model((uint8_t *)s.p, n, w, 0, true);
	CASE("from UTF-8, width %zu, measure: %s", w, show(v).c_str());
	U8::ConvertFromUTF8((uint8_t *)s.p, n, NULL, y, w); CHECK(y == full.size(), "measured %zu instead of %zu", y, full.size());
	for (size_t cap = 0; cap <= full.size() + 1; cap++)
	{
		if (!all && cap + 3 < full.size() && rnd(4)) continue;
		CASE("from UTF-8, width %zu, capacity %zu: %s", w, cap, show(v).c_str());
		Buf d(w, cap); if (cap) memset(d.p, 0xAA, cap * w); y = cap; uint32_t dummy = 0x12345678;
		std::vector<uint32_t> m = model((uint8_t *)s.p, n, w, cap, false);
		U8::ConvertFromUTF8((uint8_t *)s.p, n, cap ? d.p : &dummy, y, w);
		CHECK(y == m.size(), "stored %zu units instead of %zu", y, m.size());
		for (size_t i = 0; i < cap; i++) CHECK(d.get(i) == (i < y ? m[i] : 0xAAAAAAAAu >> (32 - 8 * w)), "unit %zu is %X", i, d.get(i));
		CHECK(dummy == 0x12345678, "wrote into an empty buffer"); if (y) NONTRIV();
	}
}
static void wrapper(std::vector<uint32_t> v, size_t w)
{
	for (size_t i = 0; i < v.size(); i++) if (!v[i]) v[i] = 'z';
	v.push_back(0); Buf s(1, v); size_t cnt = 0;
	std::vector<uint32_t> m = model((uint8_t *)s.p, v.size() - 1, w, 0, true); m.push_back(0);
	CASE("from UTF-8 to an allocated string, width %zu: %s", w, show(v).c_str());
	bool alt = rnd(2); void *r = U8::ConvertFromUTF8((char *)s.p, w, &cnt, alt ? altmalloc : NULL);
	CHECK(r != NULL && cnt == (alt ? 1 : 0), "allocation"); Buf b(w, (size_t)0); free(b.p); b.p = r;
	for (size_t i = 0; i < m.size(); i++) CHECK(b.get(i) == m[i], "unit %zu of %zu is %X", i, m.size(), b.get(i));
	if (!alt) { if (w == 1) delete[] (uint8_t *)r; else if (w == 2) delete[] (uint16_t *)r; else delete[] (uint32_t *)r; b.p = NULL; }
}
// what goes through UTF-8 comes back unchanged
static void round(size_t w, size_t n)
{
	std::vector<uint32_t> v, t; while (t.size() < n) { int64_t c = rcp() & 0x10FFFF; if (!okcp(c) || (t.empty() && comb(c))) continue; std::vector<uint32_t> e = enc(c, w); v.insert(v.end(), e.begin(), e.end()); t.push_back(c); }
	Buf s(w, v); size_t y = 0, z = v.size(); CASE("round trip, width %zu: %s", w, show(t).c_str());
	U8::ConvertToUTF8(s.p, v.size(), w, NULL, y); Buf u(1, y); U8::ConvertToUTF8(s.p, v.size(), w, (uint8_t *)u.p, y);
	Buf d(w, z); if (!y) return; U8::ConvertFromUTF8((uint8_t *)u.p, y, d.p, z, w); CHECK(z == v.size(), "%zu units come back of %zu", z, v.size()); for (size_t i = 0; i < z; i++) CHECK(d.get(i) == v[i], "unit %zu comes back as %X", i, d.get(i)); NONTRIV();
}
static void mixed(size_t n)
{
	std::vector<uint32_t> a = rsrc(1, n); for (size_t i = 0; i < n; i++) if (!a[i]) a[i] = 'x'; Buf s(1, a);
	static UTF8::UTF8MixedVar<char[64]> m; m.SetData((char *)s.p, n); CASE("variable to wide characters: %s", show(a).c_str());
	size_t cap = rnd(n + 3), y = cap; Buf d(4, cap + 1); a.push_back(0); Buf t(1, a); std::vector<uint32_t> e = model((uint8_t *)t.p, a.size(), 4, cap + 1, false); y = cap + 1;
	m.ConvertFromUTF8((WCHAR *)d.p, y); CHECK(y == e.size(), "%zu units instead of %zu", y, e.size()); for (size_t i = 0; i < y; i++) CHECK(d.get(i) == e[i], "unit %zu", i);
}
static void harness()
{
	for (uint32_t c = 0; c < 0x200000; c += c > 0x3000 && (c & 0xFFFF) > 0x10 && (c & 0xFFFF) < 0xFFF0 && (c < 0xD700 || c > 0xFF00) ? (c > 0x110000 ? 997 : 17) : 1)
		for (size_t w = 1; w <= 4; w *= 2) { std::vector<uint32_t> v(1, 'a'), e = enc(c, 1); v.insert(v.end(), e.begin(), e.end()); v.push_back('b'); one(v, w, false); if (comb(c) || !okcp(c)) { v.erase(v.begin()); one(v, w, true); } }
	CHECK(U8::ConvertFromUTF8("abc", 3) == NULL, "unknown width");
	for (unsigned a = 0; a < 256; a++) for (unsigned b = 0; b < 256; b += a < 0x80 ? 37 : 1) { std::vector<uint32_t> v; v.push_back(a); v.push_back(b); v.push_back(0x80 + (a ^ b) % 64); v.push_back('q'); one(v, 1u << rnd(3), false); }
	do
	{
		for (size_t w = 1; w <= 4; w *= 2) for (size_t n = 0; n < 12; n++) { one(rsrc(1, n), w, true); wrapper(rsrc(1, n), w); round(w, n); }
		size_t w = 1u << rnd(3); one(rsrc(1, rnd(200)), w, false); wrapper(rsrc(1, rnd(200)), w); round(w, rnd(100)); mixed(rnd(63));
	} while (time_left());
}
