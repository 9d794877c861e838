#include "utf8ref.h"
#include "utf8/utf8_mixed_var.h"
using namespace CubicleSoft;
static std::vector<uint32_t> model(const void *s, size_t w, size_t n, size_t cap, bool meas, size_t &last)
{
	std::vector<uint32_t> o;
	for (size_t x = 0; x < n; )
	{
		DC d = dec(s, w, n, x); x += d.len;
		if (!okcp(d.cp) || (o.empty() && comb(d.cp))) continue;
		std::vector<uint32_t> e = enc(d.cp, 1);
		if (!meas && o.size() + e.size() > cap) continue;
		o.insert(o.end(), e.begin(), e.end()); last = w == 1 ? x : x - 1;
	}
	return o;
}
static void one(const std::vector<uint32_t> &v, size_t w, bool all)
{
	Buf s(w, v); size_t n = v.size(), lm = 777777, l = 777777, y = rnd(50);
	std::vector<uint32_t> full = model(s.p, w, n, 0, true, lm);
	CASE("to UTF-8, width %zu, measure: %s", w, show(v).c_str());
	U8::ConvertToUTF8(s.p, n, w, NULL, y, &l);
	CHECK(y == full.size(), "measured %zu instead of %zu", y, full.size()); CHECK(l == lm, "last position %zu instead of %zu", l, lm);
	for (size_t cap = 0; cap <= full.size() + 1; cap++)
	{
		if (!all && cap + 3 < full.size() && rnd(4)) continue;
		CASE("to UTF-8, width %zu, capacity %zu: %s", w, cap, show(v).c_str());
		Buf d(1, cap); if (cap) memset(d.p, 0xAA, cap); y = cap; l = lm = 777777; bool wl = rnd(4) != 0;
		std::vector<uint32_t> m = model(s.p, w, n, cap, false, lm);
		// a null pointer asks for the size: an empty buffer still is one
		uint8_t dummy = 0xAA; uint8_t *dp = cap ? (uint8_t *)d.p : &dummy;
		U8::ConvertToUTF8(s.p, n, w, dp, y, wl ? &l : NULL);
		CHECK(y == m.size(), "stored %zu bytes instead of %zu", y, m.size()); if (wl) CHECK(l == lm, "last position %zu instead of %zu", l, lm);
		for (size_t i = 0; i < cap; i++) CHECK(d.get(i) == (i < y ? m[i] : 0xAA), "byte %zu is %02X", i, d.get(i));
		CHECK(dummy == 0xAA, "wrote into an empty buffer");
		if (y) NONTRIV();
	}
}
static void wrapper(std::vector<uint32_t> v, size_t w)
{
	for (size_t i = 0; i < v.size(); i++) if (!v[i]) v[i] = 'z';
	v.push_back(0); Buf s(w, v); size_t lm = 777777, l = 777777, cnt = 0;
	std::vector<uint32_t> m = model(s.p, w, v.size(), 0, true, lm);
	CASE("to an allocated UTF-8 string, width %zu: %s", w, show(v).c_str());
	bool alt = rnd(2); char *r = U8::ConvertToUTF8(s.p, w, &l, &cnt, alt ? altmalloc : NULL);
	CHECK(r != NULL && cnt == (alt ? 1 : 0), "allocation"); CHECK(l == lm, "last position %zu instead of %zu", l, lm);
	for (size_t i = 0; i < m.size(); i++) CHECK((uint8_t)r[i] == m[i], "byte %zu of %zu is %02X", i, m.size(), (uint8_t)r[i]);
	CHECK(m.back() == 0, "model");
	if (alt) free(r); else delete[] (uint8_t *)r;
}
template <size_t N> static void mixed(const std::vector<uint32_t> &v0, const std::vector<uint32_t> &v1)
{
	std::vector<uint32_t> a = v0, b = v1, c; for (size_t i = 0; i < b.size(); i++) if (!b[i]) b[i] = 'y'; for (size_t i = 0; i < a.size(); i++) if (!a[i] && i + 1 < a.size()) a[i] = 'x';
	bool term = rnd(2) && !a.empty(); if (term) a.back() = 0; else if (!a.empty() && !a.back()) a.back() = 'w';
	static UTF8::UTF8MixedVar<char[N]> m; Buf s(4, a); size_t l;
	CASE("UTF-8 variable of %zu, set %zu units: %s then %s", N, a.size(), show(a).c_str(), show(b).c_str());
	std::vector<uint32_t> e = model(s.p, 4, a.size(), N - 1, false, l); if (!e.empty() && !e.back()) e.pop_back();
	m.MxMode = MV_None; m.SetUTF8((WCHAR *)s.p, a.size());
	CHECK(m.MxMode == MV_Str && m.MxStrPos == e.size() && m.MxStr[e.size()] == 0, "set: size %zu instead of %zu", m.MxStrPos, e.size());
	for (size_t i = 0; i < e.size(); i++) CHECK((uint8_t)m.MxStr[i] == e[i], "set: byte %zu", i);
	b.push_back(0); Buf t(4, b); std::vector<uint32_t> f = model(t.p, 4, b.size() - 1, N - 1 - e.size(), false, l);
	m.AppendUTF8((WCHAR *)t.p); e.insert(e.end(), f.begin(), f.end()); if (!e.empty() && !e.back()) e.pop_back();
	CHECK(m.MxStrPos == e.size() && m.MxStr[e.size()] == 0, "append: size %zu instead of %zu", m.MxStrPos, e.size());
	for (size_t i = 0; i < e.size(); i++) CHECK((uint8_t)m.MxStr[i] == e[i], "append: byte %zu", i);
	m.SetUTF8((WCHAR *)t.p); std::vector<uint32_t> g = model(t.p, 4, b.size() - 1, N - 1, false, l); if (!g.empty() && !g.back()) g.pop_back();
	CHECK(m.MxStrPos == g.size() && m.MxStr[g.size()] == 0, "set string: size %zu instead of %zu", m.MxStrPos, g.size());
	for (size_t i = 0; i < g.size(); i++) CHECK((uint8_t)m.MxStr[i] == g[i], "set string: byte %zu", i);
}
static void harness()
{
	for (uint32_t c = 0; c < 0x110010; c += c > 0x3000 && c < 0x10F000 && (c & 0xFFFF) > 0x10 && (c & 0xFFFF) < 0xFFF0 && (c < 0xD700 || c > 0xFF00) ? 13 : 1)
		for (size_t w = 1; w <= 4; w *= 2) { std::vector<uint32_t> v(1, 'a'), e; if (w == 4) e.push_back(c); else if (c < 0x110000 || w == 1) e = enc(c, w); v.insert(v.end(), e.begin(), e.end()); one(v, w, false); if (comb(c) || !okcp(c)) { v.erase(v.begin()); one(v, w, true); } }
	CHECK(U8::ConvertToUTF8("abc", 3) == NULL, "unknown width");
	for (unsigned a = 0; a < 256; a++) for (unsigned b = 0; b < 256; b += a < 0x80 ? 37 : 1) { std::vector<uint32_t> v; v.push_back(a); v.push_back(b); v.push_back(0x80 + (a ^ b) % 64); v.push_back('q'); one(v, 1, false); }
	do
	{
		for (size_t w = 1; w <= 4; w *= 2) for (size_t n = 0; n < 12; n++) { one(rsrc(w, n), w, true); wrapper(rsrc(w, n), w); }
		std::vector<uint32_t> a = rsrc(4, rnd(14)), b = rsrc(4, rnd(8)); mixed<1>(a, b); mixed<2>(a, b); mixed<5>(a, b); mixed<8>(a, b); mixed<17>(a, b); mixed<64>(a, b);
		size_t w = 1u << rnd(3); one(rsrc(w, rnd(200)), w, false); wrapper(rsrc(w, rnd(200)), w);
	} while (time_left());
}
