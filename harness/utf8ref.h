// reference decoder and encoder
#pragma once
#include "common.h"
#include "utf8/utf8_util.h"
typedef CubicleSoft::UTF8::Util U8;
struct DC { size_t len; int64_t cp; };      // cp < 0: nothing decoded
static bool comb(int64_t c) { return (c >= 0x300 && c <= 0x36F) || (c >= 0x1DC0 && c <= 0x1DFF) || (c >= 0x20D0 && c <= 0x20FF) || (c >= 0xFE20 && c <= 0xFE2F); }
static bool okcp(int64_t c) { return c >= 0 && c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF) && !(c >= 0xFDD0 && c <= 0xFDEF) && (c & 0xFFFF) < 0xFFFE; }
static DC dec8(const uint8_t *s, size_t n, size_t x)
{
	DC r = { 1, -1 }; unsigned b = s[x]; size_t k = b < 0x80 ? 0 : b >= 0xC0 && b < 0xE0 ? 1 : b >= 0xE0 && b < 0xF0 ? 2 : b >= 0xF0 && b < 0xF8 ? 3 : 9;
	if (k == 9 || x + k >= n) return r;
	int64_t c = k == 0 ? b : b & (0x3F >> k);
	for (size_t i = 1; i <= k; i++) { if (s[x + i] < 0x80 || s[x + i] > 0xBF) return r; c = c * 64 + (s[x + i] - 0x80); }
	r.len = k + 1; r.cp = c; return r;
}
static DC dec16(const uint16_t *s, size_t n, size_t x)
{
	DC r = { 1, s[x] };
	if (s[x] >= 0xD800 && s[x] < 0xDC00) { r.cp = -1; if (x + 1 < n && s[x + 1] >= 0xDC00 && s[x + 1] < 0xE000) { r.len = 2; r.cp = 0x10000 + (s[x] - 0xD800) * 1024 + (s[x + 1] - 0xDC00); } }
	return r;
}
static DC dec(const void *s, size_t w, size_t n, size_t x) { if (w == 1) return dec8((const uint8_t *)s, n, x); if (w == 2) return dec16((const uint16_t *)s, n, x); DC r = { 1, ((const uint32_t *)s)[x] }; return r; }
static std::vector<uint32_t> enc(int64_t c, size_t w)
{
	std::vector<uint32_t> o;
	if (w == 4) o.push_back((uint32_t)c);
	else if (w == 2) { if (c > 0xFFFF) { o.push_back(0xD800 + ((c - 0x10000) / 1024)); o.push_back(0xDC00 + (c - 0x10000) % 1024); } else o.push_back((uint32_t)c); }
	else if (c < 0x80) o.push_back((uint32_t)c);
	else if (c < 0x800) { o.push_back(0xC0 + c / 64); o.push_back(0x80 + c % 64); }
	else if (c < 0x10000) { o.push_back(0xE0 + c / 4096); o.push_back(0x80 + c / 64 % 64); o.push_back(0x80 + c % 64); }
	else { o.push_back(0xF0 + c / 262144); o.push_back(0x80 + c / 4096 % 64); o.push_back(0x80 + c / 64 % 64); o.push_back(0x80 + c % 64); }
	return o;
}
static int64_t rcp()
{
	static const int64_t e[] = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFD, 0x1FFFE, 0x10FFFD, 0x10FFFF, 0x110000, 0x1FFFFF, 0x2FF, 0x300, 0x36F, 0x370, 0x1DBF, 0x1DC0, 0x1DFF, 0x1E00, 0x20CF, 0x20D0, 0x20FF, 0x2100, 0xFE1F, 0xFE20, 0xFE2F, 0xFE30 };
	switch (rnd(8)) { case 0: case 1: return e[rnd(sizeof(e) / sizeof(e[0]))]; case 2: return 1 + rnd(0x7E); case 3: return 0x80 + rnd(0x780); case 4: return 0x300 + rnd(0x70); case 5: return rnd(0x10000); case 6: return 0x10000 + rnd(0x100000); default: return 'a' + rnd(26); }
}
static std::vector<uint32_t> rsrc(size_t w, size_t n)
{
	std::vector<uint32_t> o;
	while (o.size() < n)
	{
		if (w == 4) { o.push_back(rnd(12) ? rcp() : (uint32_t)rnd()); continue; }
		if (w == 2) { if (rnd(6) == 0) o.push_back(0xD7FF + rnd(0x802)); else { std::vector<uint32_t> e = enc(rcp() & 0x10FFFF, 2); o.insert(o.end(), e.begin(), e.end()); } continue; }
		if (rnd(8) == 0) { static const uint8_t b[] = { 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFF, 0x7F, 0x41 }; o.push_back(rnd(3) ? b[rnd(sizeof b)] : rnd(256)); continue; }
		std::vector<uint32_t> e = enc(rcp() & 0x1FFFFF, 1); if (rnd(10) == 0) e.resize(rnd(e.size())); else if (rnd(16) == 0) { e.clear(); e.push_back(0xC0 | rnd(2)); e.push_back(0x80 | rnd(64)); } else if (rnd(20) == 0) { e.clear(); e.push_back(0xE0); e.push_back(0x80 | rnd(32)); e.push_back(0x80 | rnd(64)); } else if (rnd(12) == 0 && e.size() > 1) e[1 + rnd(e.size() - 1)] = rnd(256);
		o.insert(o.end(), e.begin(), e.end());
	}
	o.resize(n); return o;
}
// exact-size heap copies, so that every access outside is caught
struct Buf { size_t w, n; void *p; Buf(size_t w, size_t n) : w(w), n(n), p(malloc(w * n ? w * n : 1)) { if (!(w * n)) { free(p); p = malloc(0); } }
	Buf(size_t w, const std::vector<uint32_t> &v) : w(w), n(v.size()), p(malloc(w * v.size())) { for (size_t i = 0; i < n; i++) set(i, v[i]); }
	~Buf() { free(p); } void set(size_t i, uint32_t v) { if (w == 1) ((uint8_t *)p)[i] = v; else if (w == 2) ((uint16_t *)p)[i] = v; else ((uint32_t *)p)[i] = v; }
	uint32_t get(size_t i) { return w == 1 ? ((uint8_t *)p)[i] : w == 2 ? ((uint16_t *)p)[i] : ((uint32_t *)p)[i]; } };
static std::string show(const std::vector<uint32_t> &v) { std::string r; char b[16]; for (size_t i = 0; i < v.size() && i < 60; i++) { snprintf(b, 16, "%X ", v[i]); r += b; } return r; }
static void *altmalloc(void *m, size_t n) { ++*(size_t *)m; return malloc(n ? n : 1); }
