#include "common.h"
#include <fcntl.h>
#include <errno.h>
static std::vector<uint8_t> g_src; static size_t g_pos; static int g_plan[64], g_np, g_ip; static int g_openfail; static std::vector<std::string> g_opened; static int g_closed;
// a scripted random device: plan entries: >0 at most that many bytes, 0 end of file, -1 EINTR, -2 EIO
static ssize_t fake_read(int fd, void *p, size_t n)
{
	CHECK(fd == 77, "read from descriptor %d", fd);
	int k = g_ip < g_np ? g_plan[g_ip++] : 1 << 20;
	if (k == -1) { errno = EINTR; return -1; }
	if (k == -2) { errno = EIO; return -1; }
	if (k == -3) { errno = EAGAIN; return -1; }
	if (k == 0 && n) return 0;
	size_t m = n < (size_t)k ? n : (size_t)k;
	for (size_t i = 0; i < m; i++) { while (g_pos >= g_src.size()) g_src.push_back((uint8_t)rnd()); ((uint8_t *)p)[i] = g_src[g_pos++]; }
	errno = EINTR; // stale value
	return (ssize_t)m;
}
static int fake_open(const char *f, int, ...) { g_opened.push_back(f); if (g_openfail > 0) { g_openfail--; errno = ENOENT; return -1; } return 77; }
static int fake_close(int fd) { g_closed = fd; return 0; }
#define read fake_read
#define open fake_open
#define close fake_close
#include "security/security_csprng.cpp"
#undef read
#undef open
#undef close
using namespace CubicleSoft;
static void plan() { g_np = rnd(8); g_ip = 0; for (int i = 0; i < g_np; i++) { int k = rnd(20); g_plan[i] = k < 4 ? -1 : k == 4 ? -2 : k == 5 ? 0 : k == 6 ? -3 : 1 + (int)rnd(9); } }
static std::string plans() { std::string s; for (int i = 0; i < g_np; i++) s += std::to_string(g_plan[i]) + " "; return s; }
// does delivering n bytes meet a failure first?
static bool fails(size_t n, int &ip, size_t &got) { got = 0; while (got < n) { int k = ip < g_np ? g_plan[ip] : 1 << 20; ip++; if (k == -1) continue; if (k <= 0) return true; got += std::min<size_t>(k, n - got); } return false; }
static void bytes(Security::CSPRNG &r, size_t n, bool nofd)
{
	plan();
	g_src.clear(); g_pos = 0; for (size_t i = 0; i < n + 8; i++) g_src.push_back((uint8_t)rnd());
	CASE("GetBytes of %zu with device plan [%s]", n, plans().c_str());
	uint8_t *b = new uint8_t[n]; memset(b, 0xA5, n);
	int ip = 0; size_t got; bool bad = fails(n, ip, got) || nofd;
	bool ok = r.GetBytes(b, n);
	CHECK(ok == !bad, "returned %d", (int)ok);
	if (ok) { CHECK(g_pos == n && !memcmp(b, g_src.data(), n), "bytes are not the %zu source bytes in order (consumed %zu)", n, g_pos); NONTRIV(); }
	delete[] b;
}
static void integer(Security::CSPRNG &r, uint64_t a, uint64_t c, bool nofail)
{
	plan(); if (nofail) for (int i = 0; i < g_np; i++) if (g_plan[i] == 0 || g_plan[i] < -1) g_plan[i] = 8;
	uint64_t lo = std::min(a, c), hi = std::max(a, c), rng = hi - lo, mask = 0; while (mask < rng) mask = mask * 2 + 1;
	g_src.clear(); g_pos = 0; for (int i = 0; i < 8 * 6; i++) g_src.push_back((uint8_t)rnd());
	if (rnd(2)) { uint64_t w = rnd(2) ? rng : rng + 1; w |= rnd() & ~mask; memcpy(g_src.data(), &w, 8); } // exactly the largest value, or one above
	CASE("GetInteger between %llu and %llu, device plan [%s], source %s", (unsigned long long)a, (unsigned long long)c, plans().c_str(), hexs(g_src.data(), 48).c_str());
	uint64_t v = 12345, want = 0; bool wantok = false; int ip = 0; size_t pos = 0;
	for (;;) { size_t got; if (fails(8, ip, got)) break; while (g_src.size() < pos + 8) g_src.push_back((uint8_t)rnd()); uint64_t w; memcpy(&w, &g_src[pos], 8); pos += 8; if ((w & mask) <= rng) { want = lo + (w & mask); wantok = true; break; } }
	bool ok = r.GetInteger(v, a, c);
	CHECK(ok == wantok, "returned %d expected %d", (int)ok, (int)wantok);
	if (ok) { CHECK(v >= lo && v <= hi, "%llu is out of range", (unsigned long long)v); CHECK(v == want, "%llu expected %llu", (unsigned long long)v, (unsigned long long)want); CHECK(g_pos == pos, "consumed %zu of %zu", g_pos, pos); NONTRIV(); }
}
static void harness()
{
	{
		g_opened.clear(); g_closed = 0; { Security::CSPRNG s(true); } CHECK(g_opened.size() == 1 && g_opened[0] == "/dev/random" && g_closed == 77, "the strong generator uses /dev/random");
		g_opened.clear(); { Security::CSPRNG s(false); } CHECK(g_opened.size() == 1 && g_closed == 77, "generator without a fallback");
		g_opened.clear(); g_openfail = 1; { Security::CSPRNG s(false); CHECK(g_opened.size() == 2 && g_opened[1] == "/dev/urandom", "fallback device"); bytes(s, 9, false); }
		g_openfail = 9; { Security::CSPRNG s(true); bytes(s, 9, true); bytes(s, 0, true); uint64_t v; CHECK(!s.GetInteger(v, 1, 2), "integer without a source"); } g_openfail = 0;
	}
	Security::CSPRNG r(false);
	for (size_t n = 0; n < 40; n++) for (int k = 0; k < 40; k++) bytes(r, n, false);
	static const uint64_t E[] = { 0, 1, 2, 3, 7, 8, 9, 255, 256, 1000, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xfffffffffffffffeULL, 0xffffffffffffffffULL };
	for (uint64_t a : E) for (uint64_t b : E) for (int k = 0; k < 12; k++) integer(r, a, b, k < 9);
	while (time_left()) { bytes(r, rnd(200), false); uint64_t a = rndbits(), b = rnd(2) ? rndbits() : a + rnd(300); integer(r, a, b, rnd(4) != 0); }
}
