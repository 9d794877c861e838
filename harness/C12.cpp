#include "common.h"
#include "templates/static_mixed_var.h"
using namespace CubicleSoft;
// model: the text, the mode, the integer and the double
struct Md { int mode; int64_t i; double d; std::string s; size_t cap; Md(size_t n) : mode(0), i(0), d(0), cap(n) {}
	void app(const std::string &t) { s += t.substr(0, std::min(t.size(), cap - 1 - s.size())); }
	void pre(const std::string &t) { if (s.size() + t.size() < cap) s = t + s; } };
static std::string digits(uint64_t v, unsigned r) { std::string o; do { o.insert(o.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[v % r]); v /= r; } while (v); return o; }
static std::string itext(bool sgn, uint64_t v, unsigned r) { std::string t = sgn && (int64_t)v < 0 ? "-" + digits(0 - v, r) : digits(v, r); return t.size() < 44 ? t : ""; }
template <size_t N> static void same(StaticMixedVar<char[N]> &v, Md &m, const char *w)
{
	CHECK(v.GetSize() == m.s.size(), "%s: size %zu, expected %zu", w, v.GetSize(), m.s.size());
	CHECK(!memcmp(v.GetStr(), m.s.data(), m.s.size()), "%s: text is '%s' expected '%s'", w, v.GetStr(), m.s.c_str());
	CHECK(v.GetStr()[m.s.size()] == 0, "%s: not terminated", w);
	CHECK((int)v.MxMode == m.mode && v.GetInt() == m.i && v.GetUInt() == (uint64_t)m.i && v.GetBool() == (m.i != 0), "%s: mode or integer", w);
	double a = v.GetDouble(), b = m.d; CHECK(!memcmp(&a, &b, 8), "%s: double", w);
	CHECK(v.GetMaxSize() == N, "%s: maximum size", w);
	CHECK(v.IsNone() == (m.mode == 0) && v.IsBool() == (m.mode == 1) && v.IsInt() == (m.mode == 2) && v.IsUInt() == (m.mode == 3) && v.IsDouble() == (m.mode == 4) && v.IsStr() == (m.mode == 5), "%s: Is functions", w);
}
template <size_t N> static void run(int ops)
{
	struct G { char a[16]; StaticMixedVar<char[N]> v; char b[16]; };
	G *g = (G *)malloc(sizeof(G)); memset(g, 0x5a, sizeof(G)); new (&g->v) StaticMixedVar<char[N]>();
	StaticMixedVar<char[N]> &v = g->v; Md m(N);
	same(v, m, "new");
	for (int k = 0; k < ops; k++)
	{
		unsigned op = rnd(20);
		size_t room = N - 1 - m.s.size(), n = rnd(4) == 0 ? room : rnd(4) == 0 ? room + 1 : rnd(4) == 0 ? N + rnd(5) : rnd(6);
		if (n > 9000) n = 9000;
		bool nul = rnd(4) == 0;
		std::string t(n, ' '); for (size_t q = 0; q < n; q++) t[q] = nul ? (char)rnd() : (char)(1 + rnd(255));
		std::string cs = std::string(t.c_str());
		char *e = (char *)malloc(n + 1); memcpy(e, t.data(), n); e[n] = 0;
		char *ed = (char *)malloc(n ? n : 1); memcpy(ed, t.data(), n);
		uint64_t val = rnd(3) ? rndbits() : (rnd(2) ? 0x8000000000000000ULL : rnd(3)); unsigned r = rnd(2) ? 10 : 2 + rnd(35);
		if (rnd(3) == 0) val = 0 - val;
		double d = rnd(3) ? (double)(int64_t)val / 1024.0 : (rnd(2) ? 0.1 * rnd(1000) : 1e300 * rnd(100)); size_t prec = rnd(3) ? 16 : rnd(8) ? rnd(30) : rnd(3) ? 85 + rnd(20) : rndbits(); if (rnd(6) == 0) { uint64_t db = rnd(); memcpy(&d, &db, 8); }
		char dt[200]; snprintf(dt, sizeof dt, "%1.*g", (int)std::min(prec, (size_t)92), d);
		CASE("capacity %zu, text of %zu, op %u: data of %zu bytes %s, value %llu radix %u, double %s precision %zu", N, m.s.size(), op, n, hexs(t.data(), n).c_str(), (unsigned long long)val, r, dt, prec);
		if (N <= n + m.s.size()) NONTRIV();
		switch (op)
		{
			case 0: v.SetStr(e); m.mode = 5; m.s = ""; m.app(cs); break;
			case 1: v.SetData(ed, n); m.mode = 5; m.s = ""; m.app(t); break;
			case 2: case 3: v.AppendStr(e); m.app(cs); break;
			case 4: v.AppendData(ed, n); m.app(t); break;
			case 5: v.PrependStr(e); m.pre(cs); break;
			case 6: v.PrependData(ed, n); m.pre(t); break;
			case 7: v.AppendInt((int64_t)val, r); m.app(itext(true, val, r)); break;
			case 8: v.AppendUInt(val, r); m.app(itext(false, val, r)); break;
			case 9: v.PrependInt((int64_t)val, r); m.pre(itext(true, val, r)); break;
			case 10: v.PrependUInt(val, r); m.pre(itext(false, val, r)); break;
			case 11: v.AppendDouble(d, prec); m.app(dt); break;
			case 12: v.PrependDouble(d, prec); m.pre(dt); break;
			case 13: { char ch = rnd(2) || m.s.empty() ? (char)rnd() : m.s[m.s.size() - 1]; v.AppendChar(ch); m.app(std::string(1, ch)); break; }
			case 14: { char ch = rnd(2) || m.s.empty() ? (char)rnd() : m.s[m.s.size() - 1]; v.AppendMissingChar(ch); if (m.s.empty() || m.s[m.s.size() - 1] != ch) m.app(std::string(1, ch)); break; }
			case 15: { char ch = rnd(2) || m.s.empty() ? (char)rnd(2) : m.s[m.s.size() - 1]; bool h = !m.s.empty() && m.s[m.s.size() - 1] == ch; CHECK(v.RemoveTrailingChar(ch) == h, "RemoveTrailingChar"); if (h) m.s.erase(m.s.size() - 1); break; }
			case 16: { size_t z = rnd(3) ? rnd(m.s.size() + 1) : (rnd(2) ? N : ~(size_t)0); v.SetSize(z); if (z < N) m.s.resize(z); break; }
			case 17: if (rnd(2)) { bool bb = rnd(2); v.SetBool(bb); m.mode = 1; m.i = bb; } else { v.SetDouble(d); m.mode = 4; m.d = d; } break;
			case 18: v.SetInt((int64_t)val); m.mode = 2; m.i = (int64_t)val; break;
			default: v.SetUInt(val); m.mode = 3; m.i = (int64_t)val; break;
		}
		free(e); free(ed);
		same(v, m, "after the operation");
		for (int q = 0; q < 16; q++) CHECK(g->a[q] == 0x5a && g->b[q] == 0x5a, "bytes around the variable changed");
		if (rnd(20) == 0) { StaticMixedVar<char[N]> c(v); same(c, m, "copy"); }
		if (rnd(30) == 0) { v.SetSize(0); m.s = ""; }
	}
	free(g);
}
static void harness()
{
	do { run<1>(100); run<2>(200); run<3>(200); run<5>(300); run<8>(400); run<17>(400); run<44>(400); run<45>(300); run<100>(300); run<8192>(60); } while (time_left());
}
