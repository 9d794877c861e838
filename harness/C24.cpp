#include "common.h"
#include "sync/sync_tls.h"
using namespace CubicleSoft;
typedef Sync::TLS TLS; typedef Sync::TLS::MixedVar MV;
struct Md { int mode; int64_t i; double d; std::string s; bool has; Md() : mode(0), i(0), d(0), has(false) {} };
static std::string digits(uint64_t v, unsigned r) { std::string o; do { o.insert(o.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[v % r]); v /= r; } while (v); return o; }
static std::string itext(bool sgn, uint64_t v, unsigned r) { std::string t = sgn && (int64_t)v < 0 ? "-" + digits(0 - v, r) : digits(v, r); return t.size() < 44 ? t : ""; }
static void same(MV &v, Md &m, const char *w)
{
	CHECK(v.GetSize() == m.s.size() && v.MxStrPos == m.s.size(), "%s: size %zu, expected %zu", w, v.GetSize(), m.s.size());
	if (!m.has) CHECK(v.GetStr() == NULL, "%s: has storage", w);
	else
	{
		CHECK(v.GetStr() != NULL, "%s: no storage", w);
		CHECK(!memcmp(v.GetStr(), m.s.data(), m.s.size()), "%s: text is '%s' expected '%s'", w, v.GetStr(), m.s.c_str());
		CHECK(v.GetStr()[m.s.size()] == 0, "%s: not terminated", w);
	}
	CHECK((int)v.MxMode == m.mode && v.GetInt() == m.i && v.GetUInt() == (uint64_t)m.i && v.GetBool() == (m.i != 0), "%s: mode or integer", w);
	double a = v.GetDouble(), b = m.d; CHECK(!memcmp(&a, &b, 8), "%s: double", w);
	CHECK(v.IsNone() == (m.mode == 0) && v.IsBool() == (m.mode == 1) && v.IsInt() == (m.mode == 2) && v.IsUInt() == (m.mode == 3) && v.IsDouble() == (m.mode == 4) && v.IsStr() == (m.mode == 5), "%s: Is functions", w);
}
static size_t repl(std::string &s, const std::string &a, const std::string &b)
{
	std::string o; size_t n = 0;
	if (a.empty()) return 0;
	for (size_t p = 0; p < s.size();) if (s.size() - p >= a.size() && !s.compare(p, a.size(), a)) { o += b; p += a.size(); n++; } else o += s[p++];
	s = o; return n;
}
static std::string text(size_t n, int al) { std::string t(n, ' '); for (size_t q = 0; q < n; q++) t[q] = al == 0 ? (char)rnd() : al == 1 ? (char)(1 + rnd(255)) : (char)('a' + rnd(al)); return t; }
static void run(TLS &tls, int ops, size_t big)
{
	MV *v = new MV(&tls); Md m;
	same(*v, m, "new"); CHECK(v->GetTLS() == &tls, "GetTLS");
	int al = rnd(3) ? (int)rnd(4) : 2;
	for (int k = 0; k < ops; k++)
	{
		unsigned op = rnd(24);
		size_t room = 0; while (((size_t)8 << room) <= m.s.size()) room++;
		size_t n = rnd(3) == 0 ? ((size_t)8 << room) - m.s.size() - rnd(3) : rnd(8) == 0 ? rnd(big) : rnd(6);
		if (n > big) n = rnd(20);
		std::string t = text(n, al), cs = std::string(t.c_str());
		char *e = (char *)malloc(n + 1); memcpy(e, t.data(), n); e[n] = 0;
		char *ed = (char *)malloc(n ? n : 1); memcpy(ed, t.data(), n);
		uint64_t val = rnd(3) ? rndbits() : (rnd(2) ? 0x8000000000000000ULL : rnd(3)); unsigned r = rnd(2) ? 10 : 2 + rnd(35);
		if (rnd(3) == 0) val = 0 - val;
		double d = rnd(3) ? (double)(int64_t)val / 1024.0 : (rnd(2) ? 0.1 * rnd(1000) : 1e300 * rnd(100)); size_t prec = rnd(3) ? 16 : rnd(8) ? rnd(30) : rnd(3) ? 85 + rnd(20) : rndbits(); if (rnd(6) == 0) { uint64_t db = rnd(); memcpy(&d, &db, 8); }
		char dt[200]; snprintf(dt, sizeof dt, "%1.*g", (int)std::min(prec, (size_t)92), d);
		CASE("text of %zu, op %u: data of %zu bytes %s, value %llu radix %u, double %s precision %zu", m.s.size(), op, n, hexs(t.data(), n).c_str(), (unsigned long long)val, r, dt, prec);
		std::string x; bool num = false, pre = false;
		switch (op)
		{
			case 0: v->SetStr(e); m.mode = 5; m.s = cs; m.has = true; break;
			case 1: v->SetData(ed, n); m.mode = 5; m.s = t; m.has = true; break;
			case 2: v->AppendStr(e); m.s += cs; m.has = true; break;
			case 3: v->AppendData(ed, n); m.s += t; m.has = true; break;
			case 4: v->PrependStr(e); m.s = cs + m.s; m.has = true; break;
			case 5: v->PrependData(ed, n); m.s = t + m.s; m.has = true; break;
			case 6: v->AppendInt((int64_t)val, r); x = itext(true, val, r); num = true; break;
			case 7: v->AppendUInt(val, r); x = itext(false, val, r); num = true; break;
			case 8: v->PrependInt((int64_t)val, r); x = itext(true, val, r); num = pre = true; break;
			case 9: v->PrependUInt(val, r); x = itext(false, val, r); num = pre = true; break;
			case 10: v->AppendDouble(d, prec); m.s += dt; m.has = true; break;
			case 11: v->PrependDouble(d, prec); m.s = dt + m.s; m.has = true; break;
			case 12: { char ch = rnd(2) || m.s.empty() ? (char)rnd() : m.s[m.s.size() - 1]; v->AppendChar(ch); m.s += ch; m.has = true; break; }
			case 13: { char ch = rnd(2) || m.s.empty() ? (char)rnd() : m.s[m.s.size() - 1]; v->AppendMissingChar(ch); if (m.s.empty() || m.s[m.s.size() - 1] != ch) { m.s += ch; m.has = true; } break; }
			case 14: { char ch = rnd(2) || m.s.empty() ? (char)rnd(2) : m.s[m.s.size() - 1]; bool h = !m.s.empty() && m.s[m.s.size() - 1] == ch; CHECK(v->RemoveTrailingChar(ch) == h, "RemoveTrailingChar"); if (h) m.s.erase(m.s.size() - 1); break; }
			case 15: { size_t z = rnd(3) ? rnd(m.s.size() + 1) : m.s.size() + n; size_t o = m.s.size(); v->SetSize(z); m.has = true; m.s.resize(z); if (z > o) { CHECK(v->GetSize() == z, "SetSize"); memset(v->GetStr() + o, 0, z - o); } break; }
			case 16: if (rnd(2)) { bool bb = rnd(2); v->SetBool(bb); m.mode = 1; m.i = bb; } else { v->SetDouble(d); m.mode = 4; m.d = d; } break;
			case 17: v->SetInt((int64_t)val); m.mode = 2; m.i = (int64_t)val; break;
			case 18: v->SetUInt(val); m.mode = 3; m.i = (int64_t)val; break;
			case 19: { MV c(*v); same(c, m, "copy"); CHECK(!m.has || c.GetStr() != v->GetStr(), "the copy shares its storage"); Md mc = m; c.AppendStr("xyz"); mc.s += "xyz"; mc.has = true; same(c, mc, "changed copy"); same(*v, m, "source of a copy"); NONTRIV(); break; }
			case 20: { MV c(&tls); if (rnd(2)) c.SetStr(e); MV &q = (c = *v); CHECK(&q == &c, "assignment result"); same(c, m, "assigned"); CHECK(!m.has || c.GetStr() != v->GetStr(), "the assigned variable shares its storage"); MV &z = c; c = z; same(c, m, "self assignment"); *v = c; break; }
			case 21: case 22: if (m.has && n < 40)
			{
				std::string a = rnd(3) || m.s.empty() ? text(1 + rnd(3), al) : m.s.substr(rnd(m.s.size()), 1 + rnd(4)), b = text(rnd(6), al); if (rnd(6) == 0) b = text(rnd(200), al);
				if (op == 22) { a = a.c_str(); b = b.c_str(); }
				CASE("text of %zu %s: replacing %s by %s", m.s.size(), hexs(m.s.data(), m.s.size()).c_str(), hexs(a.data(), a.size()).c_str(), hexs(b.data(), b.size()).c_str());
				size_t want = repl(m.s, a, b), got = op == 21 ? v->ReplaceData(a.data(), a.size(), b.data(), b.size()) : v->ReplaceStr(a.c_str(), b.c_str());
				CHECK(got == want, "%zu replacements instead of %zu", got, want); if (want) NONTRIV();
			} break;
			default: if (!m.has) CHECK(v->ReplaceStr("a", "bb") == 0, "replacement in nothing"); if (rnd(3) == 0) { delete v; v = new MV(&tls); m = Md(); } break;
		}
		if (num && !x.empty()) { m.s = pre ? x + m.s : m.s + x; m.has = true; }
		free(e); free(ed);
		same(*v, m, "after the operation");
		if (m.s.size() > 3 * big) { v->SetSize(3); m.s.resize(3); }
	}
	delete v;
}
static void harness()
{
	TLS tls;
	do { CHECK(tls.ThreadInit(rnd(20)), "ThreadInit"); run(tls, 400, 60); run(tls, 200, 600); run(tls, 40, 20000); CHECK(tls.ThreadEnd(), "ThreadEnd"); } while (time_left());
}
