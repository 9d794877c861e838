#include "common.h"
#include "json/json_serializer.h"
#include <math.h>
using namespace CubicleSoft;
typedef JSON::Serializer S;
// ---------------------------------------------------------------- reference text
static std::string esc(const std::string &t, bool sl)
{
	std::string o;
	for (size_t i = 0; i < t.size(); i++)
	{
		unsigned char c = t[i]; char u[8];
		switch (c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
			case '/': o += sl ? "\\/" : "/"; break; default: if (c < 32) { snprintf(u, sizeof u, "\\u%04x", c); o += u; } else o += (char)c; }
	}
	return o;
}
// ---------------------------------------------------------------- values and a strict parser
struct V { int k; std::string s; std::vector<std::pair<std::string, V> > m; V(int kk = 0) : k(kk) {} };   // 0 null 1 false 2 true 3 number 4 string 5 array 6 object
static bool eq(const V &a, const V &b)
{
	if (a.k != b.k || a.m.size() != b.m.size()) return false;
	if (a.k == 3) { if (a.s.find_first_of(".eE") == std::string::npos || b.s.find_first_of(".eE") == std::string::npos) { if (a.s != b.s) return false; } else if (strtod(a.s.c_str(), NULL) != strtod(b.s.c_str(), NULL)) return false; }
	else if (a.s != b.s) return false;
	for (size_t i = 0; i < a.m.size(); i++) if (a.m[i].first != b.m[i].first || !eq(a.m[i].second, b.m[i].second)) return false;
	return true;
}
struct P
{
	const std::string &t; size_t i; P(const std::string &x) : t(x), i(0) {}
	void ws() { while (i < t.size() && strchr(" \t\r\n", t[i]) && t[i]) i++; }
	bool lit(const char *w) { size_t n = strlen(w); if (t.compare(i, n, w)) return false; i += n; return true; }
	bool str(std::string &o)
	{
		if (i >= t.size() || t[i] != '"') return false; i++; o = "";
		for (;;)
		{
			if (i >= t.size()) return false;
			unsigned char c = t[i++];
			if (c == '"') return true;
			if (c < 32) return false;
			if (c != '\\') { o += (char)c; continue; }
			if (i >= t.size()) return false;
			c = t[i++];
			switch (c) { case '"': case '\\': case '/': o += (char)c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
				case 'u': { unsigned v = 0; for (int q = 0; q < 4; q++) { if (i >= t.size() || !isxdigit((unsigned char)t[i])) return false; char h = t[i++]; v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } if (v > 127) return false; o += (char)v; break; }
				default: return false; }
		}
	}
	bool val(V &v, int depth)
	{
		ws();
		if (i >= t.size()) return false;
		char c = t[i];
		if (c == '"') { v.k = 4; return str(v.s); }
		if (c == 'n') { v.k = 0; return lit("null"); }
		if (c == 't') { v.k = 2; return lit("true"); }
		if (c == 'f') { v.k = 1; return lit("false"); }
		if (c == '[' || c == '{')
		{
			bool ob = c == '{'; v.k = ob ? 6 : 5; i++; ws();
			char e = ob ? '}' : ']';
			if (i < t.size() && t[i] == e) { i++; return true; }
			for (;;)
			{
				std::pair<std::string, V> p;
				if (ob) { ws(); if (!str(p.first)) return false; ws(); if (i >= t.size() || t[i] != ':') return false; i++; }
				if (!val(p.second, depth + 1)) return false;
				v.m.push_back(p); ws();
				if (i >= t.size()) return false;
				if (t[i] == e) { i++; return true; }
				if (t[i] != ',') return false;
				i++;
			}
		}
		size_t b = i;
		if (i < t.size() && t[i] == '-') i++;
		if (i >= t.size() || !isdigit((unsigned char)t[i])) return false;
		if (t[i] == '0') i++; else while (i < t.size() && isdigit((unsigned char)t[i])) i++;
		if (i < t.size() && t[i] == '.') { i++; if (i >= t.size() || !isdigit((unsigned char)t[i])) return false; while (i < t.size() && isdigit((unsigned char)t[i])) i++; }
		if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { i++; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++; if (i >= t.size() || !isdigit((unsigned char)t[i])) return false; while (i < t.size() && isdigit((unsigned char)t[i])) i++; }
		v.k = 3; v.s = t.substr(b, i - b); return true;
	}
};
static std::string rtext(bool nul)
{
	size_t n = rnd(3) ? rnd(5) : rnd(20); std::string t;
	static const char sp[] = "\"\\/\b\f\n\r\t\x01\x1f\x1e\x0b\x7f\x80\xff\xc3\xa9 az09:,{}[]";
	for (size_t i = 0; i < n; i++) { char c = rnd(2) ? sp[rnd(sizeof sp - 1)] : (char)(rnd(3) ? 1 + rnd(255) : 1 + rnd(31)); if (nul && rnd(8) == 0) c = 0; t += c; }
	return t;
}
static char *dup(const std::string &t, bool z) { char *p = (char *)malloc(t.size() + (z ? 1 : 0) + (t.empty() && !z)); memcpy(p, t.data(), t.size()); if (z) p[t.size()] = 0; return p; }

static void run()
{
	static const char *KS[] = { ": ", ":", " : ", ":\n\t\t" }, *VS[] = { ", ", ",", " ,\t", ",\r\n" };
	bool sl = rnd(2); std::string ks = KS[rnd(4)], vs = VS[rnd(4)]; size_t depth = rnd(3) ? 2 + rnd(5) : 512;
	if (rnd(20) == 0) depth = 1;
	S s(sl, ks.c_str(), vs.c_str(), depth);
	std::string all, cur, log;        // everything flushed, the current buffer
	std::vector<int> mode(1, S::ModeRootFirst); std::vector<V *> st; V root; bool have = false; std::string sv; std::vector<std::string> keys;
	bool pure = true;
	size_t B = 0; uint8_t *buf = NULL;
	bool roomy = rnd(3) == 0;
#define NEWBUF() do { free(buf); B = roomy ? 1500 : 1 + (rnd(4) ? rnd(60) : rnd(8)); buf = (uint8_t *)malloc(B); memset(buf, 0x5a, B); s.SetBuffer(buf, B); all += cur; cur = ""; } while (0)
	NEWBUF();
	int ops = 5 + rnd(40);
	for (int k = 0; k <= ops; k++)
	{
		std::string add, what; bool ok = true, soft = false; unsigned op = k == ops ? 20 : rnd(21);
		int m = mode.back();
		bool key = (m == S::ModeObjectFirst || m == S::ModeObjectNext); if (rnd(12) == 0) key = !key;
		std::string kt = rtext(false), t = rtext(true); char *kp = key ? dup(kt, true) : NULL;
		bool legal = !(m == S::ModeRootNext || m == S::ModeStr || ((m == S::ModeObjectFirst || m == S::ModeObjectNext) && !key) || ((m == S::ModeRootFirst || m == S::ModeArrayFirst || m == S::ModeArrayNext) && key));
		std::string pre; if (m == S::ModeObjectNext || m == S::ModeArrayNext) pre = vs;
		if (key) pre += "\"" + esc(kt, sl) + "\"" + ks;
		uint64_t iv = rnd(3) ? rndbits() : (rnd(2) ? 0x8000000000000000ULL : 0 - rnd(200)); double d; size_t prec = rnd(2) ? 17 + rnd(80) : rnd(2) ? rnd(20) : rndbits();
		{ uint64_t z = rnd(); memcpy(&d, &z, 8); if (rnd(3) == 0) d = (double)(int64_t)iv / 1024; if (rnd(12) == 0) d = rnd(2) ? INFINITY : NAN; if (rnd(12) == 0) d = 0 - d; }
		char nt[400]; bool val = true; V nv; int push = -1; bool pop = false, ret = false, strpart = false; size_t room = B - 1 - cur.size();
		char *vp = NULL;
		std::vector<uint8_t> before(buf, buf + B); size_t pos0 = s.GetCurrPos();
		std::string tc = std::string(t.c_str());
#define SHOW() CASE("escape %d splitters '%s' '%s' depth %zu, %s then op %u key %s text %s int %llu double %g precision %zu, buffer %zu holding '%s'", sl, hexs(ks.data(), ks.size()).c_str(), hexs(vs.data(), vs.size()).c_str(), depth, log.c_str(), op, key ? hexs(kt.data(), kt.size()).c_str() : "none", hexs(t.data(), t.size()).c_str(), (unsigned long long)iv, d, prec, B, cur.c_str())
		SHOW();
		char lb[24]; snprintf(lb, sizeof lb, "%u ", op); if (log.size() < 300) log += lb;
		switch (op)
		{
			case 0: case 1: ret = s.StartObject(kp); nv.k = 6; add = "{"; push = S::ModeObjectFirst; legal = legal && mode.size() < depth; break;
			case 2: case 3: ret = s.StartArray(kp); nv.k = 5; add = "["; push = S::ModeArrayFirst; legal = legal && mode.size() < depth; break;
			case 4: ret = s.StartStr(kp); nv.k = 4; add = "\""; push = S::ModeStr; legal = legal && mode.size() < depth; break;
			case 5: ret = s.EndObject(); legal = m == S::ModeObjectFirst || m == S::ModeObjectNext; add = "}"; val = false; pop = true; pre = ""; break;
			case 6: ret = s.EndArray(); legal = m == S::ModeArrayFirst || m == S::ModeArrayNext; add = "]"; val = false; pop = true; pre = ""; break;
			case 7: ret = s.EndStr(); legal = m == S::ModeStr; add = "\""; val = false; pop = true; pre = ""; break;
			case 8: ret = s.AppendNull(kp); nv.k = 0; add = "null"; break;
			case 9: { bool b = rnd(2); ret = kp || rnd(2) ? s.AppendBool(kp, b) : s.AppendBool(b); nv.k = b ? 2 : 1; add = b ? "true" : "false"; soft = b && room == pre.size() + 4; break; }
			case 10: ret = kp || rnd(2) ? s.AppendInt(kp, (int64_t)iv) : s.AppendInt((int64_t)iv); nv.k = 3; snprintf(nt, sizeof nt, "%lld", (long long)iv); add = nv.s = nt; break;
			case 11: ret = kp || rnd(2) ? s.AppendUInt(kp, iv) : s.AppendUInt(iv); nv.k = 3; snprintf(nt, sizeof nt, "%llu", (unsigned long long)iv); add = nv.s = nt; break;
			case 12: case 13: { int form = rnd(3); if (kp == NULL && form == 0) { prec = 16; ret = s.AppendDouble(d); } else if (kp && form == 0) { prec = 100; ret = s.AppendDouble(kp, d); } else ret = s.AppendDouble(kp, d, prec); nv.k = 3; snprintf(nt, sizeof nt, "%.*g", (int)std::min(prec, (size_t)92), d); add = nv.s = nt; legal = legal && isfinite(d);
				if (legal && prec >= 17) CHECK(strtod(nt, NULL) == d, "reference"); break; }
			case 14: case 15: case 16: { bool cnt = rnd(2); std::string &u = cnt ? t : tc; if (rnd(30) == 0) { ret = rnd(2) ? s.AppendStr(kp, (const char *)NULL) : s.AppendStr(kp, (const char *)NULL, (size_t)3); legal = false; break; }
				vp = dup(u, !cnt); size_t ex = esc(u, sl).size() + (m == S::ModeStr ? 0 : 2);
				CHECK((cnt ? s.CalculateStrSize(vp, u.size()) : s.CalculateStrSize(vp)) == ex, "CalculateStrSize");
				CHECK((cnt ? s.CalculateStrSize(vp, u.size(), true) : s.CalculateStrSize(vp, true)) == ex + ks.size(), "CalculateStrSize with the splitter");
				if (kp || rnd(2)) ret = cnt ? s.AppendStr(kp, vp, u.size()) : s.AppendStr(kp, vp); else ret = cnt ? s.AppendStr(vp, u.size()) : s.AppendStr(vp);
				if (m == S::ModeStr) { legal = true; val = false; strpart = true; pre = ""; add = esc(u, sl); nv.s = u; } else { nv.k = 4; nv.s = u; add = "\"" + esc(u, sl) + "\""; }
				break; }
			case 17: { static const char *W[] = { "", " ", "\n", "\t \r" }; std::string w = m == S::ModeStr && rnd(3) ? "" : W[rnd(4)]; if (rnd(3) == 0 && m != S::ModeStr) w = std::string(room + rnd(3), ' '); if (w.size() > 2000) w = " "; if (w != "" && m == S::ModeStr) pure = false;
				bool cnt = rnd(2); vp = dup(w, !cnt); ret = cnt ? s.Append(vp, w.size()) : s.Append(vp); legal = true; val = false; add = w; pre = ""; break; }
			case 18: if (rnd(3) == 0) { NEWBUF(); } else if (rnd(2)) { s.ResetPos(); all += cur; cur = ""; } free(kp); continue;
			case 19: CHECK((int)s.GetCurrMode() == m && s.IsKeyRequired() == (m == S::ModeObjectFirst || m == S::ModeObjectNext), "mode"); CHECK(s.GetBuffer() == buf && s.GetBufferSize() == B - 1, "buffer"); if (rnd(6) == 0) { sl = !sl; s.SetEscapeSlashes(sl); } if (rnd(8) == 0) { ks = KS[rnd(4)]; vs = VS[rnd(4)]; s.SetKeySplitter(ks.c_str()); s.SetValSplitter(vs.c_str()); }
				if (rnd(60) == 0) { s.Reset(); mode.assign(1, S::ModeRootFirst); st.clear(); have = false; root = V(); all = cur = ""; pure = true; } free(kp); continue;
			default:
			{
				if (k < ops && rnd(4)) { free(kp); continue; }
				// close everything, possibly over several buffers
				for (int g = 0;; g++)
				{
					CHECK(g < 1000, "Finish never succeeds");
					std::string exp; std::vector<int> mm = mode; size_t r = B - 1 - cur.size();
					while (mm.size() > 1 && exp.size() < r) { int x = mm.back(); exp += x == S::ModeStr ? '"' : x == S::ModeArrayFirst || x == S::ModeArrayNext ? ']' : '}'; mm.pop_back(); }
					bool all_done = mm.size() == 1;
					ret = s.Finish();
					CHECK(ret == all_done, "Finish returned %d", ret);
					cur += exp; while (mode.size() > mm.size()) { mode.pop_back(); if (!st.empty()) { if (st.back()->k == 4) st.back()->s = sv; st.pop_back(); } }
					CHECK(s.GetCurrPos() == cur.size() && !memcmp(buf, cur.data(), cur.size()), "Finish wrote something else");
					if (ret) break;
					NEWBUF();
				}
				CHECK((int)s.GetCurrMode() == mode.back(), "mode after Finish");
				std::string doc = all + cur;
				if (have && pure)
				{
					NONTRIV();
					P p(doc); V got; bool good = p.val(got, 0); p.ws();
					CHECK(good && p.i == doc.size(), "the document is not JSON: %s", doc.c_str());
					CHECK(eq(got, root), "the document describes other data: %s", doc.c_str());
				}
				free(kp); continue;
			}
		}
		ok = legal && pre.size() + add.size() <= room;
		if (soft) ok = ret;
		CHECK(ret == ok, "returned %d, expected %d (room %zu)", ret, ok, room);
		if (!ok)
		{
			CHECK(s.GetCurrPos() == pos0 && (int)s.GetCurrMode() == m, "a failed call moved the position or the mode");
			CHECK(!memcmp(buf, before.data(), B), "a failed call changed the buffer");
			NONTRIV();
		}
		else
		{
			cur += pre + add;
			CHECK(s.GetCurrPos() == cur.size(), "position %zu, expected %zu", s.GetCurrPos(), cur.size());
			CHECK(!memcmp(buf, cur.data(), cur.size()), "text '%.*s' expected '%s'", (int)cur.size(), buf, cur.c_str());
			CHECK(buf[cur.size()] == 0, "not terminated");
			for (size_t q = cur.size() + 1; q < B; q++) CHECK(buf[q] == before[q], "wrote past the terminator");
			if (val)
			{
				if (m == S::ModeRootFirst) mode.back() = S::ModeRootNext; else if (m == S::ModeObjectFirst) mode.back() = S::ModeObjectNext; else if (m == S::ModeArrayFirst) mode.back() = S::ModeArrayNext;
				V *w;
				if (st.empty()) { root = nv; have = true; w = &root; } else { st.back()->m.push_back(std::make_pair(kt, nv)); if (st.back()->k != 6) st.back()->m.back().first = ""; w = &st.back()->m.back().second; }
				if (push >= 0) { st.push_back(w); mode.push_back(push); sv = ""; }
			}
			if (strpart) sv += nv.s;
			if (pop) { if (mode.back() == S::ModeStr && !st.empty()) st.back()->s = sv; mode.pop_back(); if (!st.empty()) st.pop_back(); }
			CHECK((int)s.GetCurrMode() == mode.back(), "mode %d, expected %d", (int)s.GetCurrMode(), mode.back());
		}
		free(kp); free(vp);
	}
	free(buf);
}
static void harness() { do run(); while (time_left()); }
