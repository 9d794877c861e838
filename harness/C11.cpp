#include "common.h"
#include "templates/static_vector.h"
#include "templates/static_2d_array.h"
using namespace CubicleSoft;
template <class T> T mkv(uint64_t v);
template <> uint64_t mkv<uint64_t>(uint64_t v) { return v; }
template <> uint8_t mkv<uint8_t>(uint64_t v) { return (uint8_t)v; }
template <> std::string mkv<std::string>(uint64_t v) { char b[64]; snprintf(b, 64, "value number %llu that is long", (unsigned long long)v); return b; }
template <class T> static void fill(StaticVector<T> &v, std::vector<T> &m, int range) { m.clear(); for (size_t i = 0; i < v.GetSize(); i++) { T t = mkv<T>(rnd(range)); v[i] = t; m.push_back(t); } }
template <class T> static void chk(StaticVector<T> &v, const std::vector<T> &m, const char *w)
{
	CHECK(v.GetSize() == m.size(), "%s: size %zu expected %zu", w, v.GetSize(), m.size());
	for (size_t i = 0; i < m.size(); i++) { CHECK(v[i] == m[i], "%s: element %zu differs", w, i); CHECK(&v[i] == v.RawData() + i, "%s: element %zu not in the raw data", w, i); }
}
template <class T> static void vec(size_t a, size_t b, int range)
{
	CASE("vector sizes %zu %zu range %d", a, b, range);
	StaticVector<T> x(a), y(b);
	std::vector<T> mx, my;
	fill(x, mx, range); fill(y, my, range);
	chk(x, mx, "filled"); chk(y, my, "filled");
	CHECK((x == y) == (mx == my) && (x != y) == (mx != my), "comparison");
	{
		StaticVector<T> c(x);
		chk(c, mx, "copy"); CHECK(c == x && !(c != x), "copy equals source");
		if (a) { size_t k = rnd(a); T o = c[k]; c[k] = mkv<T>(1000 + rnd(5)); if (!(c[k] == o)) { CHECK(c != x && !(c == x), "copies differ after change at %zu", k); NONTRIV(); } chk(x, mx, "source after changing the copy"); }
		c = y; chk(c, my, "assigned"); CHECK(c == y, "assigned equals source");
		if (b) { c[b - 1] = mkv<T>(77777); chk(y, my, "source of assignment"); }
		c = c; CHECK(c.GetSize() == b, "self assignment");
		StaticVector<T> &r = (c = x); CHECK(&r == &c, "assignment returns the object"); chk(c, mx, "assigned again");
		StaticVector<T> d(0); c = d; CHECK(c.GetSize() == 0, "empty"); c = y; chk(c, my, "assigned after empty"); StaticVector<T> e(d); CHECK(e == d, "empty copies");
		d = x; chk(d, mx, "empty assigned"); e = d; chk(e, mx, "chain");
	}
	chk(x, mx, "end"); chk(y, my, "end");
}
template <class T> static void fill2(Static2DArray<T> &v, std::vector<std::vector<T> > &m, int range) { m.clear(); for (size_t i = 0; i < v.GetHeight(); i++) { m.push_back(std::vector<T>()); for (size_t j = 0; j < v.GetWidth(); j++) { T t = mkv<T>(rnd(range)); v[i][j] = t; m[i].push_back(t); } } }
template <class T> static void chk2(Static2DArray<T> &v, size_t w, const std::vector<std::vector<T> > &m, const char *wh)
{
	CHECK(v.GetHeight() == m.size() && v.GetWidth() == w, "%s: size %zux%zu expected %zux%zu", wh, v.GetWidth(), v.GetHeight(), w, m.size());
	for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < w; j++) { CHECK(v[i][j] == m[i][j], "%s: element %zu,%zu differs", wh, i, j); CHECK(&v[i][j] == v.RawData()[i] + j, "%s: raw", wh); }
}
template <class T> static void arr(size_t w, size_t h, size_t w2, size_t h2, int range)
{
	CASE("array %zux%zu and %zux%zu range %d", w, h, w2, h2, range);
	Static2DArray<T> x(w, h), y(w2, h2);
	std::vector<std::vector<T> > mx, my;
	fill2(x, mx, range); fill2(y, my, range);
	chk2(x, w, mx, "filled"); chk2(y, w2, my, "filled");
	bool e = w == w2 && h == h2 && mx == my;
	CHECK((x == y) == e && (x != y) == !e, "comparison");
	Static2DArray<T> c(x);
	chk2(c, w, mx, "copy"); CHECK(c == x && !(c != x), "copy equals source");
	if (w && h) { size_t i = rnd(h), j = rnd(w); T o = c[i][j]; c[i][j] = mkv<T>(1000 + rnd(5)); if (!(o == c[i][j])) { CHECK(c != x, "differs at %zu,%zu", i, j); NONTRIV(); } chk2(x, w, mx, "source after changing the copy"); }
	c = y; chk2(c, w2, my, "assigned"); CHECK(c == y, "assigned equals source");
	if (w2 && h2) { c[h2 - 1][w2 - 1] = mkv<T>(77777); chk2(y, w2, my, "source of assignment"); }
	Static2DArray<T> &rr = (c = c); CHECK(&rr == &c, "self assignment");
	c = x; chk2(c, w, mx, "assigned again");
	Static2DArray<T> d(0, 0); c = d; CHECK(c.GetWidth() == 0 && c.GetHeight() == 0, "empty"); c = y; chk2(c, w2, my, "after empty");
	Static2DArray<T> f(d); CHECK(f == d, "empty copies"); f = x; chk2(f, w, mx, "chain");
}
static void harness()
{
	for (size_t a = 0; a < 8; a++) for (size_t b = 0; b < 8; b++) for (int r = 1; r <= 3; r += 2) { vec<uint64_t>(a, b, r); vec<uint8_t>(a, b, r); vec<std::string>(a, b, r); }
	for (size_t w = 0; w < 5; w++) for (size_t h = 0; h < 5; h++) for (size_t w2 = 0; w2 < 5; w2++) for (size_t h2 = 0; h2 < 5; h2++) { arr<uint64_t>(w, h, w2, h2, 1); arr<uint8_t>(w, h, w2, h2, 3); if (w2 < 3) arr<std::string>(w, h, w2, h2, 2); }
	while (time_left()) { vec<uint64_t>(rnd(300), rnd(300), 1 + rnd(3)); vec<uint8_t>(rnd(3000), rnd(70), 256); size_t w = rnd(40), h = rnd(40); arr<uint64_t>(w, h, rnd(2) ? w : rnd(30), rnd(2) ? h : rnd(30), 2); arr<uint64_t>(w, h, h, w, 1); }
}
