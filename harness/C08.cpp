#include "common.h"
#include "templates/cache.h"
using namespace CubicleSoft;
template <class T> static T mk(uint64_t v);
template <> uint64_t mk<uint64_t>(uint64_t v) { return v; }
template <> uint32_t mk<uint32_t>(uint64_t v) { return (uint32_t)v; }
template <> std::string mk<std::string>(uint64_t v) { char b[64]; snprintf(b, 64, "a rather long string number %llu", (unsigned long long)v); return b; }
template <class K, class V> struct Model { std::vector<bool> u; std::vector<K> k; std::vector<V> v; Model(size_t n) : u(n), k(n), v(n) {} };
template <class C, class K, class V> static void same(C &c, Model<K, V> &m, const char *w)
{
	CHECK(c.GetSize() == m.u.size(), "%s: size %zu expected %zu", w, c.GetSize(), m.u.size());
	for (size_t i = 0; i < m.u.size(); i++)
	{
		CHECK(c.RawData()[i].Used == m.u[i], "%s: slot %zu used %d", w, i, (int)c.RawData()[i].Used);
		if (m.u[i]) CHECK(c.RawData()[i].Key == m.k[i] && c.RawData()[i].Value == m.v[i], "%s: slot %zu holds another pair", w, i);
	}
}
template <class C, class K, class V> static void step(C &c, Model<K, V> &m, unsigned op, size_t h, uint64_t kn, uint64_t vn)
{
	size_t n = m.u.size(), s = h % n;
	K key = mk<K>(kn); V val = mk<V>(vn);
	bool hit = m.u[s] && m.k[s] == key;
	if (op == 0) { c.Insert(h, key, val); m.u[s] = true; m.k[s] = key; m.v[s] = val; }
	else if (op == 1) { CHECK(c.Remove(h, key) == hit, "Remove"); if (hit) { m.u[s] = false; NONTRIV(); } }
	else if (op == 2) { CHECK(c.Exists(h, key) == hit, "Exists"); }
	else if (op == 3) { V r = mk<V>(424242); CHECK(c.Find(r, h, key) == hit, "Find"); CHECK(r == (hit ? m.v[s] : mk<V>(424242)), "Find result"); if (hit) NONTRIV(); }
	else { c.Empty(); for (size_t i = 0; i < n; i++) m.u[i] = false; }
}
template <class K, class V> static void run(size_t n, int ops, uint64_t hr, uint64_t kr)
{
	CASE("cache of %zu nodes, %d operations, hash range %llu, key range %llu", n, ops, (unsigned long long)hr, (unsigned long long)kr);
	Cache<K, V> c(n); CacheNoCopy<K, V> d(n);
	Model<K, V> m(n), md(n);
	same(c, m, "new"); same(d, md, "new");
	for (int i = 0; i < ops; i++)
	{
		unsigned op = rnd(40); op = op < 16 ? 0 : op < 22 ? 1 : op < 28 ? 2 : op < 39 ? 3 : 4;
		uint64_t h = hr ? rnd(hr) : rnd(), k = rnd(kr), v = rnd(100);
		CASE("cache of %zu nodes, step %d: op %u hash %llu key %llu value %llu", n, i, op, (unsigned long long)h, (unsigned long long)k, (unsigned long long)v);
		step(c, m, op, h, k, v); same(c, m, "Cache");
		step(d, md, op, h, k, v); same(d, md, "CacheNoCopy");
		if (rnd(12) == 0)
		{
			Cache<K, V> e(c); same(e, m, "copy"); Model<K, V> me(m);
			step(e, me, 0, rnd(), k, v); same(e, me, "changed copy"); same(c, m, "source");
			size_t n2 = rnd(2) ? n : 1 + rnd(n + 3);
			Cache<K, V> f(n2); Model<K, V> mf(n2); for (int q = 0; q < 5; q++) step(f, mf, 0, rnd(), rnd(kr), rnd(100));
			Cache<K, V> &r = (f = c); CHECK(&r == &f, "assignment result"); same(f, m, "assigned"); Model<K, V> mg(m);
			step(f, mg, 0, rnd(), k, v); same(f, mg, "changed assigned"); same(c, m, "source of assignment");
			f = f; same(f, mg, "self assignment");
			e.Empty(); same(c, m, "source after emptying the copy");
		}
	}
}
static void harness()
{
	for (size_t n = 1; n < 12; n++) { run<uint32_t, uint64_t>(n, 200, 3 * n, 6); run<std::string, std::string>(n, 100, 2 * n, 4); run<uint64_t, std::string>(n, 60, 0, 3); }
	while (time_left()) { size_t n = 1 + rnd(100); run<uint32_t, uint64_t>(n, 150, rnd(2) ? 0 : 2 * n, 1 + rnd(8)); run<std::string, uint64_t>(1 + rnd(20), 100, rnd(2) ? 0 : 10, 1 + rnd(4)); }
}
