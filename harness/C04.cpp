#include "common.h"
#include "templates/detachable_queue.h"
using namespace CubicleSoft;
template <class T> static T mk(uint64_t v);
template <> uint64_t mk<uint64_t>(uint64_t v) { return v; }
template <> std::string mk<std::string>(uint64_t v) { char b[64]; snprintf(b, 64, "a rather long string number %llu", (unsigned long long)v); return b; }
template <class L, class T> struct Side { L l; std::vector<QueueNode<T> *> n; std::vector<T> v; };
template <class L, class T> static void same(L &l, std::vector<QueueNode<T> *> &n, std::vector<T> &v, const char *w)
{
	CHECK(l.GetSize() == v.size(), "%s: GetSize() is %zu instead of %zu", w, l.GetSize(), v.size());
	CHECK(l.First() == (n.empty() ? NULL : n.front()), "%s: First()", w);
	CHECK(l.Last() == (n.empty() ? NULL : n.back()), "%s: Last()", w);
	for (size_t i = 0; i < n.size(); i++)
	{
		CHECK(n[i]->Next() == (i + 1 < n.size() ? n[i + 1] : NULL), "%s: next of element %zu of %zu", w, i, n.size());
		CHECK(n[i]->Value == v[i], "%s: value of element %zu of %zu", w, i, n.size());
	}
}
// values only (nodes of a copy are its own)
template <class L, class T> static void copyof(L &l, std::vector<QueueNode<T> *> &src, std::vector<T> &v, const char *w)
{
	std::vector<QueueNode<T> *> n;
	for (QueueNode<T> *p = l.First(); p != NULL && n.size() <= v.size(); p = p->Next()) { n.push_back(p); CHECK(std::find(src.begin(), src.end(), p) == src.end(), "%s: shares a node with its source", w); }
	CHECK(n.size() == v.size(), "%s: %zu elements instead of %zu", w, n.size(), v.size());
	same(l, n, v, w);
}
template <class L, class T> static void copies(Side<L, T> *, ...) {}
template <class T> static void copies(Side<Queue<T>, T> *s, int)
{
	Queue<T> c(s[0].l); copyof(c, s[0].n, s[0].v, "copy"); same(s[0].l, s[0].n, s[0].v, "source of a copy");
	std::vector<T> v = s[0].v; c += mk<T>(7); v.push_back(mk<T>(7)); copyof(c, s[0].n, v, "extended copy");
	Queue<T> d(mk<T>(99)); for (uint64_t i = rnd(4); i; i--) d.Push(mk<T>(i));
	Queue<T> &r = (d = s[0].l); CHECK(&r == &d, "assignment result"); copyof(d, s[0].n, s[0].v, "assigned"); same(s[0].l, s[0].n, s[0].v, "source of an assignment");
	Queue<T> &q = d; d = q; copyof(d, s[0].n, s[0].v, "self assignment");
	delete d.Shift(); delete c.Shift(); c.Empty(); same(s[0].l, s[0].n, s[0].v, "after changing the copies");
	NONTRIV();
}
template <class L, class T> static void run(int ops)
{
	typedef QueueNode<T> N;
	Side<L, T> s[2]; std::vector<N *> det;
	L one(mk<T>(5)); CHECK(one.GetSize() == 1 && one.First() == one.Last() && one.First() != NULL && one.First()->Value == mk<T>(5) && !one.First()->Next(), "list of one value");
	for (int k = 0; k < ops; k++)
	{
		int q = rnd(2); Side<L, T> &a = s[q], &b = s[1 - q];
		size_t n = a.n.size(), at = rnd(n + 1), op = rnd(15); T v = mk<T>(rnd(50)); N *ref = at < n ? a.n[at] : NULL, *r;
		CASE("step %d: operation %zu at %zu of %zu", k, op, at, n);
		bool bynode = rnd(2) && !det.empty(), own = n && rnd(5) == 0; N *nd = bynode ? det.back() : NULL;
		if (bynode) v = nd->Value; else if (own) v = a.v[rnd(n)];
		const T *vp = &v; if (!bynode && own) for (size_t i = 0; i < n; i++) if (a.n[i]->Value == v) { vp = &a.n[i]->Value; break; }
		size_t ins = (size_t)-1; r = NULL;
		switch (op)
		{
			case 2: r = bynode ? a.l.Push(nd) : a.l.Push(*vp); ins = n; break;
			case 3: r = bynode ? a.l.Unshift(nd) : a.l.Unshift(*vp); ins = 0; break;
			case 4: { L &z = bynode ? (a.l += nd) : (a.l += *vp); CHECK(&z == &a.l, "+= result"); r = a.l.Last(); ins = n; break; }
			case 8: r = a.l.Shift(); CHECK(r == (n ? a.n[0] : NULL), "Shift"); if (r) { CHECK(!r->Next(), "shifted node keeps a neighbour"); det.push_back(r); a.n.erase(a.n.begin()); a.v.erase(a.v.begin()); } break;
			case 9: if (rnd(4) == 0) { a.l.DetachAllAndAppend(b.l); a.n.insert(a.n.end(), b.n.begin(), b.n.end()); a.v.insert(a.v.end(), b.v.begin(), b.v.end()); b.n.clear(); b.v.clear(); NONTRIV(); } break;
			case 10: if (rnd(8) == 0) { a.l.Empty(); a.n.clear(); a.v.clear(); } break;
			case 11: { N *z = rnd(2) ? L::CreateNode() : L::CreateNode(v); if (rnd(2)) z->Value = v; else { N *y = L::CreateNode(v); CHECK(y->Value == v, "CreateNode value"); delete z; z = y; } CHECK(!z->Next(), "created node has a neighbour"); z->Value = v; det.push_back(z); break; }
			case 12: if (at + 1 < n) { r = rnd(2) ? b.l.Push(ref) : b.l.Unshift(ref); CHECK(r == NULL, "a node that is not detached was inserted"); } break;
			case 13: copies(s, 0); break;
			default: while (det.size() > 6) { delete det.back(); det.pop_back(); } if (rnd(4) == 0) while (a.n.size() > 1) { delete a.l.Shift(); a.n.erase(a.n.begin()); a.v.erase(a.v.begin()); }
		}
		if (ins != (size_t)-1)
		{
			CHECK(r != NULL && (!bynode || r == nd), "insertion result");
			if (bynode) det.pop_back(); else CHECK(std::find(a.n.begin(), a.n.end(), r) == a.n.end() && std::find(det.begin(), det.end(), r) == det.end(), "insertion reused a node");
			a.n.insert(a.n.begin() + ins, r); a.v.insert(a.v.begin() + ins, v);
		}
		same(s[0].l, s[0].n, s[0].v, "first list"); same(s[1].l, s[1].n, s[1].v, "second list");
	}
	for (size_t i = 0; i < det.size(); i++) delete det[i];
}
static void harness() { do { run<Queue<uint64_t>, uint64_t>(300); run<QueueNoCopy<uint64_t>, uint64_t>(200); run<Queue<std::string>, std::string>(150); run<QueueNoCopy<std::string>, std::string>(100); } while (time_left()); }
