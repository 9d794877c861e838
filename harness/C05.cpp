#include "common.h"
#include "templates/detachable_ordered_hash.h"
using namespace CubicleSoft;
template <class T> static T mk(uint64_t v);
template <> uint64_t mk<uint64_t>(uint64_t v) { return v; }
template <> std::string mk<std::string>(uint64_t v) { char b[64]; snprintf(b, 64, "a rather long string number %llu", (unsigned long long)v); return b; }
struct Key { bool str; int64_t i; std::string s; bool operator==(const Key &o) const { return str == o.str && (str ? s == o.s : i == o.i); } };
template <class T> struct El { OrderedHashNode<T> *n; Key k; T v; };
template <class T> static Key keyof(OrderedHashNode<T> *n) { Key k; k.str = n->GetStrKey() != NULL; k.i = k.str ? 0 : n->GetIntKey(); if (k.str) k.s.assign(n->GetStrKey(), (size_t)n->GetIntKey()); return k; }
static bool hexkeys;
static Key rkey(int range)
{
	Key k; k.str = rnd(2); k.i = 0; uint64_t r = rnd(range);
	if (!k.str) { k.i = rnd(4) ? (int64_t)r - range / 2 : (int64_t)(r << 58); return k; }
	char b[40]; size_t l = r % 11; snprintf(b, sizeof b, "%llukeykeykeyk", (unsigned long long)(r / 11)); k.s.assign(b, l); if (r % 5 == 0) k.s += std::string(1, '\0'); if (r % 7 == 0) k.s += "x"; if (rnd(3) == 0) { uint64_t q = r; k.s.assign((char *)&q, 8); }
	return k;
}
template <class H, class T> static OrderedHashNode<T> *find(H &h, const Key &k) { return k.str ? h.Find(k.s.data(), k.s.size()) : h.Find(k.i); }
template <class H, class T> static void same(H &h, std::vector<El<T> > &m, const char *w, bool nodes = true)
{
	CHECK(h.GetListSize() == m.size(), "%s: GetListSize() is %zu instead of %zu", w, h.GetListSize(), m.size());
	OrderedHashNode<T> *p = h.FirstList(), *prev = NULL; size_t i = 0;
	for (; p != NULL && i < m.size(); prev = p, p = p->NextList(), i++)
	{
		if (nodes) CHECK(p == m[i].n, "%s: element %zu is another node", w, i); else CHECK(p != m[i].n, "%s: shares a node with its source", w);
		CHECK(p->PrevList() == prev, "%s: previous of element %zu", w, i);
		CHECK(keyof(p) == m[i].k && p->Value == m[i].v, "%s: key or value of element %zu", w, i);
		if (!nodes && m[i].k.str) CHECK(p->GetStrKey() != m[i].n->GetStrKey(), "%s: shares a key string with its source", w);
		OrderedHashNode<T> *f = find<H, T>(h, m[i].k); CHECK(f == p, "%s: element %zu is not found by its key", w, i); CHECK(h.Find(p) == p, "%s: element %zu is not found by its node", w, i);
	}
	CHECK(p == NULL && i == m.size(), "%s: list has another length", w);
	CHECK(h.LastList() == prev, "%s: LastList()", w);
	size_t c = 0;
	for (size_t b = 0; b < h.GetHashSize(); b++) { OrderedHashNode<T> *q = NULL; for (p = h.RawHash()[b]; p != NULL && c <= m.size(); q = p, p = p->NextHash()) { CHECK(p->PrevHash() == q, "%s: previous in bucket %zu", w, b); c++; } }
	CHECK(c == m.size(), "%s: %zu nodes in the buckets instead of %zu", w, c, m.size());
}
template <class H, class T> static void copies(H *, std::vector<El<T> > &, int, ...) {}
template <class T> static void copies(OrderedHash<T> *h, std::vector<El<T> > &m, int range, int)
{
	typedef OrderedHash<T> H;
	H c(*h); same(c, m, "copy", false); same(*h, m, "source of a copy");
	Key k = rkey(range); bool has = find<H, T>(*h, k) != NULL;
	OrderedHashNode<T> *n = k.str ? c.Push(k.s.data(), k.s.size(), mk<T>(1)) : c.Push(k.i, mk<T>(1)); CHECK((n == NULL) == has, "insertion into a copy"); same(*h, m, "source after changing the copy");
	H d(1 + rnd(40)); H e(7, rnd(), rnd()); for (int q = 0; q < 5; q++) { d.Push((int64_t)rnd(range), mk<T>(q)); e.Push("abc", 1 + rnd(3), mk<T>(q)); }
	H &r = rnd(2) ? d : e; H &z = (r = *h); CHECK(&z == &r, "assignment result"); same(r, m, "assigned", false); same(*h, m, "source of an assignment");
	H &s = r; r = s; same(r, m, "self assignment", false);
	n = k.str ? r.Unshift(k.s.data(), k.s.size(), mk<T>(1)) : r.Unshift(k.i, mk<T>(1)); CHECK((n == NULL) == has, "insertion into an assigned hash"); if (n) r.Remove(n);
	for (int q = 0; q < 3 && r.FirstList(); q++) r.Remove(r.FirstList()); r.Empty(); same(*h, m, "source after emptying the assigned");
	NONTRIV();
}
template <class H, class T> static void run(int ops, int range)
{
	typedef OrderedHashNode<T> N;
	size_t est = 1 + rnd(30); bool sip = rnd(2);
	H *h = rnd(4) == 0 ? new H() : sip ? new H(est, rnd(), rnd()) : rnd(2) ? new H(est) : new H(est, rnd(3) ? rnd() : 0);
	std::vector<El<T> > m; std::vector<N *> det; bool emptied = false;
	for (int k = 0; k < ops; k++)
	{
		size_t n = m.size(), at = rnd(n + 1), op = rnd(17), ins = (size_t)-1; Key key = rkey(range); T v = mk<T>(rnd(50)); N *ref = at < n ? m[at].n : NULL, *r = NULL;
		int by = rnd(3); if (by == 2 && det.empty()) by = 0;
		N *nd = by == 2 ? det[rnd(det.size())] : NULL; if (nd) { key = keyof(nd); v = nd->Value; }
		CASE("step %d: operation %zu at %zu of %zu, %s key %s", k, op, at, n, key.str ? "string" : "integer", key.str ? hexs(key.s.data(), key.s.size()).c_str() : std::to_string(key.i).c_str());
		char *ks = (char *)malloc(key.s.size() ? key.s.size() : 1); memcpy(ks, key.s.data(), key.s.size()); size_t kl = key.s.size();
		bool dup = false; for (size_t i = 0; i < n; i++) if (m[i].k == key) dup = true;
		switch (op)
		{
			case 0: case 1: r = nd ? h->InsertBefore(ref, nd) : key.str ? h->InsertBefore(ref, ks, kl, v) : h->InsertBefore(ref, key.i, v); ins = at; break;
			case 2: case 3: r = nd ? h->InsertAfter(ref, nd) : key.str ? h->InsertAfter(ref, ks, kl, v) : h->InsertAfter(ref, key.i, v); ins = ref ? at + 1 : 0; break;
			case 4: case 5: r = nd ? h->Push(nd) : key.str ? h->Push(ks, kl, v) : h->Push(key.i, v); ins = n; break;
			case 6: r = nd ? h->Unshift(nd) : key.str ? h->Unshift(ks, kl, v) : h->Unshift(key.i, v); ins = 0; break;
			case 7: case 8:
			{
				bool rs = rnd(2); int how = rnd(3); N *x = ref;
				if (how == 1) { x = h->Pop(rs); CHECK(x == (n ? m[n - 1].n : NULL), "Pop"); at = n - 1; } else if (how == 2) { x = h->Shift(rs); CHECK(x == (n ? m[0].n : NULL), "Shift"); at = 0; } else { bool ok = h->Detach(ref, rs); CHECK(ok == (ref != NULL), "Detach returned %d", ok); }
				if (x) { CHECK(!x->NextList() && !x->PrevList() && !x->NextHash() && !x->PrevHash(), "detached node keeps a neighbour"); CHECK(keyof(x) == m[at].k && x->Value == m[at].v, "detached node changed"); det.push_back(x); m.erase(m.begin() + at); NONTRIV(); }
				break;
			}
			case 9: { bool ok = h->Remove(ref); CHECK(ok == (ref != NULL), "Remove returned %d", ok); if (ref) m.erase(m.begin() + at); break; }
			case 10: if (rnd(10) == 0) { h->Empty(); m.clear(); emptied = true; } else if (rnd(15) == 0) { for (size_t i = 0; i < n; i++) { det.push_back(m[i].n); } bool rs = rnd(2); h->Empty(false, rs); for (size_t i = 0; i < n; i++) { N *x = m[i].n; CHECK(!x->NextHash() && !x->PrevHash() && keyof(x) == m[i].k, "node kept by Empty"); H tmp; delete x; det.pop_back(); } m.clear(); } break;
			case 11: { bool ok = h->ResizeHash(rnd(6) ? 1 + rnd(60) : 0); (void)ok; break; }
			case 12: { N *z = rnd(3) == 0 ? H::CreateNode() : key.str ? H::CreateNode(ks, kl, v) : H::CreateNode(key.i, v); CHECK(!z->NextList() && !z->PrevList() && !z->NextHash() && !z->PrevHash(), "created node has a neighbour"); if (rnd(2)) { if (key.str) z->SetStrKey(ks, kl, true); else z->SetIntKey(key.i, true); z->Value = v; CHECK(keyof(z) == key, "key of a created node"); } if (keyof(z).str && !z->GetStrKey()) { } det.push_back(z); break; }
			case 13: if (ref) { r = rnd(2) ? h->Push(ref) : h->InsertAfter(NULL, ref); CHECK(r == NULL, "a node that is in the hash was inserted again"); } break;
			case 14: { N *f = find<H, T>(*h, key); CHECK((f != NULL) == dup, "Find says %d for a key which is %sthere", f != NULL, dup ? "" : "not "); if (nd) { f = h->Find(nd); CHECK((f != NULL) == dup, "Find by node"); } break; }
			case 15: if (nd) { Key k2 = rkey(range); if (k2.str) { nd->SetStrKey(k2.s.data(), k2.s.size(), true); } else nd->SetIntKey(k2.i, true); CHECK(keyof(nd) == k2, "key after setting it"); } break;
			default: if (rnd(4) == 0) copies(h, m, range, 0); while (det.size() > 8) { delete det.back(); det.pop_back(); } break;
		}
		if (ins != (size_t)-1)
		{
			CHECK((r == NULL) == dup, "insertion %s although the key is %sthere", r ? "succeeded" : "failed", dup ? "" : "not ");
			if (r)
			{
				if (nd) { CHECK(r == nd, "insertion result"); det.erase(std::find(det.begin(), det.end(), nd)); }
				El<T> e; e.n = r; e.k = key; e.v = v; m.insert(m.begin() + ins, e);
			}
			else if (nd) CHECK(keyof(nd) == key && nd->Value == v, "refused node changed");
		}
		free(ks);
		same(*h, m, "hash");
	}
	for (size_t i = 0; i < det.size(); i++) delete det[i];
	delete h; (void)emptied;
}
static void harness() { do { run<OrderedHash<uint64_t>, uint64_t>(250, 30); run<OrderedHash<uint64_t>, uint64_t>(600, 400); run<OrderedHashNoCopy<uint64_t>, uint64_t>(200, 60); run<OrderedHash<std::string>, std::string>(150, 100); run<OrderedHashNoCopy<std::string>, std::string>(100, 12); } while (time_left()); }
