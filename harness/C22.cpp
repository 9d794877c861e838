#include "sim.h"
#include "sync/sync_util.cpp"
#include "sync/sync_sharedmem.cpp"
#include "sync/sync_semaphore.cpp"
#include "sync/sync_mutex.cpp"
#include "sync/sync_event.cpp"
#include "sync/sync_readwritelock.cpp"
using namespace CubicleSoft::Sync;
static void held(const char *w) { CHECK(sim::me()->held.empty(), "%s returned with an internal mutex still locked: %s", w, sim::trace.c_str()); }
static void clean(bool one = true) { if (!one) sim::umsk = 022; CHECK(sim::fds.empty(), "descriptor left open"); CHECK(sim::umsk == 022, "file mode mask changed to %o", sim::umsk); }
static std::string rname(size_t n, const char *alpha) { std::string s; size_t m = strlen(alpha); for (size_t i = 0; i < n; i++) s += alpha[rnd(m)]; return s; }
static const char *AL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-. ";
static void sizes()
{
	for (size_t i = 0; i < 200; i++) { size_t n = i < 100 ? i : (size_t)rnd(1u << 30), a = Util::AlignUnixSize(n), al = Util::GetUnixSystemAlignmentSize(); CASE("AlignUnixSize(%zu)", n); CHECK(a >= n && a - n < al && a % al == 0 && al >= 4, "aligned to %zu", a); }
}
// exactly the first of the handles that are open at the same time sees fresh, zeroed memory
static void shared(bool conc)
{
	sim::reset(); sim::shmreset(); sim::clockstep = false;
	std::string nm[3]; size_t sz[3]; unsigned k = 1 + rnd(3);
	for (unsigned i = 0; i < k; i++) { nm[i] = rnd(4) ? rname(1 + rnd(12), AL) : rname(1 + rnd(700), rnd(2) ? AL : "/\\\xc3\xa9~x"); sz[i] = rnd(3) ? 1 + rnd(40) : 1 + rnd(9000); for (unsigned j = 0; j < i; j++) if (rnd(3) == 0) { nm[i] = nm[j]; if (sz[i] == sz[j]) sz[i]++; } }
	for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < i; j++) if (nm[i] == nm[j] && (sz[i] + 3) / 4 == (sz[j] + 3) / 4) sz[i] += 4 * (i + 1) + 100;
	for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < i; j++) if (nm[i] != nm[j] && (nm[i].size() > 200 || nm[i].find_first_of("/\\") != std::string::npos)) { char b[8]; snprintf(b, 8, "%u", i); if (nm[i].size() <= 200) nm[i] += b; else nm[i] = b; }
	CASE("shared memory, %s, first name of %zu bytes, %zu bytes, %u names", conc ? "threads" : "one thread", nm[0].size(), sz[0], k);
	int open[3] = {}, firsts[3] = {}; std::vector<unsigned char> model[3];
	auto one = [&](int steps) {
		struct H { std::unique_ptr<SharedMem> m; unsigned w; }; std::vector<H> hs;
		for (int s = 0; s < steps || !hs.empty(); s++)
		{
			if (s < steps && rnd(2))
			{
				H h; h.w = rnd(k); h.m.reset(new SharedMem()); CHECK(!h.m->RawData() && !h.m->GetSize() && !h.m->First(), "new object"); int before = open[h.w]; open[h.w]++;
				bool r = h.m->Create(nm[h.w].c_str(), sz[h.w]); held("Create");
				CHECK(r && h.m->RawData() && h.m->GetSize() == sz[h.w], "Create");
				if (h.m->First()) firsts[h.w]++;
				if (!conc) { CHECK(h.m->First() == (before == 0), "First() is %d with %d other handles open", h.m->First(), before); if (!before) model[h.w].assign(sz[h.w], 0); CHECK(!memcmp(h.m->RawData(), model[h.w].data(), sz[h.w]), "contents"); }
				else { CHECK(before || h.m->First() || open[h.w] > 1 || firsts[h.w], "nobody is first: %s", sim::trace.c_str()); }
				hs.push_back(std::move(h)); NONTRIV();
			}
			else if (!hs.empty())
			{
				size_t q = rnd(hs.size());
				if (!conc && rnd(2)) { size_t b = rnd(sz[hs[q].w]), e = b + rnd(sz[hs[q].w] - b + 1); for (; b < e; b++) model[hs[q].w][b] = hs[q].m->RawData()[b] = (char)rnd(256); hs[q].m->RawData()[sz[hs[q].w] - 1] = 7; model[hs[q].w][sz[hs[q].w] - 1] = 7; }
				else if (!conc && rnd(4) == 0) { unsigned o = hs[q].w, n = rnd(k); open[o]--; int before = open[n]; open[n]++; CHECK(hs[q].m->Create(nm[n].c_str(), sz[n]), "second Create"); hs[q].w = n; CHECK(hs[q].m->First() == (before == 0), "First() after a second Create"); if (!before) model[n].assign(sz[n], 0); CHECK(!memcmp(hs[q].m->RawData(), model[n].data(), sz[n]), "contents"); }
				else { unsigned w = hs[q].w; hs.erase(hs.begin() + q); open[w]--; held("destructor"); }
			}
			if (!conc) { clean(); for (auto &h : hs) CHECK(!memcmp(h.m->RawData(), model[h.w].data(), sz[h.w]), "contents"); }
		}
	};
	if (!conc) { one(3 + rnd(12)); }
	else
	{
		int nt = 2 + rnd(3), steps = 1 + rnd(3);
		for (int i = 0; i < nt; i++) sim::spawn([&]() { one(steps); });
		CHECK(sim::run(), "stuck: %s", sim::trace.c_str()); clean(false);
	}
	CHECK(sim::nmaps() == 0, "mappings left"); sim::shmreset();
}
// all threads open and keep: exactly one of them is first, after it everybody sees the same memory
static void race()
{
	sim::reset(); sim::shmreset(); sim::clockstep = false; int nt = 2 + rnd(4), gens = 1 + rnd(2);
	CASE("%d threads open the same memory", nt);
	for (int g = 0; g < gens; g++)
	{
		std::vector<std::unique_ptr<SharedMem>> m(nt); int first = 0; size_t n = 1 + rnd(100);
		for (int i = 0; i < nt; i++) { m[i].reset(new SharedMem()); sim::spawn([&, i]() { CHECK(m[i]->Create("the memory", 64), "Create"); held("Create"); if (m[i]->First()) { first++; for (int j = 0; j < 64; j++) CHECK(!m[i]->RawData()[j], "fresh memory not zeroed"); } }); }
		(void)n; CHECK(sim::run(), "stuck: %s", sim::trace.c_str()); CHECK(first == 1, "%d threads were first: %s", first, sim::trace.c_str()); clean(false);
		memset(m[0]->RawData(), 0x5a, 64); for (int i = 0; i < nt; i++) CHECK(m[i]->RawData()[63] == 0x5a && m[i]->RawData()[0] == 0x5a, "not shared"); sim::endthreads(); NONTRIV();
	}
	CHECK(sim::nmaps() == 0, "mappings left"); sim::shmreset();
}
// objects of different kinds, names and sizes never share memory; a second handle finds the first one's state fully built
static void kinds()
{
	sim::reset(); sim::shmreset(); sim::clockstep = false; std::string n = rnd(2) ? rname(1 + rnd(20), AL) : rname(1 + rnd(500), "/\\ab\xff"); CASE("different kinds under one name of %zu bytes", n.size());
	{
		Semaphore s, s2; Mutex m, m2; Event e, e2; ReadWriteLock w, w2; SharedMem sm, sm2; int p = 0;
		CHECK(s.Create(n.c_str(), 3) && m.Create(n.c_str()) && e.Create(n.c_str(), true, false) && w.Create(n.c_str()) && sm.Create(n.c_str(), 96), "Create"); clean();
		CHECK(sim::shms.size() == 5, "%zu objects instead of 5", sim::shms.size());
		CHECK(s.Lock(0) && m.Lock(0) && w.ReadLock(0) && sm.First(), "first use"); memset(sm.RawData(), 0x77, 96);
		CHECK(s2.Create(n.c_str(), 3) && m2.Create(n.c_str()) && e2.Create(n.c_str(), true, true) && w2.Create(n.c_str()) && sm2.Create(n.c_str(), 96) && !sm2.First(), "second Create"); clean(); CHECK(sim::shms.size() == 5, "%zu objects instead of 5", sim::shms.size());
		CHECK(s2.Unlock(&p) && p == 2 && !m2.Lock(0) && !e2.Wait(0) && !w2.WriteLock(0) && sm2.RawData()[95] == 0x77 && w2.ReadLock(0), "second handles see the state of the first ones"); held("operation");
	}
	clean(); CHECK(sim::nmaps() == 0, "mappings left");
	{ Semaphore s; Mutex m; Event e; ReadWriteLock w; SharedMem sm; int p = 0; CHECK(s.Create(n.c_str(), 5) && s.Unlock(&p) && p == 5 && m.Create(n.c_str()) && m.Lock(0) && e.Create(n.c_str(), false, true) && e.Wait(0) && w.Create(n.c_str()) && w.WriteLock(0) && sm.Create(n.c_str(), 96) && sm.First() && sm.RawData()[95] == 0, "rebuilt after all handles were closed"); NONTRIV(); }
	sim::shmreset();
}
// threads create, use and drop named objects of one kind: nobody sees a half built one, nothing leaks
static void life()
{
	sim::reset(); sim::shmreset(); sim::clockstep = rnd(2); int nt = 2 + rnd(3), kind = rnd(4), steps = 1 + rnd(2); CASE("%d threads create and drop a named object of kind %d", nt, kind);
	for (int i = 0; i < nt; i++) sim::spawn([&]() {
		for (int q = 0; q < steps; q++)
		{
			if (kind == 0) { Semaphore s; CHECK(s.Create("n", 50), "Create"); held("Create"); CHECK(s.Lock(1), "Lock: %s", sim::trace.c_str()); CHECK(s.Unlock(), "Unlock"); }
			else if (kind == 1) { Mutex m; CHECK(m.Create("n"), "Create"); held("Create"); CHECK(m.Lock(INFINITE), "Lock"); sim::yield(); CHECK(m.Unlock(), "Unlock"); }
			else if (kind == 2) { Event e; CHECK(e.Create("n", true, true), "Create"); held("Create"); CHECK(e.Wait(1), "Wait: %s", sim::trace.c_str()); }
			else { ReadWriteLock w; CHECK(w.Create("n"), "Create"); held("Create"); CHECK(w.ReadLock(INFINITE), "ReadLock"); CHECK(w.ReadUnlock(), "ReadUnlock"); }
		}
	});
	CHECK(sim::run(), "stuck: %s", sim::trace.c_str()); clean(false); CHECK(sim::nmaps() == 0, "mappings left"); sim::shmreset();
}
static void names()
{
	sim::reset(); sim::shmreset(); char *mem; size_t pos; std::map<std::string, std::string> seen;
	CASE("names");
	for (int i = 0; i < 60; i++)
	{
		std::string n = i < 20 ? rname(1 + rnd(3), "ab") : rname(rnd(2) ? 200 + rnd(60) : 450 + rnd(80), rnd(2) ? AL : "\xff\x01z"); CASE("name of %zu bytes", n.size());
		int r = Util::InitUnixNamedMem(mem, pos, "/P", n.c_str(), 16); CHECK(r >= 0, "Create"); std::string a = sim::lastname; if (r == 0) Util::UnixNamedMemReady(mem);
		CHECK(pos >= 45 && pos % 4 == 0, "start position %zu", pos);
		size_t plain = strlen("/P-4-") + n.size() + 3; if (plain < 250) CHECK(a.find(n) != std::string::npos, "name %s does not contain %s", a.c_str(), n.c_str());
		for (size_t k = 0; k < 16; k++) mem[pos + k] = 9;
		if (n.size() <= 200) { auto it = seen.find(a); if (it != seen.end() && it->second != n) CHECK(n.size() > 200, "'%s' and '%s' share memory", n.c_str(), it->second.c_str()); seen[a] = n; }
		Util::UnmapUnixNamedMem(mem, 16); held("Unmap");
		// names that differ in one character (outside and inside the folded part) stay apart
		std::string n2 = n; size_t q = rnd(n.size()); n2[q] = n2[q] == 'q' ? 'r' : 'q'; r = Util::InitUnixNamedMem(mem, pos, "/P", n2.c_str(), 16); CHECK(r >= 0, "Create"); if (((unsigned char)n2[q] - (unsigned char)n[q]) % 64) CHECK(sim::lastname != a, "names that differ at %zu of %zu share memory", q, n.size()); if (r == 0) Util::UnixNamedMemReady(mem); Util::UnmapUnixNamedMem(mem, 16);
		sim::shmreset(); r = Util::InitUnixNamedMem(mem, pos, "/P", n.c_str(), 20); CHECK(r >= 0 && sim::lastname != a, "sizes share memory"); if (r == 0) Util::UnixNamedMemReady(mem); Util::UnmapUnixNamedMem(mem, 20); sim::shmreset(); r = Util::InitUnixNamedMem(mem, pos, "/P", n.c_str(), 16); CHECK(r == 0, "new"); Util::UnixNamedMemReady(mem); memset(mem + pos, 5, 16); Util::UnmapUnixNamedMem(mem, 16);
		r = Util::InitUnixNamedMem(mem, pos, "/P", n.c_str(), 16); CHECK(r == 0 && sim::lastname == a, "reopened"); for (size_t k = 0; k < 16; k++) CHECK(!mem[pos + k], "byte %zu not zeroed", k); Util::UnixNamedMemReady(mem);
		int r2 = Util::InitUnixNamedMem(mem, pos, "/P", n.c_str(), 16); CHECK(r2 == 1, "second handle"); Util::UnmapUnixNamedMem(mem, 16); r2 = Util::InitUnixNamedMem(mem, pos, "/P", n.c_str(), 16); CHECK(r2 == 1, "still one handle"); Util::UnmapUnixNamedMem(mem, 16); Util::UnmapUnixNamedMem(mem, 16); clean(); NONTRIV();
	}
	size_t p2 = 99; char *u = NULL; for (size_t k = 0; k < 10; k++) { CHECK(Util::InitUnixNamedMem(u, p2, "/P", NULL, k) == 0 && u && p2 == 0, "private memory"); memset(u, 1, k); delete[] u; }
	CHECK(sim::nmaps() == 0, "mappings left"); sim::shmreset();
	CASE("failures"); for (int f = 1; f <= 2; f++) { sim::shmfail = f; SharedMem s; CHECK(!s.Create("x", 10) && !s.RawData(), "Create"); clean(); if (f == 2) CHECK(Util::InitUnixNamedMem(mem, pos, "/P", "y", 16) == -1 && !mem, "result"); clean(); CHECK(!s.Create(NULL, 4), "no name"); }
	sim::shmreset();
}
static void harness()
{
	sim::reset(); sizes(); names();
	do { for (int i = 0; i < 10; i++) { shared(false); shared(true); race(); kinds(); life(); } names(); } while (time_left());
}
