#include "sim.h"
#include "sync/sync_util.cpp"
#include "sync/sync_mutex.cpp"
using namespace CubicleSoft::Sync;
static void held(const char *w) { CHECK(sim::me()->held.empty(), "%s returned with an internal mutex still locked: %s", w, sim::trace.c_str()); }
struct Me { int depth; };
static int owner = -1, users; static uint64_t events;
static bool doLock(Mutex &s, Me &m, int id, uint32_t w)
{
	sim::Th *t = sim::me(); int w0 = t->waits; bool oth = users > 0; uint64_t e0 = events; if (!m.depth) users++, events++; uint64_t e1 = events;
	(void)e0; int64_t t0 = sim::now_us; t->trylost = false;
	bool r = s.Lock(w); held("Lock");
	if (m.depth) { CHECK(r, "the owner could not lock again: %s", sim::trace.c_str()); CHECK(t->waits == w0, "the owner waited for itself"); CHECK(owner == id, "mutex lost"); }
	else if (r) { CHECK(owner < 0, "two threads own the mutex: %s", sim::trace.c_str()); owner = id; }
	else
	{
		users--;
		if (w == INFINITE) FAILF("Lock without a limit failed: %s", sim::trace.c_str());
		if (w) CHECK(sim::now_us - t0 >= (int64_t)w * 1000, "Lock(%u) gave up after %lld us", w, (long long)(sim::now_us - t0));
		if (!oth && events == e1) FAILF("Lock(%u) failed although nobody else used the mutex: %s", w, sim::trace.c_str());
	}
	if (w == 0) CHECK(t->waits == w0, "Lock(0) blocked");
	events++;
	if (r) m.depth++;
	return r;
}
static void doUnlock(Mutex &s, Me &m, int id, bool all, int kind = 0)
{
	int d = m.depth, nd = d ? (all ? 0 : d - 1) : 0; bool r = d > 0;
	if (d) CHECK(owner == id, "mutex lost");
	if (d && !nd) owner = -1;
	if (kind == 1 && !all) { { Mutex::AutoUnlock u(&s); } } else r = kind == 2 && !all ? s.Unlock() : s.Unlock(all);
	held("Unlock");
	CHECK(r == (d > 0), "Unlock(%d) at depth %d returned %d: %s", all, d, r, sim::trace.c_str());
	m.depth = nd; if (d && !nd) users--; events++;
}
static void sequential()
{
	CASE("one thread");
	Mutex s; CHECK(!s.Lock(0) && !s.Lock(3) && !s.Unlock() && !s.Unlock(true), "operations before Create"); held("operation");
	CHECK(s.Create(NULL), "Create");
	unsigned d = 0;
	for (int k = 0; k < 30; k++)
	{
		unsigned op = rnd(6); CASE("one thread, step %d, depth %u, op %u", k, d, op); int64_t t0 = sim::now_us;
		if (op < 3) { CHECK(s.Lock(op == 0 ? 0 : op == 1 ? INFINITE : (uint32_t)rnd(1000)), "Lock at depth %u", d); d++; }
		else if (op < 5) { CHECK(s.Unlock(false) == (d > 0), "Unlock at depth %u", d); if (d) d--; }
		else if (rnd(3) == 0) { CHECK(s.Unlock(true) == (d > 0), "Unlock(true) at depth %u", d); d = 0; }
		else if (rnd(3) == 0) { CHECK(s.Create(NULL), "Create of an owned mutex"); d = 0; }
		CHECK(sim::now_us == t0, "time passed"); held("operation"); NONTRIV();
		// another thread sees it locked exactly while it is owned
		if (rnd(3) == 0) { bool ok = true; unsigned dd = d; uint32_t w = rnd(2) ? 0 : 1 + (uint32_t)rnd(5000); int64_t t1 = sim::now_us, t2 = t1; sim::spawn([&]() { ok = s.Lock(w); t2 = sim::now_us; if (ok) CHECK(s.Unlock(), "Unlock"); else { CHECK(!s.Unlock() && !s.Unlock(true), "Unlock by a thread that does not own it"); } if (dd) CHECK(!s.Create(NULL), "Create of a mutex owned by another thread"); held("operation"); });
			CHECK(sim::run(), "thread stuck"); CHECK(ok == (d == 0), "another thread's Lock(%u) returned %d at depth %u", w, ok, d); CHECK(t2 - t1 == (ok ? 0 : (int64_t)w * 1000), "Lock(%u) took %lld us", w, (long long)(t2 - t1)); sim::endthreads(); }
		sim::now_us += rnd(2000000);
	}
}
static void concurrent(bool named)
{
	sim::reset(); owner = -1; users = 0;
	int nt = 2 + rnd(3), steps = 1 + rnd(5);
	sim::spur = rnd(2) ? 0 : 60; sim::clockstep = rnd(2); bool useinf = rnd(2);
	CASE("%d threads, %d steps, spurious %u named %d", nt, steps, sim::spur, named);
	std::unique_ptr<Mutex> mx[5]; Me me[5] = {}; int used = named ? nt : 1;
	mx[0].reset(new Mutex()); if (!named) CHECK(mx[0]->Create(NULL), "Create");
	for (int i = 0; i < nt; i++) sim::spawn([&, i]() {
		if (named) { if (i) mx[i].reset(new Mutex()); CHECK(mx[i]->Create("a name"), "Create of a named mutex"); held("Create"); }
		Mutex &s = *mx[named ? i : 0];
		for (int k = 0; k < steps; k++)
		{
			unsigned op = rnd(6); uint32_t w = rnd(3) == 0 ? 0 : (useinf && rnd(2) ? INFINITE : 1 + (uint32_t)rnd(3));
			if (op < 3) doLock(s, me[i], i, w); else doUnlock(s, me[i], i, op == 5, rnd(3));
			if (me[i].depth) { CHECK(owner == i, "mutex lost"); sim::yield(); if (rnd(4) == 0) sim::sleepus(rnd(3) * 1000); CHECK(owner == i, "mutex lost"); NONTRIV(); }
		}
		while (me[i].depth) doUnlock(s, me[i], i, rnd(3) == 0, rnd(3));
	});
	bool all = sim::run();
	CHECK(all, "a thread stays blocked although the mutex is free: %s", sim::trace.c_str());
	CHECK(mx[0]->Lock(0), "the mutex is not free at the end: %s", sim::trace.c_str()); if (rnd(2)) CHECK(mx[0]->Unlock(), "Unlock");
	for (int i = 0; i < used; i++) mx[i].reset();
	if (named) { CHECK(sim::nmaps() == 0 && sim::fds.empty(), "mappings or descriptors left"); Mutex n; CHECK(n.Create("a name") && n.Lock(0), "rebuilt"); }
	else CHECK(sim::mxs.empty() && sim::conds.empty(), "mutexes or conditions left");
	sim::spur = 0;
	sim::shmreset();
}
static void limits()
{
	CASE("named"); sim::shmreset();
	{ Mutex a, b, o; CHECK(a.Create("x") && b.Create("x") && o.Create("y"), "Create"); CHECK(a.Lock(0) && !b.Lock(0) && !b.Lock(7) && o.Lock(0) && a.Lock(0), "shared"); CHECK(a.Unlock() && !b.Lock(0) && a.Unlock() && b.Lock(0) && !a.Lock(0), "handed over");
	  CHECK(b.Lock(0) && b.Unlock(true) && a.Lock(0), "all levels"); { Mutex c; CHECK(c.Create("x") && !c.Lock(0) && a.Unlock() && c.Lock(0) && c.Lock(0), "third"); } CHECK(a.Lock(0), "a destroyed handle releases the mutex"); }
	sim::shmreset();
	CASE("Create fails"); { sim::shmfail = 1; Mutex e; CHECK(!e.Create("z"), "Create"); CHECK(!e.Lock(0) && !e.Unlock(), "usable after a failed Create"); sim::shmfail = 2; CHECK(!e.Create("z"), "Create"); CHECK(!e.Lock(0), "Lock"); sim::shmfail = 0; CHECK(sim::fds.empty(), "descriptor left open"); held("Create"); CHECK(e.Create(NULL) && e.Lock(0), "later Create"); }
	sim::shmreset();
	CASE("deep recursion"); { Mutex m; CHECK(m.Create(NULL), "Create"); for (int i = 0; i < 70000; i++) if (!m.Lock(0)) FAILF("Lock"); for (int i = 0; i < 70000; i++) { if (!m.Unlock()) FAILF("Unlock"); bool f = false; if (i == 69998 || i == 4463 || i == 4464 || i == 69999 || i == 69743 || i == 69744) { sim::spawn([&]() { f = m.Lock(0); if (f) m.Unlock(); }); CHECK(sim::run(), "stuck"); CHECK(f == (i == 69999), "free after %d of 70000", i + 1); sim::endthreads(); } } CHECK(!m.Unlock(), "too many"); }
}
static void harness()
{
	sim::reset(); limits();
	for (int i = 0; i < 200; i++) { sim::reset(); sequential(); }
	do { for (int i = 0; i < 50; i++) { concurrent(false); if (i % 5 == 0) concurrent(true); } sim::reset(); sim::clockstep = false; sequential(); } while (time_left());
}
