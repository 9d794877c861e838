#include "sim.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
using namespace CubicleSoft::Sync;
struct Op { uint64_t seq; int th; bool unl, ok; int prev; uint32_t wait; bool lost, fault; };
static std::vector<Op> ops;
static void held(const char *w) { CHECK(sim::me()->held.empty(), "%s returned with an internal mutex still locked: %s", w, sim::trace.c_str()); }
static bool doLock(Semaphore &s, uint32_t wait)
{
	sim::Th *t = sim::me(); t->trylost = t->faulted = false; int w0 = t->waits;
	int64_t t0 = sim::now_us; bool r = s.Lock(wait); held("Lock");
	if (!r && wait && wait != INFINITE && !t->faulted) CHECK(sim::now_us - t0 >= (int64_t)wait * 1000, "Lock(%u) gave up after %lld us", wait, (long long)(sim::now_us - t0));
	if (!r && wait == INFINITE) CHECK(t->faulted, "Lock without a limit failed: %s", sim::trace.c_str());
	if (wait == 0) CHECK(t->waits == w0, "Lock(0) blocked");
	Op o = { t->lastseq, t->id, false, r, 0, wait, t->trylost, t->faulted }; ops.push_back(o);
	return r;
}
static void doUnlock(Semaphore &s, bool np)
{
	sim::Th *t = sim::me(); t->faulted = false; int p = -77; bool r = np ? s.Unlock() : s.Unlock(&p); held("Unlock");
	if (t->faulted) return;
	CHECK(r, "Unlock failed");
	Op o = { t->lastseq, t->id, true, r, np ? -1 : p, 0, false, false }; ops.push_back(o);
}
// replays the operations in the order of their critical sections on an integer
static int replay(int init, int max)
{
	std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.seq < b.seq; });
	int c = init;
	for (auto &o : ops)
	{
		if (o.unl) { if (o.prev >= 0 || o.prev == -77) CHECK(o.prev == c, "Unlock reported the count %d instead of %d: %s", o.prev, c, sim::trace.c_str()); if (c < max) c++; }
		else if (o.ok) { CHECK(c > 0, "Lock succeeded although no permit was left: %s", sim::trace.c_str()); c--; }
		else if (o.wait == 0 && !o.lost && !o.fault) CHECK(c == 0, "Lock(0) failed although %d permits were left: %s", c, sim::trace.c_str());
	}
	return c;
}
static int drain(Semaphore &s, int lim) { int n = 0; while (n <= lim && s.Lock(0)) n++; return n; }
static void sequential()
{
	int max = rnd(6);
	CASE("one thread, maximum %d", max);
	Semaphore s; CHECK(!s.Lock(0) && !s.Lock(5) && !s.Unlock(), "operations before Create");
	CHECK(s.Create(NULL, max), "Create"); ops.clear(); sim::mainth.lastseq = 0;
	int c = max;
	for (int k = 0; k < 30; k++)
	{
		unsigned op = rnd(4); uint32_t w = rnd(2) ? 1 + rnd(5000) : (uint32_t)rnd(1000000);
		CASE("one thread, maximum %d, step %d, count %d, op %u wait %u", max, k, c, op, w);
		if (op == 0) { int p = -5; CHECK(s.Unlock(&p) && p == c, "Unlock reported %d instead of %d", p, c); if (c < max) c++; }
		else if (op == 1) { CHECK(s.Unlock(), "Unlock"); if (c < max) c++; }
		else if (op == 2) { CHECK(s.Lock(0) == (c > 0), "Lock(0)"); if (c) c--; }
		else { int64_t t0 = sim::now_us; bool r = s.Lock(w); CHECK(r == (c > 0), "Lock(%u)", w); CHECK(sim::now_us - t0 == (r ? 0 : (int64_t)w * 1000), "Lock(%u) took %lld us", w, (long long)(sim::now_us - t0)); if (c) c--; NONTRIV(); }
		held("operation");
		sim::now_us += rnd(2000000);
	}
	int n = drain(s, max + 2); CHECK(n == c, "%d permits left, expected %d", n, c);
	if (rnd(4) == 0) { int m2 = rnd(4); CHECK(s.Create(NULL, m2), "second Create"); n = drain(s, m2 + 2); CHECK(n == m2, "%d permits after the second Create(%d)", n, m2); }
}
static void concurrent(bool named)
{
	sim::reset(); ops.clear();
	int max = 1 + rnd(3), nt = 2 + rnd(3), steps = 1 + rnd(4); bool paired = rnd(2);
	sim::spur = rnd(2) ? 0 : 60; sim::clockstep = rnd(2); unsigned fl = !named && rnd(4) == 0 ? 30 : 0;
	CASE("%d threads, maximum %d, %d steps, %s, spurious %u faults %u named %d", nt, max, steps, paired ? "paired" : "free", sim::spur, fl, named);
	std::unique_ptr<Semaphore> sem[5]; int used = named ? nt : 1;
	sem[0].reset(new Semaphore());
	if (!named) CHECK(sem[0]->Create(NULL, max), "Create");
	bool inf = rnd(2); int inside = 0; bool useinf = inf;
	std::vector<bool> blocked(nt, false);
	for (int i = 0; i < nt; i++) sim::spawn([&, i]() {
		if (named) { if (i) sem[i].reset(new Semaphore()); CHECK(sem[i]->Create("a name", max), "Create of a named semaphore"); held("Create"); }
		Semaphore &s = *sem[named ? i : 0];
		for (int k = 0; k < steps; k++)
		{
			unsigned op = rnd(3);
			uint32_t w = rnd(3) == 0 ? 0 : (useinf && rnd(2) ? INFINITE : 1 + (uint32_t)rnd(3));
			if (paired)
			{
				blocked[i] = true; bool r = doLock(s, w); blocked[i] = false;
				if (r) { inside++; CHECK(inside <= max, "%d threads inside a semaphore of %d", inside, max); sim::yield(); sim::yield(); inside--; doUnlock(s, rnd(2)); }
			}
			else if (op) { blocked[i] = true; doLock(s, w); blocked[i] = false; }
			else doUnlock(s, rnd(2));
		}
	});
	sim::fault = fl;
	bool all = sim::run();
	sim::fault = sim::spur = 0;
	for (auto &t : sim::ths) if (t->st != sim::DONE) CHECK(t->st == sim::COND, "a thread is stuck on an internal mutex: %s", sim::trace.c_str());
	if (!fl)
	{
		int c = replay(max, max);
		if (!all) { NONTRIV(); CHECK(c == 0, "a thread sleeps although %d permits are available: %s", c, sim::trace.c_str()); CHECK(!paired, "threads sleep although every permit was returned: %s", sim::trace.c_str()); }
		else { int n = drain(*sem[0], max + 2); CHECK(n == c, "%d permits left, expected %d", n, c); }
	}
	else if (all) { int n = drain(*sem[0], max + 2); CHECK(n <= max, "%d permits left of %d", n, max); }
	if (all) { for (int i = 0; i < used; i++) sem[i].reset(); if (named) CHECK(sim::nmaps() == 0 && sim::fds.empty(), "mappings or descriptors left"); else CHECK(sim::mxs.empty() && sim::conds.empty(), "mutexes or conditions left"); }
	else for (int i = 0; i < 5; i++) sim::keep(sem[i]);
	if (!all) sim::maps.clear();
	sim::shmreset();
}
static void limits()
{
	CASE("largest maximum"); Semaphore s; CHECK(s.Create(NULL, -1), "Create"); int p = 0;
	CHECK(s.Unlock(&p) && p == -1, "count"); CHECK(s.Lock(0), "Lock(0)"); CHECK(s.Unlock(&p) && p == -2, "count after a Lock is %d", p); CHECK(s.Unlock(&p) && p == -1, "count wrapped to %d", p); CHECK(s.Lock(0), "Lock(0)");
	CASE("AutoUnlock"); { Semaphore q; q.Create(NULL, 1); { CHECK(q.Lock(0), "Lock"); Semaphore::AutoUnlock a(&q); CHECK(!q.Lock(0), "Lock(0)"); } CHECK(q.Lock(0), "not unlocked"); CHECK(!q.Lock(0), "twice"); }
	CASE("named, reopened"); { sim::shmreset(); { Semaphore a, b; CHECK(a.Create("x", 2) && b.Create("x", 5), "Create"); CHECK(a.Lock(0) && b.Lock(0) && !a.Lock(0) && !b.Lock(0), "two handles share one count"); int c; CHECK(b.Unlock(&c) && c == 0 && a.Unlock(&c) && c == 1 && a.Unlock(&c) && c == 2 && b.Unlock(&c) && c == 2, "counts"); Semaphore o; CHECK(o.Create("y", 1) && o.Lock(0) && !o.Lock(0), "other name"); CHECK(a.Lock(0) && a.Lock(0) && !a.Lock(0), "independent"); } Semaphore n; CHECK(n.Create("x", 3), "Create"); CHECK(drain(n, 9) == 3, "rebuilt"); }
	sim::shmreset();
	CASE("Create fails"); { sim::shmfail = 1; Semaphore s2; CHECK(!s2.Create("z", 1), "Create"); CHECK(!s2.Lock(0) && !s2.Unlock(), "usable after a failed Create"); sim::shmfail = 2; CHECK(!s2.Create("z", 1), "Create"); CHECK(!s2.Lock(0), "Lock"); sim::shmfail = 0; CHECK(sim::fds.empty(), "descriptor left open"); }
	sim::shmreset();
}
static void harness()
{
	sim::reset(); limits();
	for (int i = 0; i < 200; i++) { sim::reset(); sequential(); }
	do { for (int i = 0; i < 50; i++) { concurrent(false); if (i % 5 == 0) concurrent(true); } sim::reset(); sequential(); } while (time_left());
}
