#include "sim.h"
#include "sync/sync_util.cpp"
#include "sync/sync_event.cpp"
using namespace CubicleSoft::Sync;
struct Op { uint64_t seq; char kind; bool ok; uint32_t wait; bool lost, fault, others; };
static std::vector<Op> ops;
static int inwait; static uint64_t entries;
static void held(const char *w) { CHECK(sim::me()->held.empty(), "%s returned with an internal mutex still locked: %s", w, sim::trace.c_str()); }
static void push(char k, bool r, uint32_t w, bool others) { sim::Th *t = sim::me(); Op o = { t->lastseq, k, r, w, t->trylost, t->faulted, others }; ops.push_back(o); }
static bool doWait(Event &e, uint32_t w)
{
	sim::Th *t = sim::me(); t->trylost = t->faulted = false; int w0 = t->waits; bool oth = inwait > 0; inwait++; uint64_t n0 = ++entries;
	int64_t t0 = sim::now_us; bool r = e.Wait(w); held("Wait"); inwait--;
	if (!r && w && w != INFINITE && !t->faulted) CHECK(sim::now_us - t0 >= (int64_t)w * 1000, "Wait(%u) gave up after %lld us", w, (long long)(sim::now_us - t0));
	if (!r && w == INFINITE) CHECK(t->faulted, "Wait without a limit failed: %s", sim::trace.c_str());
	if (w == 0) CHECK(t->waits == w0, "Wait(0) blocked");
	push('w', r, w, oth || entries != n0); return r;
}
static void doFire(Event &e) { sim::Th *t = sim::me(); t->faulted = false; bool r = e.Fire(); held("Fire"); CHECK(r || t->faulted, "Fire failed"); if (r) push('f', r, 0, false); }
static void doReset(Event &e, bool manual) { sim::Th *t = sim::me(); t->faulted = false; bool r = e.Reset(); held("Reset"); CHECK(r == manual || t->faulted, "Reset result"); if (r) push('r', r, 0, false); }
static bool replay(bool sig, bool manual)
{
	std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.seq < b.seq; });
	for (auto &o : ops)
	{
		if (o.kind == 'f') sig = true;
		else if (o.kind == 'r') sig = false;
		else if (o.ok) { CHECK(sig, "Wait succeeded although the event was not signaled: %s", sim::trace.c_str()); if (!manual) sig = false; }
		else if (o.wait == 0 && !o.lost && !o.fault && (manual || !o.others)) CHECK(!sig, "Wait(0) failed although the event was signaled: %s", sim::trace.c_str());
	}
	return sig;
}
static void sequential()
{
	bool manual = rnd(2), pre = rnd(2), sig = pre;
	CASE("one thread, manual %d prefired %d", manual, pre);
	Event e; CHECK(!e.Wait(0) && !e.Wait(3) && !e.Fire() && !e.Reset(), "operations before Create");
	CHECK(e.Create(NULL, manual, pre), "Create");
	for (int k = 0; k < 30; k++)
	{
		unsigned op = rnd(5); uint32_t w = rnd(2) ? 1 + rnd(5000) : (uint32_t)rnd(1000000);
		CASE("one thread, manual %d prefired %d, step %d, signaled %d, op %u wait %u", manual, pre, k, sig, op, w);
		if (op == 0) { CHECK(e.Fire(), "Fire"); sig = true; }
		else if (op == 1) { CHECK(e.Reset() == manual, "Reset"); if (manual) sig = false; }
		else if (op == 2) { CHECK(e.Wait(0) == sig, "Wait(0)"); if (!manual) sig = false; }
		else { int64_t t0 = sim::now_us; bool r = e.Wait(w); CHECK(r == sig, "Wait(%u)", w); CHECK(sim::now_us - t0 == (r ? 0 : (int64_t)w * 1000), "Wait(%u) took %lld us", w, (long long)(sim::now_us - t0)); if (!manual) sig = false; NONTRIV(); }
		held("operation"); sim::now_us += rnd(2000000);
	}
	if (rnd(4) == 0) { bool m2 = rnd(2), p2 = rnd(2); CHECK(e.Create(NULL, m2, p2), "second Create"); CHECK(e.Wait(0) == p2 && e.Wait(0) == (p2 && m2), "second Create(%d,%d)", m2, p2); }
}
static void concurrent(bool named)
{
	sim::reset(); ops.clear(); inwait = 0;
	bool manual = rnd(3) == 0, pre = rnd(3) == 0; int nt = 2 + rnd(4), steps = 1 + rnd(3);
	sim::spur = rnd(2) ? 0 : 60; sim::clockstep = rnd(2); unsigned fl = !named && rnd(5) == 0 ? 30 : 0; unsigned wl = 1 + rnd(3);
	CASE("%d threads, manual %d prefired %d, %d steps, spurious %u faults %u named %d", nt, manual, pre, steps, sim::spur, fl, named);
	std::unique_ptr<Event> ev[6]; ev[0].reset(new Event()); int used = named ? nt : 1;
	if (!named) CHECK(ev[0]->Create(NULL, manual, pre), "Create");
	bool useinf = rnd(2);
	for (int i = 0; i < nt; i++) sim::spawn([&, i]() {
		if (named) { if (i) ev[i].reset(new Event()); CHECK(ev[i]->Create("a name", manual, pre), "Create of a named event"); held("Create"); }
		Event &e = *ev[named ? i : 0];
		for (int k = 0; k < steps; k++)
		{
			unsigned op = rnd(8);
			uint32_t w = rnd(4) == 0 ? 0 : (useinf && rnd(2) ? INFINITE : 1 + (uint32_t)rnd(wl));
			if (op < 4) doWait(e, w); else if (op < 7) doFire(e); else doReset(e, manual);
			if (rnd(3) == 0) sim::sleepus(rnd(3) * 1000);
		}
	});
	sim::fault = fl;
	bool all = sim::run();
	sim::fault = sim::spur = 0;
	for (auto &t : sim::ths) if (t->st != sim::DONE) CHECK(t->st == sim::COND, "a thread is stuck on an internal mutex: %s", sim::trace.c_str());
	if (!fl)
	{
		bool sig = replay(pre, manual);
		if (!all) { NONTRIV(); CHECK(!sig, "a thread sleeps although the event is signaled: %s", sim::trace.c_str()); }
		else { CHECK(ev[0]->Wait(0) == sig, "event is not %s at the end: %s", sig ? "signaled" : "reset", sim::trace.c_str()); }
	}
	else if (all) { sim::fault = 0; CHECK(ev[0]->Fire() && ev[0]->Wait(0), "event unusable after failures: %s", sim::trace.c_str()); }
	if (all) { for (int i = 0; i < used; i++) ev[i].reset(); if (named) CHECK(sim::nmaps() == 0 && sim::fds.empty(), "mappings or descriptors left"); else CHECK(sim::mxs.empty() && sim::conds.empty(), "mutexes or conditions left"); }
	else { for (int i = 0; i < 6; i++) sim::keep(ev[i]); sim::maps.clear(); }
	sim::shmreset();
}
static void limits()
{
	CASE("named, reopened"); sim::shmreset(); { { Event a, b; CHECK(a.Create("x", true, false) && b.Create("x", false, true), "Create"); CHECK(!a.Wait(0) && !b.Wait(0), "second handle keeps the state"); CHECK(b.Fire() && a.Wait(0) && b.Wait(0) && a.Wait(0), "shared and manual"); CHECK(b.Reset() && !a.Wait(0), "reset"); Event o; CHECK(o.Create("y", false, true) && o.Wait(0) && !o.Wait(0), "other name"); } Event n; CHECK(n.Create("x", true, true) && n.Wait(0) && n.Wait(0), "rebuilt"); }
	sim::shmreset();
	CASE("Create fails"); { sim::shmfail = 1; Event e; CHECK(!e.Create("z", true, true), "Create"); CHECK(!e.Wait(0) && !e.Fire(), "usable after a failed Create"); sim::shmfail = 2; CHECK(!e.Create("z", true, true), "Create"); CHECK(!e.Fire(), "Fire"); sim::shmfail = 0; CHECK(sim::fds.empty(), "descriptor left open"); }
	sim::shmreset();
}
static void harness()
{
	sim::reset(); limits();
	for (int i = 0; i < 200; i++) { sim::reset(); sequential(); }
	do { for (int i = 0; i < 50; i++) { concurrent(false); if (i % 5 == 0) concurrent(true); } sim::reset(); sequential(); } while (time_left());
}
