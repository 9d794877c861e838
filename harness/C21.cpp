#include "sim.h"
#include "sync/sync_util.cpp"
#include "sync/sync_readwritelock.cpp"
using namespace CubicleSoft::Sync;
static void held(const char *w) { CHECK(sim::me()->held.empty(), "%s returned with an internal mutex still locked: %s", w, sim::trace.c_str()); }
struct Me { int r; bool w; };
static int readers, writer = -1, users; static uint64_t events;
static std::string st() { char b[64]; snprintf(b, 64, "readers %d writer %d: ", readers, writer); return b + sim::trace; }
static bool acquire(ReadWriteLock &s, Me &m, int id, bool wr, uint32_t w)
{
	sim::Th *t = sim::me(); int w0 = t->waits; bool oth = users > 0 || readers || writer >= 0; users++; uint64_t e0 = ++events; int64_t t0 = sim::now_us;
	bool r = wr ? s.WriteLock(w) : s.ReadLock(w); held(wr ? "WriteLock" : "ReadLock");
	int64_t el = sim::now_us - t0;
	if (r && wr) { CHECK(writer < 0 && !readers, "a writer entered with %s", st().c_str()); writer = id; m.w = true; }
	if (r && !wr) { CHECK(writer < 0, "a reader entered with %s", st().c_str()); readers++; m.r++; }
	if (!r)
	{
		if (w == INFINITE) FAILF("lock without a limit failed with %s", st().c_str());
		if (w > 1) CHECK(el >= (int64_t)(w - 1) * 1000, "%s(%u) gave up after %lld us: %s", wr ? "WriteLock" : "ReadLock", w, (long long)el, st().c_str());
		if (!oth && events == e0 && !el) FAILF("%s(%u) failed although nobody else used the lock: %s", wr ? "WriteLock" : "ReadLock", w, st().c_str());
	}
	if (w == 0) CHECK(t->waits == w0, "lock with limit 0 blocked");
	if (w != INFINITE && !sim::clockstep) CHECK(el <= (int64_t)(w + 1) * 1000, "%s(%u) took %lld us: %s", wr ? "WriteLock" : "ReadLock", w, (long long)el, st().c_str());
	users--; events++;
	return r;
}
static void release(ReadWriteLock &s, Me &m, bool wr, bool aut)
{
	users++; events++; bool r = true;
	if (wr) { CHECK(!readers, "with the write lock held: %s", st().c_str()); writer = -1; m.w = false; if (aut) ReadWriteLock::AutoWriteUnlock u(&s); else r = s.WriteUnlock(); }
	else { CHECK(writer < 0, "with the read lock held: %s", st().c_str()); readers--; m.r--; if (aut) ReadWriteLock::AutoReadUnlock u(&s); else r = s.ReadUnlock(); }
	CHECK(r, "unlock failed: %s", st().c_str()); held("unlock"); users--; events++;
}
static void sequential()
{
	CASE("one thread");
	ReadWriteLock s; CHECK(!s.ReadLock(0) && !s.WriteLock(3) && !s.ReadUnlock() && !s.WriteUnlock(), "operations before Create");
	CHECK(s.Create(NULL), "Create");
	int r = 0; bool w = false;
	for (int k = 0; k < 40; k++)
	{
		unsigned op = rnd(5); uint32_t t = rnd(3) == 0 ? 0 : 1 + (uint32_t)(rnd(2) ? rnd(5) : rnd(100000)); int64_t t0 = sim::now_us; bool ok = true, blk = false;
		CASE("one thread, step %d, readers %d writer %d, op %u limit %u", k, r, w, op, t);
		if (op < 2) { ok = s.ReadLock(t); CHECK(ok == !w, "ReadLock"); if (ok) r++; else blk = true; }
		else if (op == 2) { ok = s.WriteLock(t); CHECK(ok == (!w && !r), "WriteLock"); if (ok) w = true; else blk = true; }
		else if (op == 3) { CHECK(s.ReadUnlock() == (r > 0), "ReadUnlock"); if (r) r--; }
		else if (w) { CHECK(s.WriteUnlock(), "WriteUnlock"); w = false; }
		CHECK(sim::now_us - t0 == (blk ? (int64_t)t * 1000 : 0), "operation took %lld us", (long long)(sim::now_us - t0));
		held("operation"); NONTRIV(); sim::now_us += rnd(2000000);
	}
	if (rnd(3) == 0) { CHECK(s.Create(NULL) && s.WriteLock(0) && s.WriteUnlock() && s.ReadLock(0), "second Create"); }
}
static void concurrent(bool named)
{
	sim::reset(); readers = users = 0; writer = -1;
	int nt = 2 + rnd(4), steps = 1 + rnd(4);
	sim::spur = rnd(2) ? 0 : 60; sim::clockstep = rnd(3) == 0; bool useinf = rnd(2); unsigned wl = 1 + rnd(8), wp = 1 + rnd(4);
	CASE("%d threads, %d steps, spurious %u named %d", nt, steps, sim::spur, named);
	std::unique_ptr<ReadWriteLock> lk[6]; Me me[6] = {}; int used = named ? nt : 1;
	lk[0].reset(new ReadWriteLock()); if (!named) CHECK(lk[0]->Create(NULL), "Create");
	for (int i = 0; i < nt; i++) sim::spawn([&, i]() {
		if (named) { if (i) lk[i].reset(new ReadWriteLock()); CHECK(lk[i]->Create("a name"), "Create of a named lock"); held("Create"); }
		ReadWriteLock &s = *lk[named ? i : 0]; Me &m = me[i];
		for (int k = 0; k < steps; k++)
		{
			uint32_t w = rnd(4) == 0 ? 0 : (useinf && rnd(2) ? INFINITE : 1 + (uint32_t)rnd(wl)); bool wr = rnd(4) < wp;
			// taking another lock while holding one waits for other threads at most for a limited time
			if (m.w || (m.r && wr) || (m.r && w == INFINITE)) w = 1 + rnd(2);
			if (acquire(s, m, i, wr, w)) { sim::yield(); if (rnd(3) == 0) sim::sleepus(rnd(4) * 1000); NONTRIV(); if (wr) CHECK(!readers && writer == i, "with the write lock held: %s", st().c_str()); else CHECK(writer < 0, "with the read lock held: %s", st().c_str()); }
			if (m.w) release(s, m, true, rnd(3) == 0); else if (m.r && rnd(3)) release(s, m, false, rnd(3) == 0);
		}
		while (m.r) release(s, m, false, rnd(3) == 0);
	});
	bool all = sim::run();
	CHECK(all, "a thread stays blocked although everybody left: %s", st().c_str());
	sim::spur = 0;
	CHECK(!lk[0]->ReadUnlock(), "too many readers"); CHECK(lk[0]->WriteLock(0) && !lk[0]->ReadLock(0) && lk[0]->WriteUnlock() && lk[0]->ReadLock(0) && !lk[0]->WriteLock(0), "the lock is not free at the end: %s", st().c_str());
	for (int i = 0; i < used; i++) lk[i].reset();
	if (named) { CHECK(sim::nmaps() == 0 && sim::fds.empty(), "mappings or descriptors left"); ReadWriteLock n; CHECK(n.Create("a name") && n.WriteLock(0), "rebuilt"); }
	else CHECK(sim::mxs.empty() && sim::conds.empty(), "mutexes or conditions left");
	sim::shmreset();
}
// while a writer waits, no new reader gets in; it gets in once the readers inside have left
static void fairness()
{
	sim::reset(); sim::clockstep = false; ReadWriteLock s; CHECK(s.Create(NULL), "Create"); int n = 1 + rnd(3); bool in = false; uint32_t tl = 50 + rnd(50); unsigned rdelay = 5 + rnd(30);
	CASE("a writer waits for %d readers", n);
	for (int i = 0; i < n; i++) CHECK(s.ReadLock(0), "ReadLock");
	bool fail = rnd(3) == 0;
	sim::spawn([&]() { int64_t t0 = sim::now_us; bool r = s.WriteLock(fail ? rdelay : rnd(2) ? tl : INFINITE); held("WriteLock"); CHECK(r == !fail, "writer result %d", r); if (fail) CHECK(sim::now_us - t0 == rdelay * 1000, "limit"); else { in = true; CHECK(!s.ReadLock(0), "a reader beside the writer"); CHECK(s.WriteUnlock(), "WriteUnlock"); } });
	sim::spawn([&]() { sim::sleepus(1000); CHECK(!s.ReadLock(0), "a new reader overtakes a waiting writer"); int64_t t0 = sim::now_us; CHECK(!s.ReadLock(2), "a new reader overtakes a waiting writer"); CHECK(sim::now_us - t0 == 2000, "ReadLock(2) took %lld us", (long long)(sim::now_us - t0)); CHECK(!in, "the writer came too early"); t0 = sim::now_us; CHECK(!s.WriteLock(2) && sim::now_us - t0 == 2000, "a second writer");
		sim::sleepus(rdelay * 1000); if (fail) { CHECK(s.ReadLock(0) && s.ReadUnlock(), "a writer that gave up keeps readers out"); } for (int i = 0; i < n; i++) { CHECK(!in, "the writer came while readers were inside"); CHECK(s.ReadUnlock(), "ReadUnlock"); } });
	CHECK(sim::run(), "stuck: %s", sim::trace.c_str()); CHECK(in == !fail, "writer"); CHECK(s.WriteLock(0), "free at the end"); NONTRIV(); sim::endthreads();
}
// the waits of one call share one limit
static void budget()
{
	sim::reset(); sim::clockstep = false; ReadWriteLock s; CHECK(s.Create(NULL), "Create"); unsigned a = 1 + rnd(40), b = 1 + rnd(80); bool wr = true; (void)wr;
	CASE("gate free after %u ms, readers stay, limit %u", a, b);
	CHECK(s.WriteLock(0), "WriteLock");
	sim::spawn([&]() { sim::sleepus(a * 1000); CHECK(s.WriteUnlock(), "WriteUnlock"); });
	sim::spawn([&]() { int64_t t0 = sim::now_us; CHECK(s.ReadLock(INFINITE), "ReadLock"); CHECK(sim::now_us - t0 == a * 1000, "reader waited %lld us", (long long)(sim::now_us - t0)); });
	sim::spawn([&]() { sim::sleepus(1); int64_t t0 = sim::now_us; bool r = s.WriteLock(b); int64_t el = sim::now_us - t0; CHECK(!r || el == a * 1000 - 1, "writer got in after %lld us", (long long)el); if (r) s.WriteUnlock(); else CHECK(el >= (int64_t)(b - 1) * 1000 && el <= (int64_t)b * 1000 + 1000, "WriteLock(%u) gave up after %lld us", b, (long long)el); });
	CHECK(sim::run(), "stuck: %s", sim::trace.c_str()); NONTRIV(); sim::endthreads();
}
static void limits()
{
	CASE("named"); sim::shmreset();
	{ ReadWriteLock a, b, o; CHECK(a.Create("x") && b.Create("x") && o.Create("y"), "Create"); CHECK(a.ReadLock(0) && b.ReadLock(0) && !a.WriteLock(0) && o.WriteLock(0) && a.ReadUnlock() && !b.WriteLock(4) && a.ReadUnlock() && !b.ReadUnlock() && b.WriteLock(0) && !a.ReadLock(0) && a.WriteUnlock() && a.ReadLock(0), "shared"); }
	{ ReadWriteLock n; CHECK(n.Create("x") && n.WriteLock(0), "rebuilt"); }
	sim::shmreset();
	CASE("Create fails"); { sim::shmfail = 1; ReadWriteLock e; CHECK(!e.Create("z"), "Create"); CHECK(!e.ReadLock(0) && !e.WriteLock(0), "usable after a failed Create"); sim::shmfail = 2; CHECK(!e.Create("z"), "Create"); CHECK(!e.ReadLock(0), "ReadLock"); sim::shmfail = 0; CHECK(sim::fds.empty(), "descriptor left open"); CHECK(e.Create(NULL) && e.WriteLock(0), "later Create"); }
	sim::shmreset();
	CASE("many readers"); { ReadWriteLock m; CHECK(m.Create(NULL), "Create"); for (int i = 0; i < 66000; i++) if (!m.ReadLock(i & 1 ? 0 : INFINITE)) FAILF("ReadLock"); for (int i = 0; i < 66000; i++) { if (i % 1000 == 0 || i == 65999) CHECK(!m.WriteLock(0), "WriteLock with %d readers", 66000 - i); if (!m.ReadUnlock()) FAILF("ReadUnlock"); if (i == 464 || i == 463) CHECK(!m.WriteLock(0), "WriteLock"); } CHECK(!m.ReadUnlock(), "too many"); CHECK(m.WriteLock(0), "WriteLock"); }
}
static void harness()
{
	sim::reset(); limits();
	for (int i = 0; i < 200; i++) { sim::reset(); sim::clockstep = false; sequential(); fairness(); budget(); }
	do { for (int i = 0; i < 50; i++) { concurrent(false); if (i % 5 == 0) concurrent(true); } sim::reset(); sim::clockstep = false; sequential(); fairness(); budget(); } while (time_left());
}
