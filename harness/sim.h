// Deterministic stand-ins for threads, mutexes, condition variables, clocks and named memory.
// The real sources are compiled against them: only the operating system is replaced.
#pragma once
#include "common.h"
#include <ucontext.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include <errno.h>
#include <limits.h>
#include <functional>
#include <memory>
#include <set>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define FIB_START(f, b, s) __sanitizer_start_switch_fiber(f, b, s)
static const void *mainb; static size_t mains;
#define FIB_END(f) __sanitizer_finish_switch_fiber(f, NULL, NULL)
#define FIB_IN() __sanitizer_finish_switch_fiber(NULL, &mainb, &mains)
#else
#define FIB_START(f, b, s)
#define FIB_END(f)
#define FIB_IN()
#endif
namespace sim {
enum St { READY, WANT, COND, SLEEP, DONE };
struct Mx { int owner; };
struct Th { int id; St st; const void *obj, *mx; int64_t deadline; bool timed, woken; int rc; ucontext_t uc; char *stack; void *fake; std::function<void()> fn; std::vector<const void *> held; uint64_t lastseq; bool trylost; bool faulted; int waits; };
static std::map<const void *, Mx> mxs;
static std::set<const void *> conds;
static std::vector<std::unique_ptr<Th>> ths;
static Th *cur;
static Th mainth;
static int64_t now_us = 1000000000LL * 1000 + 999999;	// microseconds since the epoch
static uint64_t seq;
template <class T> static void keep(std::unique_ptr<T> &p) { static std::vector<T *> *k = new std::vector<T *>(); k->push_back(p.release()); }
static unsigned spur, fault;	// chance (in 1/1000) of a spurious wakeup, of a fault
static bool clockstep;
static const size_t STK = 256 * 1024;
static std::vector<char *> &stacks = *new std::vector<char *>();
static std::string trace;
static void note(const char *w) { if (cur && trace.size() < 2500) { char b[64]; snprintf(b, 64, "%d:%s ", cur->id, w); trace += b; } }
static void to_sched()
{
	Th *t = cur; (void)t;
	FIB_START(&t->fake, mainb, mains);
	swapcontext(&t->uc, &mainth.uc);
	FIB_END(t->fake);
}
static void yield() { if (cur) to_sched(); }
static void entry()
{
	FIB_IN();
	cur->fn();
	cur->st = DONE;
	Th *t = cur; (void)t;
	FIB_START(NULL, mainb, mains);
	swapcontext(&t->uc, &mainth.uc);
}
static void endthreads() { for (auto &t : ths) if (t->stack) stacks.push_back(t->stack); ths.clear(); }
static void reset() { mxs.clear(); conds.clear(); endthreads(); cur = NULL; mainth.id = 99; mainth.held.clear(); trace.clear(); spur = fault = 0; seq = 0; }
static void spawn(std::function<void()> f)
{
	Th *t = new Th(); t->id = (int)ths.size(); t->st = READY; t->fn = f; t->obj = t->mx = NULL; t->timed = t->woken = false; t->fake = NULL; t->lastseq = 0; t->trylost = t->faulted = false; t->waits = 0;
	if (stacks.empty()) t->stack = (char *)malloc(STK); else { t->stack = stacks.back(); stacks.pop_back(); }
	getcontext(&t->uc); t->uc.uc_stack.ss_sp = t->stack; t->uc.uc_stack.ss_size = STK; t->uc.uc_link = NULL; makecontext(&t->uc, entry, 0);
	ths.emplace_back(t);
}
static bool can(Th *t)
{
	if (t->st == READY) return true;
	if (t->st == WANT) { auto i = mxs.find(t->mx); return i == mxs.end() || i->second.owner < 0; }
	if (t->st == SLEEP) return now_us >= t->deadline;
	return false;
}
// runs until nothing can run any more; true if every thread finished
static bool run(size_t limit = 20000)
{
	for (size_t n = 0; ; n++)
	{
		CHECK(n < limit, "threads make no progress: %s", trace.c_str());
		for (auto &t : ths) if (t->st == COND)
		{
			if (t->woken) { t->rc = 0; t->st = WANT; }
			else if (t->timed && now_us >= t->deadline) { if (rnd(3)) { t->rc = ETIMEDOUT; t->st = WANT; } }
			else if (spur && rnd(1000) < spur) { t->rc = 0; t->st = WANT; }
		}
		std::vector<Th *> c;
		for (auto &t : ths) if (can(t.get())) c.push_back(t.get());
		if (c.empty())
		{
			int64_t d = INT64_MAX; bool late = false;
			for (auto &t : ths) if ((t->st == COND && t->timed) || t->st == SLEEP) { if (t->deadline <= now_us) late = true; d = std::min(d, t->deadline); }
			if (late) continue;
			if (d == INT64_MAX) { for (auto &t : ths) if (t->st != DONE) return false; return true; }
			now_us = d; continue;
		}
		if (clockstep && rnd(8) == 0) now_us += rnd(3000);
		Th *t = c[rnd(c.size())];
		if (t->st == WANT) { auto i = mxs.find(t->mx); CHECK(i != mxs.end(), "a thread waits for a destroyed mutex: %s", trace.c_str()); i->second.owner = t->id; t->held.push_back(t->mx); }
		t->st = READY; cur = t;
		FIB_START(&mainth.fake, t->stack, STK);
		swapcontext(&mainth.uc, &t->uc);
		FIB_END(mainth.fake);
		cur = NULL;
	}
}
static Th *me() { return cur ? cur : &mainth; }
static bool inj() { if (fault && rnd(1000) < fault) { me()->faulted = true; return true; } return false; }
static Mx &getm(const void *m, const char *w) { auto i = mxs.find(m); if (i == mxs.end()) FAILF("%s of a mutex that was never initialized: %s", w, trace.c_str()); return i->second; }
static int lock(pthread_mutex_t *m)
{
	yield(); note("lock"); Mx &x = getm(m, "lock"); Th *t = me();
	if (inj()) return EINVAL;
	CHECK(x.owner != t->id, "a thread locks an internal mutex it already holds: %s", trace.c_str());
	if (x.owner < 0) { x.owner = t->id; t->held.push_back(m); return 0; }
	if (!cur) FAILF("blocked on an internal mutex outside of any thread");
	t->st = WANT; t->mx = m; to_sched(); return 0;
}
static int trylock(pthread_mutex_t *m)
{
	yield(); note("trylock"); Mx &x = getm(m, "trylock"); Th *t = me();
	if (inj()) return EINVAL;
	if (x.owner >= 0) { t->trylost = true; return EBUSY; }
	x.owner = t->id; t->held.push_back(m); return 0;
}
static int unlock(pthread_mutex_t *m)
{
	note("unlock"); Mx &x = getm(m, "unlock"); Th *t = me();
	CHECK(x.owner == t->id, "a thread unlocks an internal mutex that it does not hold: %s", trace.c_str());
	x.owner = -1; t->held.erase(std::find(t->held.begin(), t->held.end(), (const void *)m)); t->lastseq = ++seq;
	yield(); return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	note(ts ? "timedwait" : "wait"); Th *t = me(); CHECK(conds.count(c), "wait on a condition that was never initialized"); Mx &x = getm(m, "wait");
	CHECK(x.owner == t->id, "wait on a condition without holding its mutex: %s", trace.c_str());
	if (ts) CHECK(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "deadline with %ld nanoseconds", (long)ts->tv_nsec);
	if (inj()) return EINVAL;
	t->waits++;
	if (!cur) { if (!ts) FAILF("blocked forever outside of any thread"); int64_t d = (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000; if (d > now_us) now_us = d; return ETIMEDOUT; }
	x.owner = -1; t->held.erase(std::find(t->held.begin(), t->held.end(), (const void *)m)); ++seq;
	t->st = COND; t->obj = c; t->mx = m; t->timed = ts != NULL; t->woken = false; t->deadline = ts ? (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000 : 0;
	to_sched();
	note(t->rc ? "timeout" : "woken");
	return t->rc;
}
static int wake(pthread_cond_t *c, bool all)
{
	note(all ? "broadcast" : "signal"); CHECK(conds.count(c), "signal of a condition that was never initialized");
	std::vector<Th *> w; for (auto &t : ths) if (t->st == COND && t->obj == c && !t->woken) w.push_back(t.get());
	if (w.empty()) return 0;
	if (all) { for (Th *t : w) t->woken = true; } else w[rnd(w.size())]->woken = true;
	return 0;
}
struct Shm { char *mem; size_t size; int maps; };
static std::map<std::string, Shm> shms;
static bool inshm(const void *p) { for (auto &s : shms) if (s.second.mem && (const char *)p >= s.second.mem && (const char *)p < s.second.mem + s.second.size) return true; return false; }
static int minit(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	note("init"); int v = PTHREAD_PROCESS_PRIVATE; if (a) pthread_mutexattr_getpshared(a, &v);
	CHECK(v == PTHREAD_PROCESS_SHARED || !inshm(m), "mutex of a named object not shared between processes");
	mxs[m] = Mx(); mxs[m].owner = -1; return 0; }
static int mdestroy(pthread_mutex_t *m) { CHECK(getm(m, "destruction").owner < 0, "destruction of a locked mutex"); mxs.erase(m); return 0; }
static int cinit(pthread_cond_t *c, const pthread_condattr_t *a) { int v = PTHREAD_PROCESS_PRIVATE; if (a) pthread_condattr_getpshared(a, &v); CHECK(v == PTHREAD_PROCESS_SHARED || !inshm(c), "condition of a named object not shared between processes"); conds.insert(c); return 0; }
static int cdestroy(pthread_cond_t *c) { CHECK(conds.count(c), "destruction of a condition that was never initialized"); conds.erase(c); return 0; }
static int clock(struct timespec *ts) { if (inj()) { errno = EINVAL; return -1; } ts->tv_sec = now_us / 1000000; ts->tv_nsec = now_us % 1000000 * 1000; return 0; }
static int tod(struct timeval *tv) { if (inj()) { errno = EINVAL; return -1; } tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000; return 0; }
static int sleepus(int64_t us) { if (!cur) { now_us += us; return 0; } cur->st = SLEEP; cur->deadline = now_us + us; to_sched(); return 0; }
// ---- named memory
static std::map<int, std::string> fds;
static int nextfd = 100, umsk = 022;
static std::map<char *, std::vector<size_t>> maps;
static std::string lastname;
static int shmfail;	// 1 open, 2 mmap
static int shmopen(const char *n, int fl, int mode)
{
	yield(); note("shm_open"); lastname = n;
	CHECK(strlen(n) < 256 && n[0] == '/' && !strchr(n + 1, '/'), "name not usable for named memory: '%s'", n);
	CHECK(strlen(n) >= 2, "empty name for named memory");
	for (size_t i = 0; n[i]; i++) CHECK((unsigned char)n[i] != '\\', "name with a backslash");
	if (shmfail == 1) { errno = EACCES; return -1; }
	auto i = shms.find(n);
	if (i == shms.end()) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } Shm s; s.mem = NULL; s.size = 0; s.maps = 0; shms[n] = s; }
	else if (fl & O_EXCL) { errno = EEXIST; return -1; }
	CHECK((fl & 3) == O_RDWR, "named memory not opened for writing");
	fds[nextfd] = n; return nextfd++;
}
static int ftrunc(int fd, off_t n) { yield(); CHECK(fds.count(fd), "size change of a closed descriptor"); if (rnd(6) == 0) { errno = EINTR; return -1; } Shm &s = shms[fds[fd]]; if (!s.mem) { s.mem = (char *)calloc(1, n); s.size = n; } CHECK((size_t)n == s.size, "named memory resized from %zu to %zu", s.size, (size_t)n); return 0; }
static void *map(size_t n, int prot, int fl, int fd) { yield(); CHECK(fds.count(fd), "mapping of a closed descriptor"); if (shmfail == 2) { errno = ENOMEM; return MAP_FAILED; } Shm &s = shms[fds[fd]]; CHECK(n == s.size && (prot & 3) == 3 && (fl & MAP_SHARED), "mapping of %zu bytes of %zu", n, s.size); s.maps++; maps[s.mem].push_back(n); return s.mem; }
static int unmap(void *p, size_t n) { auto i = maps.find((char *)p); CHECK(i != maps.end() && !i->second.empty(), "removal of a mapping that does not exist"); size_t full = i->second.back(), pg = 4096; CHECK((n + pg - 1) / pg == (full + pg - 1) / pg, "removal of %zu bytes of a mapping of %zu", n, full); i->second.pop_back(); return 0; }
static int um(int m) { int o = umsk; umsk = m; return o; }
static int closefd(int fd) { CHECK(fds.count(fd), "close of a closed descriptor %d", fd); fds.erase(fd); return 0; }
static size_t nmaps() { size_t n = 0; for (auto &m : maps) n += m.second.size(); return n; }
static void shmreset() { for (auto &s : shms) { free(s.second.mem); } shms.clear(); fds.clear(); maps.clear(); shmfail = 0; }
}
#define pthread_mutex_lock(m) sim::lock(m)
#define pthread_mutex_trylock(m) sim::trylock(m)
#define pthread_mutex_unlock(m) sim::unlock(m)
#define pthread_mutex_init(m, a) sim::minit(m, a)
#define pthread_mutex_destroy(m) sim::mdestroy(m)
#define pthread_cond_init(c, a) sim::cinit(c, a)
#define pthread_cond_destroy(c) sim::cdestroy(c)
#define pthread_cond_wait(c, m) sim::cwait(c, m, NULL)
#define pthread_cond_timedwait(c, m, t) sim::cwait(c, m, t)
#define pthread_cond_signal(c) sim::wake(c, false)
#define pthread_cond_broadcast(c) sim::wake(c, true)
#define pthread_self() ((pthread_t)(sim::me()->id + 1000))
#define clock_gettime(a, b) sim::clock(b)
#define gettimeofday(a, b) sim::tod(a)
#define usleep(n) sim::sleepus(n)
#define shm_open(n, f, m) sim::shmopen(n, f, m)
#define ftruncate(f, n) sim::ftrunc(f, n)
#define mmap(a, n, p, f, d, o) sim::map(n, p, f, d)
#define munmap(p, n) sim::unmap(p, n)
#define umask(m) sim::um(m)
#define close(f) sim::closefd(f)
