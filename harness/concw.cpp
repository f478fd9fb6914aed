// concw - runs small concurrent programs against the real efsw library under a controlled
// scheduler.  All threads (the clients', efsw's own) run one at a time; a seeded scheduler decides
// at every synchronisation point, and with basic-block granularity inside efsw's code, which one
// continues.  Every execution is recorded as an ndjson trace (calls, results, callbacks, changes).
//
// usage: concw PROGRAMS TRACE SCRATCH EXECUTIONS SEED [SECONDS]
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <efsw/efsw.h>
#include <efsw/efsw.hpp>

#define REAL(ret, name, args) \
	typedef ret(*name##_fn) args; \
	static name##_fn real_##name() { static name##_fn f; if (!f) f = (name##_fn)dlsym(RTLD_NEXT, #name); return f; }
REAL(int, select, (int, fd_set*, fd_set*, fd_set*, timeval*))
REAL(int, poll, (pollfd*, nfds_t, int))
REAL(int, epoll_wait, (int, epoll_event*, int, int))
REAL(ssize_t, read, (int, void*, size_t))
REAL(int, inotify_init, ())
REAL(int, inotify_init1, (int))
REAL(int, inotify_add_watch, (int, const char*, uint32_t))
REAL(int, inotify_rm_watch, (int, int))
REAL(int, usleep, (useconds_t))
REAL(int, nanosleep, (const timespec*, timespec*))
REAL(int, clock_nanosleep, (clockid_t, int, const timespec*, timespec*))
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**))
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*))
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int, pthread_once, (pthread_once_t*, void (*)()))
REAL(int, sched_yield, ())
REAL(DIR*, opendir, (const char*))

// ------------------------------------------------------------------------------------------------
// shared with the parent process
struct Shared {
	size_t len;
	long bb, sync;      // steps taken
	int end;            // 0 crashed, 1 finished, 2 hang
	char why[200];
	char buf[1 << 20];
};
static Shared* g_sh;
static std::string g_root;
static void emit(const std::string& s) {
	if (g_sh->len + s.size() + 2 > sizeof g_sh->buf) return;
	memcpy(g_sh->buf + g_sh->len, s.data(), s.size());
	g_sh->len += s.size();
	g_sh->buf[g_sh->len++] = '\n';
}
static std::string num(long v) { return std::to_string(v); }

// ------------------------------------------------------------------------------------------------
// the scheduler
enum { RUN, MUTEX, RWR, RWW, COND, JOIN, GUARD, FDS, QUIESCE, DONE };
struct Th {
	int id;
	sem_t sem;
	int st = RUN;
	void* on = nullptr;
	std::vector<pollfd> fds;
	bool canTimeout = false, timedOut = false, signaled = false;
	bool efsw = false;      // made by the library
	bool joined = false;    // (the handle may be used again)
	int tmo = 0;            // consecutive timeouts
	long prio = 0;
	pthread_t handle;
	void* (*fn)(void*) = nullptr;
	void* arg = nullptr;
};
static std::vector<Th*> g_ths;
static thread_local Th* t_self = nullptr;
static thread_local int t_hook = 0;
struct HookOff { HookOff() { t_hook++; } ~HookOff() { t_hook--; } };
struct HookOn { int s; HookOn() : s(t_hook) { t_hook = 0; } ~HookOn() { t_hook = s; } };
static bool hooked() { return t_self && !t_hook; }

struct Mx { Th* owner = nullptr; int cnt = 0; };
static std::map<void*, Mx> g_mx;
struct Rw { Th* w = nullptr; std::map<Th*, int> r; };
static std::map<void*, Rw> g_rw;
static std::map<void*, Th*> g_guard;
static std::set<int> g_inofd;
static bool g_on = false;

static uint64_t g_rng;
static uint64_t rnd() {
	g_rng ^= g_rng << 13;
	g_rng ^= g_rng >> 7;
	g_rng ^= g_rng << 17;
	return g_rng * 2685821657736338717ull >> 16;
}
static bool chance(int n) { return n > 0 && rnd() % n == 0; }

// strategy of this execution
static int g_q = 4;             // switch at a synchronisation point with chance 1/q (0: never by chance)
static long g_meanGap = 0;      // mean number of basic blocks between preemptions (0: none)
static bool g_pct = false;
static std::set<long> g_chBB, g_chSync; // priority change points
static int g_tmoChance = 16;
static int g_batchMode = 0;
static long g_gap = LONG_MAX, g_bb = 0, g_sync = 0, g_spin = 0, g_low = -1;
static const long MAXBB = 6000000;

static void finish(int how, const std::string& why) {
	g_sh->bb = g_bb;
	g_sh->sync = g_sync;
	g_sh->end = how;
	snprintf(g_sh->why, sizeof g_sh->why, "%s", why.c_str());
	_exit(how == 1 ? 0 : 78);
}
static std::string stateOf() {
	static const char* n[] = {"run", "mutex", "rwr", "rww", "cond", "join", "guard", "fds", "quiesce", "done"};
	std::string s;
	for (Th* t : g_ths) s += std::string(t->efsw ? "w" : "c") + num(t->id) + ":" + n[t->st] + " ";
	return s;
}
static bool fdsReady(Th* t) {
	if (t->fds.empty()) return false;
	return real_poll()(t->fds.data(), t->fds.size(), 0) != 0;
}
static bool enabled(Th* t) {
	switch (t->st) {
		case RUN: return true;
		case MUTEX: { Mx& m = g_mx[t->on]; return !m.owner; }
		case RWR: return !g_rw[t->on].w;
		case RWW: { Rw& r = g_rw[t->on]; return !r.w && r.r.empty(); }
		case COND: return t->signaled;
		case JOIN: return ((Th*)t->on)->st == DONE;
		case GUARD: return !g_guard.count(t->on);
		case FDS: return fdsReady(t);
		case QUIESCE:
			for (Th* o : g_ths) {
				if (o == t || o->st == DONE) continue;
				if (!o->efsw) return false;
				if (o->st != FDS && o->st != COND) return false;
				if (o->canTimeout && o->tmo < 3) return false;
				if (enabled(o)) return false;
			}
			return true;
	}
	return false;
}
static void resumeState(Th* t) {
	if (t->st == FDS && !t->timedOut) t->tmo = 0;
	t->st = RUN;
}
static Th* pick() {
	for (;;) {
		std::vector<Th*> e, tm;
		for (Th* t : g_ths) {
			if (t->st == DONE) continue;
			if (enabled(t)) e.push_back(t);
			else if ((t->st == FDS || t->st == COND) && t->canTimeout) tm.push_back(t);
		}
		if (e.empty() || (!tm.empty() && chance(g_tmoChance))) {
			if (tm.empty()) finish(2, "deadlock: " + stateOf());
			if (e.empty() && ++g_spin > 400) finish(2, "nothing but timeouts: " + stateOf());
			Th* t = tm[rnd() % tm.size()];
			t->timedOut = true;
			t->tmo++;
			t->st = RUN;
			continue;
		}
		Th* best = nullptr;
		if (g_pct) {
			for (Th* t : e)
				if (!best || t->prio > best->prio) best = t;
		} else
			best = e[rnd() % e.size()];
		if (!best->efsw) g_spin = 0;
		resumeState(best);
		return best;
	}
}
static void switchTo(Th* n, bool wait = true) {
	Th* me = t_self;
	if (n == me) return;
	sem_post(&n->sem);
	if (wait)
		while (sem_wait(&me->sem) != 0) {}
}
static void nextGap() {
	if (g_pct) {
		auto it = g_chBB.upper_bound(g_bb);
		g_gap = it == g_chBB.end() ? LONG_MAX : *it - g_bb;
	} else if (g_meanGap)
		g_gap = 1 + rnd() % (2 * g_meanGap);
	else
		g_gap = LONG_MAX;
}
static void block(int st, void* on) {
	t_self->st = st;
	t_self->on = on;
	switchTo(pick());
}
static void syncPoint() {
	if (!hooked()) return;
	HookOff off;
	g_sync++;
	if (g_bb + g_sync * 20 > MAXBB) finish(2, "too many steps: " + stateOf());
	if (g_pct) {
		if (g_chSync.count(g_sync)) t_self->prio = g_low--;
		t_self->st = RUN;
		switchTo(pick());
	} else if (chance(g_q)) {
		t_self->st = RUN;
		switchTo(pick());
	}
}
extern "C" void __sanitizer_cov_trace_pc() {
	if (!t_self || t_hook) return;
	g_bb++;
	if (--g_gap > 0) return;
	HookOff off;
	if (g_bb > MAXBB) finish(2, "too many steps: " + stateOf());
	if (g_pct) t_self->prio = g_low--;
	nextGap();
	t_self->st = RUN;
	switchTo(pick());
}
// waits for descriptors or time; true: ready, false: timed out
static bool idle(const std::vector<pollfd>& fds, bool canTimeout) {
	HookOff off;
	Th* t = t_self;
	t->fds = fds;
	t->canTimeout = canTimeout;
	t->timedOut = false;
	g_sync++;
	if (g_sync * 20 + g_bb > MAXBB) finish(2, "too many steps: " + stateOf());
	block(FDS, nullptr);
	t->canTimeout = false;
	return !t->timedOut;
}

static void* thMain(void* p) {
	Th* t = (Th*)p;
	t_self = t;
	t_hook = 1;
	while (sem_wait(&t->sem) != 0) {}
	t_hook = 0;
	void* r = t->fn(t->arg);
	t_hook = 1;
	t->st = DONE;
	switchTo(pick(), false);
	return r;
}
static Th* spawn(void* (*fn)(void*), void* arg, bool efsw) {
	Th* t = new Th;
	static int nc = 0, nw = 100;
	t->id = efsw ? nw++ : nc++;
	sem_init(&t->sem, 0, 0);
	t->efsw = efsw;
	t->fn = fn;
	t->arg = arg;
	t->prio = 10 + rnd() % 1000;
	g_ths.push_back(t);
	return t;
}

extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
	if (!hooked()) return real_pthread_create()(th, at, fn, arg);
	syncPoint();
	HookOff off;
	Th* t = spawn(fn, arg, true);
	int rc = real_pthread_create()(&t->handle, at, thMain, t);
	*th = t->handle;
	return rc;
}
int pthread_join(pthread_t h, void** r) {
	if (hooked()) {
		syncPoint();
		HookOff off;
		for (Th* t : g_ths)
			if (!t->joined && pthread_equal(t->handle, h)) {
				if (t->st != DONE) block(JOIN, t);
				t->joined = true;
				break;
			}
	}
	return real_pthread_join()(h, r);
}
static int mxLock(pthread_mutex_t* m, bool tryIt) {
	HookOff off;
	int kind = m->__data.__kind & 3; // touches the memory
	Mx* x = &g_mx[m];
	if (x->owner == t_self) {
		if (kind != PTHREAD_MUTEX_RECURSIVE_NP) {
			if (tryIt) return EBUSY;
			finish(2, "locks a mutex it holds: " + stateOf());
		}
		x->cnt++;
		return 0;
	}
	while (x->owner) {
		if (tryIt) return EBUSY;
		block(MUTEX, m);
		x = &g_mx[m];
	}
	x->owner = t_self;
	x->cnt = 1;
	return 0;
}
static int mxUnlock(pthread_mutex_t* m) {
	HookOff off;
	volatile int k = m->__data.__kind;
	(void)k;
	Mx& x = g_mx[m];
	if (x.owner != t_self) return EPERM;
	if (--x.cnt == 0) x.owner = nullptr;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
	if (!hooked()) return real_pthread_mutex_lock()(m);
	syncPoint();
	return mxLock(m, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
	if (!hooked()) return real_pthread_mutex_trylock()(m);
	syncPoint();
	return mxLock(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (!hooked()) return real_pthread_mutex_unlock()(m);
	int rc = mxUnlock(m);
	syncPoint();
	return rc;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
	if (!hooked()) return real_pthread_rwlock_rdlock()(l);
	syncPoint();
	HookOff off;
	while (g_rw[l].w) block(RWR, l);
	g_rw[l].r[t_self]++;
	return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
	if (!hooked()) return real_pthread_rwlock_wrlock()(l);
	syncPoint();
	HookOff off;
	while (g_rw[l].w || !g_rw[l].r.empty()) block(RWW, l);
	g_rw[l].w = t_self;
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
	if (!hooked()) return real_pthread_rwlock_unlock()(l);
	{
		HookOff off;
		Rw& r = g_rw[l];
		if (r.w == t_self) r.w = nullptr;
		else if (r.r.count(t_self) && --r.r[t_self] == 0) r.r.erase(t_self);
	}
	syncPoint();
	return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool tmo) {
	syncPoint();
	HookOff off;
	Th* t = t_self;
	Mx& x = g_mx[m];
	int cnt = x.cnt;
	x.owner = nullptr;
	t->signaled = false;
	t->canTimeout = tmo;
	t->timedOut = false;
	block(COND, c);
	bool out = t->timedOut && !t->signaled;
	t->canTimeout = false;
	while (g_mx[m].owner) block(MUTEX, m);
	g_mx[m].owner = t;
	g_mx[m].cnt = cnt;
	return out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	if (!hooked()) return real_pthread_cond_wait()(c, m);
	return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
	if (!hooked()) return real_pthread_cond_timedwait()(c, m, ts);
	return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
	if (!hooked()) return real_pthread_cond_clockwait()(c, m, k, ts);
	return condWait(c, m, true);
}
static int condWake(pthread_cond_t* c, bool all) {
	syncPoint();
	HookOff off;
	std::vector<Th*> w;
	for (Th* t : g_ths)
		if (t->st == COND && t->on == c && !t->signaled) w.push_back(t);
	if (w.empty()) return 0;
	if (all)
		for (Th* t : w) t->signaled = true;
	else
		w[rnd() % w.size()]->signaled = true;
	return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
	if (!hooked()) return real_pthread_cond_signal()(c);
	return condWake(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
	if (!hooked()) return real_pthread_cond_broadcast()(c);
	return condWake(c, true);
}
static std::set<void*> g_onceDone;
int pthread_once(pthread_once_t* o, void (*fn)()) {
	if (!hooked()) return real_pthread_once()(o, fn);
	syncPoint();
	{
		HookOff off;
		while (g_guard.count(o)) block(GUARD, o);
		if (g_onceDone.count(o)) return 0;
		g_guard[o] = t_self;
	}
	fn();
	HookOff off;
	g_guard.erase(o);
	g_onceDone.insert(o);
	return 0;
}
int __cxa_guard_acquire(long long* gp) {
	char* g = (char*)gp;
	if (!hooked()) return !*g;
	HookOff off;
	while (!*g && g_guard.count(g)) block(GUARD, g);
	if (*g) return 0;
	g_guard[g] = t_self;
	return 1;
}
void __cxa_guard_release(long long* g) {
	*(char*)g = 1;
	g_guard.erase(g);
}
void __cxa_guard_abort(long long* g) { g_guard.erase(g); }

int sched_yield() {
	if (!hooked()) return real_sched_yield()();
	HookOff off;
	t_self->st = RUN;
	if (g_pct) t_self->prio = g_low--;
	switchTo(pick());
	return 0;
}
static int ready(pollfd* p, nfds_t n) { return real_poll()(p, n, 0); }
int select(int n, fd_set* r, fd_set* w, fd_set* x, timeval* tv) {
	if (!hooked()) return real_select()(n, r, w, x, tv);
	std::vector<pollfd> p;
	{
		HookOff off;
		for (int i = 0; i < n && i < FD_SETSIZE; i++) {
			short ev = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0);
			if (ev) p.push_back({i, ev, 0});
		}
	}
	bool zero = tv && tv->tv_sec == 0 && tv->tv_usec == 0;
	if (zero) syncPoint();
	else idle(p, tv != nullptr);
	timeval z = {0, 0};
	return real_select()(n, r, w, x, &z);
}
int pselect(int n, fd_set* r, fd_set* w, fd_set* x, const timespec* ts, const sigset_t*) {
	timeval tv = {0, 0};
	if (ts) {
		tv.tv_sec = ts->tv_sec;
		tv.tv_usec = ts->tv_nsec / 1000;
	}
	return select(n, r, w, x, ts ? &tv : nullptr);
}
int poll(pollfd* p, nfds_t n, int t) {
	if (!hooked()) return real_poll()(p, n, t);
	if (t == 0) syncPoint();
	else {
		std::vector<pollfd> v;
		{
			HookOff off;
			v.assign(p, p + n);
		}
		idle(v, t > 0);
	}
	return ready(p, n);
}
int ppoll(pollfd* p, nfds_t n, const timespec* ts, const sigset_t*) {
	return poll(p, n, ts ? (ts->tv_sec || ts->tv_nsec ? 1 : 0) : -1);
}
int epoll_wait(int ep, epoll_event* ev, int maxev, int t) {
	if (!hooked()) return real_epoll_wait()(ep, ev, maxev, t);
	if (t == 0) syncPoint();
	else idle({{ep, POLLIN, 0}}, t > 0);
	return real_epoll_wait()(ep, ev, maxev, 0);
}
ssize_t read(int fd, void* buf, size_t len) {
	if (!hooked()) return real_read()(fd, buf, len);
	syncPoint();
	bool ino;
	{
		HookOff off;
		ino = g_inofd.count(fd) > 0;
	}
	if (!ino) return real_read()(fd, buf, len);
	if (!(fcntl(fd, F_GETFL) & O_NONBLOCK)) {
		pollfd p = {fd, POLLIN, 0};
		while (real_poll()(&p, 1, 0) == 0) idle({p}, false);
	}
	size_t k = len;
	if (g_batchMode == 1) k = 32;
	else if (g_batchMode == 2) k = 32 * (1 + rnd() % 4);
	if (k < len) {
		ssize_t r = real_read()(fd, buf, k);
		if (r >= 0 || errno != EINVAL) return r;
	}
	return real_read()(fd, buf, len);
}
int inotify_init(void) {
	int fd = real_inotify_init()();
	if (fd >= 0 && t_self) {
		HookOff off;
		g_inofd.insert(fd);
	}
	return fd;
}
int inotify_init1(int fl) {
	int fd = real_inotify_init1()(fl);
	if (fd >= 0 && t_self) {
		HookOff off;
		g_inofd.insert(fd);
	}
	return fd;
}
int inotify_add_watch(int fd, const char* p, uint32_t m) {
	syncPoint();
	int rc = real_inotify_add_watch()(fd, p, m);
	int e = errno;
	syncPoint();
	errno = e;
	return rc;
}
int inotify_rm_watch(int fd, int wd) {
	syncPoint();
	int rc = real_inotify_rm_watch()(fd, wd);
	int e = errno;
	syncPoint();
	errno = e;
	return rc;
}
int usleep(useconds_t u) {
	if (!hooked()) return real_usleep()(u);
	idle({}, true);
	return 0;
}
int nanosleep(const timespec* a, timespec* b) {
	if (!hooked()) return real_nanosleep()(a, b);
	idle({}, true);
	return 0;
}
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) {
	if (!hooked()) return real_clock_nanosleep()(c, f, a, b);
	idle({}, true);
	return 0;
}
DIR* opendir(const char* p) {
	syncPoint();
	DIR* d = real_opendir()(p);
	int e = errno;
	syncPoint();
	errno = e;
	return d;
}
} // extern "C"

// ------------------------------------------------------------------------------------------------
// programs
static std::vector<std::string> split(const std::string& s, char c) {
	std::vector<std::string> v;
	std::string cur;
	for (char x : s) {
		if (x == c) {
			if (!cur.empty()) v.push_back(cur);
			cur.clear();
		} else
			cur += x;
	}
	if (!cur.empty()) v.push_back(cur);
	return v;
}
typedef std::vector<std::string> Words;
struct Program {
	std::string name;
	std::vector<std::string> lines;
	std::vector<Words> setup, mainOps, tail;
	std::map<int, std::vector<Words>> thr;
	struct Cb { int n; Words op; };
	std::vector<Cb> cbs;
};
static std::string json(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (isalnum(c) || strchr("._-~+/", c)) o += c;
		else {
			char b[8];
			snprintf(b, sizeof b, "%%%02X", c);
			o += b;
		}
	}
	return o;
}
static std::string pathJson(const std::string& p) { // absolute, ending in a slash -> components
	std::string r = p;
	bool ok = r.size() > g_root.size() && r.compare(0, g_root.size(), g_root) == 0 && r[g_root.size()] == '/';
	if (!ok) return "[\"" + json(p) + "\"]";
	r = r.substr(g_root.size() + 1);
	if (!r.empty() && r.back() == '/') r.pop_back();
	std::string o = "[";
	bool first = true;
	std::string cur;
	for (size_t i = 0; i <= r.size(); i++) {
		if (i == r.size() || r[i] == '/') {
			o += (first ? "\"" : ",\"") + json(cur) + "\"";
			first = false;
			cur.clear();
		} else
			cur += r[i];
	}
	return o + "]";
}
static std::string relJson(const std::string& rel) {
	std::string o = "[";
	bool first = true;
	for (auto& c : split(rel, '/')) {
		o += (first ? "\"" : ",\"") + json(c) + "\"";
		first = false;
	}
	return o + "]";
}

struct Obj {
	efsw::FileWatcher* cpp = nullptr;
	efsw_watcher c = nullptr;
	bool isC = false, dead = false;
};
static std::map<int, Obj> g_obj;
static std::map<int, long> g_slot;  // slot -> id
static std::vector<Program::Cb> g_cbq;
static void runOp(const Words& w);
static int g_key = 0;

static void onCb() {
	std::vector<Words> due;
	for (size_t i = 0; i < g_cbq.size();) {
		if (--g_cbq[i].n <= 0) {
			due.push_back(g_cbq[i].op);
			g_cbq.erase(g_cbq.begin() + i);
		} else
			i++;
	}
	for (auto& d : due) runOp(d);
	HookOn on;
	syncPoint();
}
static void logEv(int l, long w, const std::string& dir, const std::string& name, int a, const std::string& old, int h, int fn) {
	HookOff off;
	const char* k = a == 1 ? "A" : a == 2 ? "D" : a == 3 ? "M" : a == 4 ? "V" : "X";
	emit("{\"e\":\"ev\",\"t\":" + num(t_self ? t_self->id : -1) + ",\"w\":" + num(w) + ",\"l\":" + num(l) + ",\"d\":" +
		 pathJson(dir) + ",\"n\":\"" + json(name) + "\",\"o\":\"" + json(old) + "\",\"a\":\"" + k + "\",\"h\":" + num(h) +
		 ",\"fn\":" + num(fn) + "}");
	onCb();
}
struct Lis : efsw::FileWatchListener {
	int i, k;
	Lis(int i_, int k_) : i(i_), k(k_) {}
	void handleFileAction(efsw::WatchID w, const std::string& d, const std::string& n, efsw::Action a, const std::string& o) override {
		logEv(i, w, d, n, (int)a, o, k, -1);
	}
	void handleMissedFileActions(efsw::WatchID w, const std::string& d) override {
		HookOff off;
		emit("{\"e\":\"missed\",\"w\":" + num(w) + "}");
	}
};
static std::map<std::pair<int, int>, Lis*> g_lis;
static int fwOfHandle(efsw_watcher h) {
	int r = -2;
	for (auto& k : g_obj)
		if (k.second.isC && k.second.c == h && !k.second.dead) r = k.first;
	return r;
}
template <int N> static void cfn(efsw_watcher h, efsw_watchid w, const char* d, const char* n, enum efsw_action a, const char* o, void* p) {
	t_hook++;
	int k = fwOfHandle(h);
	t_hook--;
	logEv((int)(long)p, w, d, n, (int)a, o ? o : "", k, N);
}
static efsw_pfn_fileaction_callback g_cfn[2] = {cfn<0>, cfn<1>};

static std::string absP(const std::string& rel) { return g_root + "/" + rel; }
static int inotifyFds() {
	int n = 0;
	DIR* d = real_opendir()("/proc/self/fd");
	while (dirent* e = readdir(d)) {
		char p[300], b[100];
		snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name);
		ssize_t r = readlink(p, b, sizeof b - 1);
		if (r > 0) {
			b[r] = 0;
			if (strstr(b, "inotify")) n++;
		}
	}
	closedir(d);
	return n;
}
static void walk(const std::string& rel, std::map<ino_t, std::string>& m) {
	std::string p = rel.empty() ? g_root : absP(rel);
	DIR* d = real_opendir()(p.c_str());
	if (!d) return;
	struct stat st;
	if (!rel.empty() && stat(p.c_str(), &st) == 0) m[st.st_ino] = rel;
	std::vector<std::string> sub;
	while (dirent* e = readdir(d))
		if (e->d_type == DT_DIR && strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
			sub.push_back(rel.empty() ? e->d_name : rel + "/" + e->d_name);
	closedir(d);
	for (auto& s : sub) walk(s, m);
}
// the directories the kernel watches, in all inotify instances
static void idleLine() {
	std::map<ino_t, std::string> m;
	walk("", m);
	std::multiset<std::string> kw;
	int unk = 0;
	for (int fd : g_inofd) {
		char p[64];
		snprintf(p, sizeof p, "/proc/self/fdinfo/%d", fd);
		FILE* fp = fopen(p, "r");
		if (!fp) continue;
		char line[512];
		while (fgets(line, sizeof line, fp)) {
			unsigned wd;
			unsigned long ino, sdev;
			if (sscanf(line, "inotify wd:%x ino:%lx sdev:%lx", &wd, &ino, &sdev) == 3) {
				if (m.count(ino)) kw.insert(m[ino]);
				else unk++;
			}
		}
		fclose(fp);
	}
	std::string s = "{\"e\":\"idle\",\"unk\":" + num(unk) + ",\"kw\":[";
	bool first = true;
	for (auto& k : kw) {
		s += std::string(first ? "" : ",") + relJson(k);
		first = false;
	}
	int dead = 0;
	for (Th* t : g_ths)
		if (t->efsw && t->st == DONE) dead++;
	emit(s + "],\"dead\":" + num(dead) + "}");
}
static void inv(int key, int k, const std::string& f, const std::string& args) {
	emit("{\"e\":\"inv\",\"t\":" + num(t_self->id) + ",\"key\":" + num(key) + ",\"k\":" + num(k) + ",\"f\":\"" + f + "\"" + args + "}");
}
static void ret(int key, int k, const std::string& f, const std::string& args) {
	emit("{\"e\":\"ret\",\"t\":" + num(t_self->id) + ",\"key\":" + num(key) + ",\"k\":" + num(k) + ",\"f\":\"" + f + "\"" + args + "}");
}
static void op(const std::string& o, const std::string& rel, const std::string& to = "") {
	auto v = split(rel, '/');
	std::string n = v.back();
	v.pop_back();
	std::string d;
	for (auto& c : v) d += (d.empty() ? "" : "/") + c;
	emit("{\"e\":\"op\",\"op\":\"" + o + "\",\"p\":" + relJson(rel) + ",\"d\":" + relJson(d) + ",\"n\":\"" + json(n) + "\",\"to\":" +
		 relJson(to) + "}");
}
// Runs one operation on the calling thread (hooks off on entry, on only inside efsw)
static void runOp(const Words& w) {
	const std::string& c = w[0];
	{
		HookOn on;
		syncPoint();
	}
	auto I = [&](size_t i, long d = 0) { return i < w.size() ? atol(w[i].c_str()) : d; };
	if (c == "mk") {
		int fd = open(absP(w[1]).c_str(), O_CREAT | O_WRONLY | O_EXCL, 0644);
		if (fd >= 0) {
			close(fd);
			op("mk", w[1]);
		}
	} else if (c == "mkdir") {
		if (mkdir(absP(w[1]).c_str(), 0755) == 0) op("mkdir", w[1]);
	} else if (c == "mv") {
		if (rename(absP(w[1]).c_str(), absP(w[2]).c_str()) == 0) op("mv", w[1], w[2]);
	} else if (c == "rm") {
		if (unlink(absP(w[1]).c_str()) == 0) op("rm", w[1]);
	} else if (c == "rmdir") {
		if (rmdir(absP(w[1]).c_str()) == 0) op("rmdir", w[1]);
	} else if (c == "wr") {
		int fd = open(absP(w[1]).c_str(), O_WRONLY | O_APPEND);
		if (fd >= 0) {
			if (write(fd, "x", 1) != 1) {}
			close(fd);
			op("wr", w[1]);
		}
	} else if (c == "new") {
		int k = I(1), key = ++g_key;
		std::string kind = w[2];
		inv(key, k, "new", ",\"kind\":\"" + kind + "\"");
		Obj o;
		o.isC = kind == "capi" || kind == "capigen";
		{
			HookOn on;
			if (o.isC) o.c = efsw_create(kind == "capigen");
			else o.cpp = new efsw::FileWatcher(kind == "generic");
		}
		g_obj[k] = o;
		ret(key, k, "new", ",\"kind\":\"" + kind + "\"");
	} else if (c == "add") { // add k slot L P rec syn [fn]
		int k = I(1), slot = I(2), l = I(3), rec = I(5), syn = I(6), fn = I(7), key = ++g_key;
		Obj o = g_obj[k];
		std::string p = absP(w[4]);
		if (!o.isC && !g_lis[{l, k}]) g_lis[{l, k}] = new Lis(l, k);
		Lis* L = g_lis[{l, k}];
		std::string args = ",\"p\":" + relJson(w[4]) + ",\"l\":" + num(l) + ",\"rec\":" + num(rec) + ",\"syn\":" + num(syn) +
						   ",\"fn\":" + num(o.isC ? fn : -1);
		inv(key, k, "add", args);
		long r;
		{
			HookOn on;
			if (o.isC) {
				efsw_watcher_option op_;
				op_.option = EFSW_LINUX_PRODUCE_SYNTHETIC_EVENTS;
				op_.value = syn;
				r = efsw_addwatch_withoptions(o.c, p.c_str(), g_cfn[fn], rec, &op_, 1, (void*)(long)l, nullptr);
			} else
				r = o.cpp->addWatch(p, L, rec, {efsw::WatcherOption(efsw::Options::LinuxProduceSyntheticEvents, syn)});
		}
		if (!g_slot.count(slot)) g_slot[slot] = r;
		ret(key, k, "add", ",\"res\":" + num(r));
	} else if (c == "rmid" || c == "rmpath") {
		int k = I(1), key = ++g_key;
		Obj o = g_obj[k];
		if (c == "rmid") {
			int slot = I(2);
			long id = g_slot.count(slot) ? g_slot[slot] : 0;
			inv(key, k, "rmid", ",\"w\":" + num(id));
			HookOn on;
			if (o.isC) efsw_removewatch_byid(o.c, id);
			else o.cpp->removeWatch(id);
		} else {
			std::string p = absP(w[2]);
			inv(key, k, "rmpath", ",\"p\":" + relJson(w[2]));
			HookOn on;
			if (o.isC) efsw_removewatch(o.c, p.c_str());
			else o.cpp->removeWatch(p);
		}
		ret(key, k, c, "");
	} else if (c == "dirs") {
		int k = I(1), key = ++g_key;
		Obj o = g_obj[k];
		if (o.isC) o.cpp = (efsw::FileWatcher*)o.c;
		inv(key, k, "dirs", "");
		std::vector<std::string> v;
		{
			HookOn on;
			v = o.cpp->directories();
		}
		std::sort(v.begin(), v.end());
		std::string s = ",\"dl\":[";
		for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + pathJson(v[i]);
		ret(key, k, "dirs", s + "]");
	} else if (c == "watch") {
		int k = I(1), key = ++g_key;
		Obj o = g_obj[k];
		inv(key, k, "watch", "");
		{
			HookOn on;
			if (o.isC) efsw_watch(o.c);
			else o.cpp->watch();
		}
		ret(key, k, "watch", "");
	} else if (c == "err") {
		HookOn on;
		efsw::Errors::Log::getLastErrorLog();
		efsw::Errors::Log::getLastErrorCode();
	} else if (c == "clrerr") {
		HookOn on;
		efsw::Errors::Log::clearLastError();
	} else if (c == "follow") {
		Obj o = g_obj[I(1)];
		HookOn on;
		if (o.isC) efsw_follow_symlinks(o.c, I(2));
		else o.cpp->followSymlinks(I(2));
	} else if (c == "del") {
		int k = I(1), key = ++g_key;
		Obj o = g_obj[k];
		inv(key, k, "del", "");
		{
			HookOn on;
			if (o.isC) efsw_release(o.c);
			else delete o.cpp;
		}
		g_obj[k].dead = true;
		ret(key, k, "del", "");
	} else if (c == "quiesce") {
		for (Th* t : g_ths) t->tmo = 0;
		g_spin = 0;
		block(QUIESCE, nullptr);
		idleLine();
	} else if (c == "drop") { // the listener objects of an object that is gone
		for (auto& x : g_lis)
			if (x.first.second == I(1)) {
				delete x.second;
				x.second = nullptr;
			}
	} else {
		fprintf(stderr, "concw: unknown operation %s\n", c.c_str());
		finish(3, "unknown operation " + c);
	}
}
static void* clientMain(void* p) {
	HookOff off;
	for (auto& w : *(std::vector<Words>*)p) runOp(w);
	return nullptr;
}

static void strategy(uint64_t seed) {
	g_rng = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
	for (int i = 0; i < 8; i++) rnd();
	int kind = seed % 8;
	// where the schedule is disturbed: up to a bound of its own
	long estBB = 1l << (6 + rnd() % 8), estSync = 1l << (4 + rnd() % 5);
	static const int qs[] = {2, 3, 5, 10};
	static const long gaps[] = {4, 20, 60, 200, 1000, 5000};
	g_tmoChance = rnd() % 3 == 0 ? 4 : rnd() % 2 ? 16 : 60;
	g_batchMode = rnd() % 3;
	if (kind <= 1) {
		g_q = qs[rnd() % 4];
	} else if (kind <= 3) {
		g_q = qs[rnd() % 4];
		g_meanGap = gaps[rnd() % 6];
	} else if (kind <= 5) {
		g_pct = true;
		int d = 1 + rnd() % 4;
		for (int i = 0; i < d; i++) g_chSync.insert(1 + rnd() % estSync);
	} else {
		g_pct = true;
		int d = 1 + rnd() % 4;
		for (int i = 0; i < d; i++) g_chBB.insert(1 + rnd() % estBB);
		if (rnd() % 2) g_chSync.insert(1 + rnd() % estSync);
	}
}

static void child(const Program& P, const std::string& dir, uint64_t seed) {
	g_root = dir;
	mkdir(dir.c_str(), 0755);
	strategy(seed);
	g_cbq = P.cbs;
	Th* me = spawn(nullptr, nullptr, false);
	me->handle = pthread_self();
	t_self = me;
	t_hook = 1;
	// nothing competes during the set-up
	for (auto& w : P.setup) runOp(w);
	emit("{\"e\":\"start\"}");
	g_gap = 0;
	nextGap();
	std::vector<Th*> cl;
	for (auto& k : P.thr) {
		Th* t = spawn(clientMain, (void*)&k.second, false);
		real_pthread_create()(&t->handle, nullptr, thMain, t);
		cl.push_back(t);
	}
	for (auto& w : P.mainOps) runOp(w);
	for (Th* t : cl)
		if (t->st != DONE) block(JOIN, t);
	emit("{\"e\":\"joined\"}");
	for (auto& w : P.tail) runOp(w);
	int alive = 0;
	for (Th* t : g_ths)
		if (t->efsw && t->st != DONE) alive++;
	emit("{\"e\":\"end\",\"thr\":" + num(alive) + ",\"open\":" + num(inotifyFds()) + "}");
	for (Th* t : cl) real_pthread_join()(t->handle, nullptr);
	finish(1, "");
}

static void rmTree(const std::string& p) {
	DIR* d = real_opendir()(p.c_str());
	if (!d) return;
	while (dirent* e = readdir(d)) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		std::string c = p + "/" + e->d_name;
		struct stat st;
		if (lstat(c.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(c);
		else unlink(c.c_str());
	}
	closedir(d);
	rmdir(p.c_str());
}
static uint64_t hashOf(const char* b, size_t n) {
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
	return h;
}
int main(int argc, char** argv) {
	if (argc < 6) return 2;
	std::vector<Program> progs;
	FILE* f = fopen(argv[1], "r");
	if (!f) return 2;
	char line[4096];
	while (fgets(line, sizeof line, f)) {
		std::string s(line);
		while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
		if (s.empty() || s[0] == '#') continue;
		if (s[0] == '@') {
			progs.emplace_back();
			progs.back().name = s.substr(1);
			continue;
		}
		Program& P = progs.back();
		P.lines.push_back(s);
		Words w = split(s, ' ');
		std::string h = w[0];
		w.erase(w.begin());
		if (h == "s") P.setup.push_back(w);
		else if (h == "m") P.mainOps.push_back(w);
		else if (h == "e") P.tail.push_back(w);
		else if (h[0] == 't') P.thr[atoi(h.c_str() + 1)].push_back(w);
		else if (h == "cb") {
			int n = atoi(w[0].c_str());
			w.erase(w.begin());
			P.cbs.push_back({n, w});
		} else {
			fprintf(stderr, "concw: bad line %s\n", s.c_str());
			return 2;
		}
	}
	fclose(f);
	FILE* out = fopen(argv[2], "w");
	std::string scratch = argv[3];
	long n = atol(argv[4]);
	uint64_t seed = strtoull(argv[5], 0, 10);
	double secs = argc > 6 ? atof(argv[6]) : 1e9;
	mkdir(scratch.c_str(), 0755);
	g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	timespec t0;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	std::string dir = scratch + "/x";
	long execs = 0, bbs = 0;
	std::vector<std::set<uint64_t>> seen(progs.size());
	std::vector<long> bad(progs.size(), 0);
	for (long i = 0; i < n; i++) {
		for (size_t pi = 0; pi < progs.size(); pi++) {
			timespec t1;
			clock_gettime(CLOCK_MONOTONIC, &t1);
			if (t1.tv_sec - t0.tv_sec > secs) goto over;
			if (bad[pi] >= 3) continue;
			const Program& P = progs[pi];
			uint64_t sd = n == 1 ? seed : seed * 1000003 + i * 977 + pi;
			if (n != 1) sd = sd - sd % 8 + i % 8;
			g_sh->len = 0;
			g_sh->end = 0;
			g_sh->why[0] = 0;
			rmTree(dir);
			std::string errf = scratch + "/err";
			fflush(out);
			pid_t pid = fork();
			if (pid == 0) {
				int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
				dup2(e, 2);
				close(e);
				alarm(20);
				child(P, dir, sd);
				_exit(0);
			}
			int st;
			while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
			execs++;
			if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
				g_sh->end = 2;
				snprintf(g_sh->why, sizeof g_sh->why, "does not terminate");
			}
			if (g_sh->end == 3) return 2;
			std::string body(g_sh->buf, g_sh->len);
			if (g_sh->end == 1) {
				bbs += g_sh->bb;
			} else {
				bad[pi]++;
				body += g_sh->end == 2 ? "{\"e\":\"hang\",\"why\":\"" + std::string(g_sh->why) + "\"}\n" : "{\"e\":\"crash\"}\n";
				std::string log;
				if (FILE* ef = fopen(errf.c_str(), "r")) {
					char b[4096];
					size_t r;
					while (log.size() < 6000 && (r = fread(b, 1, sizeof b, ef)) > 0) log.append(b, r);
					fclose(ef);
				}
				fprintf(stderr, "== %s!%llu %s\n%s\n", P.name.c_str(), (unsigned long long)sd, g_sh->why, log.c_str());
			}
			if (!seen[pi].insert(hashOf(body.data(), body.size())).second) continue;
			fprintf(out, "{\"e\":\"reset\",\"sc\":\"%s!%llu\"}\n", P.name.c_str(), (unsigned long long)sd);
			fwrite(body.data(), 1, body.size(), out);
			fprintf(out, "{\"e\":\"fin\"}\n");
		}
	}
over:
	rmTree(dir);
	fclose(out);
	size_t d = 0;
	for (auto& s : seen) d += s.size();
	timespec t1;
	clock_gettime(CLOCK_MONOTONIC, &t1);
	printf("{\"executions\":%ld,\"distinct\":%zu,\"blocks\":%ld,\"seconds\":%ld}\n", execs, d, bbs, (long)(t1.tv_sec - t0.tv_sec));
	return 0;
}
