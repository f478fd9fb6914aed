// efswh - executes scenarios (one step per line) against the real efsw library and records an
// ndjson trace of everything that is observable: file-system operations, interface calls with
// their results, callbacks, and the inodes the kernel watches when the watcher is idle.
//
// libc entry points are interposed so that the harness decides when the watcher thread runs, how
// many notifications one read() returns, where a file-system operation falls inside efsw's own
// processing (inj / cb steps), and which system calls fail (fault steps).
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/vfs.h>
#include <time.h>
#include <unistd.h>

#include <efsw/efsw.h>
#include <efsw/efsw.hpp>

// ------------------------------------------------------------------------------------------------
// real functions
#define REAL(ret, name, args) \
	typedef ret(*name##_t) args; \
	static name##_t real_##name() { static name##_t f = (name##_t)dlsym(RTLD_NEXT, #name); return f; }
REAL(int, select, (int, fd_set*, fd_set*, fd_set*, timeval*))
REAL(int, pselect, (int, fd_set*, fd_set*, fd_set*, const timespec*, const sigset_t*))
REAL(int, poll, (pollfd*, nfds_t, int))
REAL(int, ppoll, (pollfd*, nfds_t, const timespec*, const sigset_t*))
REAL(int, epoll_wait, (int, epoll_event*, int, int))
REAL(ssize_t, read, (int, void*, size_t))
REAL(int, close, (int))
REAL(int, inotify_init, ())
REAL(int, inotify_init1, (int))
REAL(int, inotify_add_watch, (int, const char*, uint32_t))
REAL(int, inotify_rm_watch, (int, int))
REAL(int, usleep, (useconds_t))
REAL(int, nanosleep, (const timespec*, timespec*))
REAL(int, clock_nanosleep, (clockid_t, int, const timespec*, timespec*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*))
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*))
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(DIR*, opendir, (const char*))
REAL(dirent*, readdir, (DIR*))
REAL(dirent64*, readdir64, (DIR*))
REAL(int, closedir, (DIR*))
REAL(int, stat, (const char*, struct stat*))
REAL(int, stat64, (const char*, struct stat64*))
REAL(int, lstat, (const char*, struct stat*))
REAL(int, lstat64, (const char*, struct stat64*))
REAL(int, statfs, (const char*, struct statfs*))
REAL(int, statfs64, (const char*, struct statfs64*))

// ------------------------------------------------------------------------------------------------
// trace output
static int g_traceFd = -1;
static std::atomic_flag g_traceLock = ATOMIC_FLAG_INIT;
static std::string g_root;   // scenario directory, no trailing slash
static std::string g_out;    // buffered trace

static void flushTrace() {
	size_t off = 0;
	while (off < g_out.size()) {
		ssize_t r = write(g_traceFd, g_out.data() + off, g_out.size() - off);
		if (r <= 0) _exit(90);
		off += r;
	}
	g_out.clear();
}

static void emit(const std::string& s) {
	while (g_traceLock.test_and_set(std::memory_order_acquire)) sched_yield();
	g_out += s;
	g_out += '\n';
	if (g_out.size() > 60000) flushTrace();
	g_traceLock.clear(std::memory_order_release);
}

static std::string enc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (isalnum(c) || c == '.' || c == '_' || c == '-' || c == '~' || c == '+')
			o += c;
		else {
			char b[8];
			snprintf(b, sizeof b, "%%%02X", c);
			o += b;
		}
	}
	return o;
}
static std::string dec(const std::string& s) {
	std::string o;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '%' && i + 2 < s.size()) {
			o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16);
			i += 2;
		} else
			o += s[i];
	}
	return o;
}
static std::vector<std::string> split(const std::string& s, char c) {
	std::vector<std::string> v;
	std::string cur;
	for (char x : s) {
		if (x == c) {
			if (!cur.empty()) v.push_back(cur);
			cur.clear();
		} else
			cur += x;
	}
	if (!cur.empty()) v.push_back(cur);
	return v;
}
static std::string compsJson(const std::vector<std::string>& v) {
	std::string o = "[";
	for (size_t i = 0; i < v.size(); i++) {
		if (i) o += ",";
		o += "\"" + enc(v[i]) + "\"";
	}
	return o + "]";
}
// absolute path -> components below the scenario root
static std::string relJson(const std::string& p, bool& slash, bool& under) {
	slash = !p.empty() && p.back() == '/';
	if (p.compare(0, g_root.size(), g_root) == 0 && (p.size() == g_root.size() || p[g_root.size()] == '/')) {
		under = true;
		std::string rest = p.substr(g_root.size());
		// a doubled slash is not a well-formed path: make it visible
		std::vector<std::string> v;
		std::string body = rest.empty() ? rest : rest.substr(1);
		if (slash && !body.empty()) body.erase(body.size() - 1);
		if (!body.empty()) {
			std::string cur;
			for (char c : body) {
				if (c == '/') {
					v.push_back(cur);
					cur.clear();
				} else
					cur += c;
			}
			v.push_back(cur);
		}
		return compsJson(v);
	}
	under = false;
	return "[\"" + enc(p) + "\"]";
}

// ------------------------------------------------------------------------------------------------
// inode numbering
static std::map<std::pair<dev_t, ino_t>, int> g_ino;
static int g_nextIno = 1;
static int inoOf(const std::string& path) {
	struct stat64 st;
	if (real_lstat64()(path.c_str(), &st) != 0) return -1;
	auto it = g_ino.find({st.st_dev, st.st_ino});
	return it == g_ino.end() ? -1 : it->second;
}
static int freshIno(const std::string& path) {
	struct stat64 st;
	if (real_lstat64()(path.c_str(), &st) != 0) return -1;
	return g_ino[{st.st_dev, st.st_ino}] = g_nextIno++;
}

// ------------------------------------------------------------------------------------------------
// watcher objects and gates
enum { AT_NONE, AT_START, AT_WAIT, AT_SLEEP, AT_END };
enum { CMD_RUN, CMD_PROCESS, CMD_TIMEOUT };
struct Slot { long id; int lis; bool missedFn; };
struct FW {
	int idx = 0;
	efsw::FileWatcher* cpp = nullptr;   // C++ object (or the C handle reinterpreted)
	efsw_watcher c = nullptr;
	bool isC = false;
	bool generic = false;
	std::atomic<int> fd{-1};
	std::atomic<bool> threadMade{false}, threadEnded{false}, freeRun{false};
	std::atomic<int> at{AT_NONE};
	int cmd = CMD_RUN;
	int batch = 0;                       // 0 = unlimited
	sem_t go, parked;
	std::deque<std::string> q;           // raw inotify events not yet handed out
	std::vector<Slot> slots;
	bool deleted = false;
	bool touched = false;
	std::vector<efsw::FileWatchListener*> capi;
};
static std::map<int, FW*> g_fw;
static thread_local FW* t_fw = nullptr;     // set in watcher threads
static thread_local FW* t_api = nullptr;    // set while this thread is inside an interface call
static thread_local int t_hook = 0;         // inside the harness: do not hook
struct HookOff { HookOff() { t_hook++; } ~HookOff() { t_hook--; } };
static bool active() { return !t_hook && (t_fw || t_api); }

struct Inj { int n; std::vector<std::string> op; };
static std::vector<Inj> g_inj, g_cbq;
struct Fault { std::string fn; int n; int err; int count; };
static std::vector<Fault> g_faults;
static void runStep(const std::vector<std::string>& a, bool nested);

static long g_hookCount = 0;
static void hookPoint() {
	if (!active()) return;
	g_hookCount++;
	HookOff off;
	std::vector<std::vector<std::string>> due;
	for (size_t i = 0; i < g_inj.size();) {
		if (--g_inj[i].n <= 0) {
			due.push_back(g_inj[i].op);
			g_inj.erase(g_inj.begin() + i);
		} else
			i++;
	}
	for (auto& d : due) runStep(d, true);
}
static int inoOf(const std::string& path);
static int faultFor(const char* fn, const char* path = "") {
	if (!active()) return 0;
	for (size_t i = 0; i < g_faults.size(); i++) {
		Fault& f = g_faults[i];
		if (f.fn != fn) continue;
		if (f.n > 1) {
			f.n--;
			continue;
		}
		int e = f.err;
		if (--f.count <= 0) g_faults.erase(g_faults.begin() + i);
		emit("{\"e\":\"faulted\",\"fn\":\"" + std::string(fn) + "\",\"err\":" + std::to_string(e) +
			 ",\"fw\":" + std::to_string(t_fw ? t_fw->idx : t_api ? t_api->idx : -1) +
			 ",\"th\":" + std::to_string(t_fw ? t_fw->idx : -1) + ",\"i\":" +
			 std::to_string(*path ? inoOf(std::string(path) + "/.") >= 0 ? inoOf(std::string(path) + "/.") : inoOf(path) : -1) + "}");
		return e;
	}
	return 0;
}

static FW* fwOfFd(int fd) {
	for (auto& k : g_fw)
		if (k.second->fd == fd && fd >= 0) return k.second;
	return nullptr;
}

static void park(FW* f, int at) {
	if (f->freeRun) return;
	f->at = at;
	sem_post(&f->parked);
	while (sem_wait(&f->go) != 0) {}
	f->at = AT_NONE;
}
// pull everything the kernel has into f->q
static size_t pull(FW* f) {
	static char buf[1 << 20];
	for (;;) {
		int n = 0;
		if (f->fd < 0 || ioctl(f->fd, FIONREAD, &n) != 0 || n <= 0) break;
		ssize_t len = real_read()(f->fd, buf, sizeof buf);
		if (len <= 0) break;
		for (ssize_t i = 0; i < len;) {
			inotify_event* ev = (inotify_event*)(buf + i);
			size_t sz = sizeof(inotify_event) + ev->len;
			f->q.emplace_back(buf + i, sz);
			i += sz;
		}
	}
	return f->q.size();
}

// the watcher thread waits for its inotify fd; returns >0 ready, 0 timeout, <0 error (errno set)
static int gateWait(FW* f) {
	HookOff off;
	if (f->freeRun) {
		return pull(f) ? 1 : 0;
	}
	park(f, AT_WAIT);
	if (f->freeRun) return pull(f) ? 1 : 0;
	if (f->cmd == CMD_TIMEOUT) return 0;
	return pull(f) ? 1 : 0;
}

extern "C" {
int select(int n, fd_set* r, fd_set* w, fd_set* x, timeval* tv) {
	if (t_fw && !t_hook) {
		FW* f = t_fw;
		int fd = f->fd;
		if (fd >= 0 && r && FD_ISSET(fd, r)) {
			if (f->freeRun) {
				if (f->q.empty()) {
					timeval z = {0, 1000};
					int rc = real_select()(n, r, w, x, &z);
					return rc;
				}
				FD_ZERO(r);
				FD_SET(fd, r);
				return 1;
			}
			if (int e = faultFor("select")) {
				errno = e;
				return -1;
			}
			int rc = gateWait(f);
			FD_ZERO(r);
			if (w) FD_ZERO(w);
			if (x) FD_ZERO(x);
			if (rc > 0) FD_SET(fd, r);
			return rc;
		}
		if (tv && n == 0 && !f->freeRun) {
			park(f, AT_SLEEP);
			return 0;
		}
	}
	return real_select()(n, r, w, x, tv);
}
int pselect(int n, fd_set* r, fd_set* w, fd_set* x, const timespec* ts, const sigset_t* s) {
	if (t_fw && !t_hook) {
		timeval tv = {0, 0};
		return select(n, r, w, x, ts ? &tv : nullptr);
	}
	return real_pselect()(n, r, w, x, ts, s);
}
static int pollCommon(pollfd* p, nfds_t n, FW* f) {
	if (f->freeRun) {
		if (f->q.empty()) return real_poll()(p, n, 1);
	} else {
		if (int e = faultFor("select")) {
			errno = e;
			return -1;
		}
	}
	int rc = gateWait(f);
	int cnt = 0;
	for (nfds_t i = 0; i < n; i++) {
		p[i].revents = 0;
		if (p[i].fd == f->fd && rc > 0) {
			p[i].revents = POLLIN;
			cnt++;
		}
	}
	return cnt;
}
int poll(pollfd* p, nfds_t n, int t) {
	if (t_fw && !t_hook) {
		for (nfds_t i = 0; i < n; i++)
			if (t_fw->fd >= 0 && p[i].fd == t_fw->fd) return pollCommon(p, n, t_fw);
		if (n == 0 && t > 0 && !t_fw->freeRun) {
			park(t_fw, AT_SLEEP);
			return 0;
		}
	}
	return real_poll()(p, n, t);
}
int ppoll(pollfd* p, nfds_t n, const timespec* ts, const sigset_t* s) {
	if (t_fw && !t_hook)
		for (nfds_t i = 0; i < n; i++)
			if (t_fw->fd >= 0 && p[i].fd == t_fw->fd) return pollCommon(p, n, t_fw);
	return real_ppoll()(p, n, ts, s);
}
int epoll_wait(int ep, epoll_event* ev, int maxev, int t) {
	if (t_fw && !t_hook && t_fw->fd >= 0) {
		FW* f = t_fw;
		// let the kernel fill in the user data when something is ready; gate first
		if (!f->freeRun) {
			park(f, AT_WAIT);
			if (!f->freeRun && f->cmd == CMD_TIMEOUT) return 0;
		}
		return real_epoll_wait()(ep, ev, maxev, f->freeRun ? 1 : 0);
	}
	return real_epoll_wait()(ep, ev, maxev, t);
}
ssize_t read(int fd, void* buf, size_t len) {
	FW* f = t_hook ? nullptr : fwOfFd(fd);
	if (!f) return real_read()(fd, buf, len);
	if (int e = faultFor("read")) {
		errno = e;
		return -1;
	}
	HookOff off;
	while (pull(f) == 0) {
		if (f->freeRun || t_fw != f) {
			errno = EAGAIN;
			return -1;
		}
		park(f, AT_WAIT);
	}
	size_t o = 0;
	int cnt = 0;
	while (!f->q.empty() && (f->batch == 0 || cnt < f->batch)) {
		std::string& e = f->q.front();
		if (o + e.size() > len) break;
		memcpy((char*)buf + o, e.data(), e.size());
		o += e.size();
		f->q.pop_front();
		cnt++;
	}
	if (cnt == 0) {
		errno = EINVAL;
		return -1;
	}
	return o;
}
int close(int fd) {
	FW* f = fwOfFd(fd);
	if (f && !t_hook) f->fd = -1;
	return real_close()(fd);
}
static int initCommon(int flags, bool one) {
	if (int e = faultFor("inotify_init")) {
		errno = e;
		return -1;
	}
	int fd = one ? real_inotify_init1()(flags) : real_inotify_init()();
	if (t_api && fd >= 0) t_api->fd = fd;
	return fd;
}
int inotify_init(void) { return initCommon(0, false); }
int inotify_init1(int flags) { return initCommon(flags, true); }
int inotify_add_watch(int fd, const char* p, uint32_t m) {
	hookPoint();
	if (int e = faultFor("inotify_add_watch", p)) {
		errno = e;
		return -1;
	}
	int rc = real_inotify_add_watch()(fd, p, m);
	int e = errno;
	hookPoint();
	errno = e;
	return rc;
}
int inotify_rm_watch(int fd, int wd) {
	hookPoint();
	if (int e = faultFor("inotify_rm_watch")) { // as if the directory had been deleted before
		real_inotify_rm_watch()(fd, wd);
		errno = e;
		return -1;
	}
	int rc = real_inotify_rm_watch()(fd, wd);
	int e = errno;
	hookPoint();
	errno = e;
	return rc;
}
int usleep(useconds_t u) {
	if (t_fw && !t_hook && !t_fw->freeRun) {
		park(t_fw, AT_SLEEP);
		return 0;
	}
	return real_usleep()(t_fw && t_fw->freeRun ? 100 : u);
}
int nanosleep(const timespec* a, timespec* b) {
	if (t_fw && !t_hook) {
		if (!t_fw->freeRun) park(t_fw, AT_SLEEP);
		return 0;
	}
	return real_nanosleep()(a, b);
}
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) {
	if (t_fw && !t_hook) {
		if (!t_fw->freeRun) park(t_fw, AT_SLEEP);
		return 0;
	}
	return real_clock_nanosleep()(c, fl, a, b);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
	if (t_fw && !t_hook) {
		if (!t_fw->freeRun) {
			pthread_mutex_unlock(m);
			park(t_fw, AT_SLEEP);
			pthread_mutex_lock(m);
		}
		return ETIMEDOUT;
	}
	return real_pthread_cond_timedwait()(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
	if (t_fw && !t_hook) return pthread_cond_timedwait(c, m, ts);
	return real_pthread_cond_clockwait()(c, m, k, ts);
}
struct Tramp { FW* f; void* (*fn)(void*); void* arg; };
static void* tramp(void* p) {
	Tramp t = *(Tramp*)p;
	delete (Tramp*)p;
	t_fw = t.f;
	{
		HookOff off;
		park(t.f, AT_START);
	}
	void* r = t.fn(t.arg);
	{
		HookOff off;
		t.f->threadEnded = true;
		t.f->at = AT_END;
		if (!t.f->freeRun) sem_post(&t.f->parked);
	}
	return r;
}
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
	if (t_api && !t_hook) {
		FW* f = t_api;
		if (f->threadMade) emit("{\"e\":\"thread2\",\"fw\":" + std::to_string(f->idx) + "}");
		f->threadMade = true;
		return real_pthread_create()(th, at, tramp, new Tramp{f, fn, arg});
	}
	return real_pthread_create()(th, at, fn, arg);
}
DIR* opendir(const char* p) {
	hookPoint();
	if (int e = faultFor("opendir", p)) {
		errno = e;
		return nullptr;
	}
	return real_opendir()(p);
}
dirent* readdir(DIR* d) {
	hookPoint();
	return real_readdir()(d);
}
dirent64* readdir64(DIR* d) {
	hookPoint();
	return real_readdir64()(d);
}
int closedir(DIR* d) {
	int r = real_closedir()(d);
	hookPoint();
	return r;
}
int stat(const char* p, struct stat* s) __THROW {
	hookPoint();
	if (int e = faultFor("stat", p)) { errno = e; return -1; }
	return real_stat()(p, s);
}
int stat64(const char* p, struct stat64* s) __THROW {
	hookPoint();
	if (int e = faultFor("stat", p)) { errno = e; return -1; }
	return real_stat64()(p, s);
}
int lstat(const char* p, struct stat* s) __THROW {
	hookPoint();
	return real_lstat()(p, s);
}
int lstat64(const char* p, struct stat64* s) __THROW {
	hookPoint();
	return real_lstat64()(p, s);
}
// "remote" directories: any path with a component starting with "remote" claims to be on NFS,
// "fuse*" a fuse mount
static bool hasComp(const char* p, const char* pre) {
	std::string s(p);
	if (s.compare(0, g_root.size(), g_root) == 0) s = s.substr(g_root.size());
	return s.find(std::string("/") + pre) != std::string::npos;
}
int statfs(const char* p, struct statfs* s) __THROW {
	hookPoint();
	if (int e = faultFor("statfs", p)) { errno = e; return -1; }
	int r = real_statfs()(p, s);
	if (r == 0 && active() && hasComp(p, "remote")) s->f_type = 0x6969;
	return r;
}
int statfs64(const char* p, struct statfs64* s) __THROW {
	hookPoint();
	if (int e = faultFor("statfs", p)) { errno = e; return -1; }
	int r = real_statfs64()(p, s);
	if (r == 0 && active() && hasComp(p, "remote")) s->f_type = 0x6969;
	return r;
}
} // extern "C"

// ------------------------------------------------------------------------------------------------
// listeners
static std::string num(long v) { return std::to_string(v); }
static FW* curFw() { return t_fw ? t_fw : t_api; }

static int g_cbDepth = 0;
static void onCallback() {
	HookOff off;
	std::vector<std::vector<std::string>> due;
	for (size_t i = 0; i < g_cbq.size();) {
		if (--g_cbq[i].n <= 0) {
			due.push_back(g_cbq[i].op);
			g_cbq.erase(g_cbq.begin() + i);
		} else
			i++;
	}
	for (auto& d : due) runStep(d, true);
}
static void logEvent(int lis, long w, const std::string& dir, const std::string& name, int action,
					 const std::string& old, int handleFw, int fnv) {
	if (name.compare(0, 2, "q!") == 0) return; // what flood does is not part of the history
	bool sl, un;
	std::string d = relJson(dir, sl, un);
	const char* a = action == 1 ? "A" : action == 2 ? "D" : action == 3 ? "M" : action == 4 ? "V" : "X";
	FW* f = curFw();
	std::string s = "{\"e\":\"ev\",\"fw\":" + num(f ? f->idx : -1) + ",\"w\":" + num(w) + ",\"l\":" + num(lis) +
					",\"d\":" + d + ",\"n\":\"" + enc(name) + "\",\"o\":\"" + enc(old) + "\",\"a\":\"" + a +
					"\",\"ok\":" + num((sl && un) ? 1 : 0) + ",\"th\":" + num(t_fw ? 1 : 0) + ",\"h\":" +
					num(handleFw) + ",\"fn\":" + num(fnv) + "}";
	emit(s);
	onCallback();
}
static void logMissed(int lis, long w, const std::string& dir, int handleFw, int fnv) {
	bool sl, un;
	std::string d = relJson(dir, sl, un);
	FW* f = curFw();
	emit("{\"e\":\"missed\",\"fw\":" + num(f ? f->idx : -1) + ",\"w\":" + num(w) + ",\"l\":" + num(lis) + ",\"d\":" + d +
		 ",\"ok\":" + num((sl && un) ? 1 : 0) + ",\"th\":" + num(t_fw ? 1 : 0) + ",\"h\":" + num(handleFw) +
		 ",\"fn\":" + num(fnv) + "}");
	onCallback();
}
struct Lis : efsw::FileWatchListener {
	int idx;
	explicit Lis(int i) : idx(i) {}
	void handleFileAction(efsw::WatchID w, const std::string& dir, const std::string& name, efsw::Action a,
						  const std::string& old) override {
		logEvent(idx, w, dir, name, (int)a, old, -1, -1);
	}
	void handleMissedFileActions(efsw::WatchID w, const std::string& dir) override { logMissed(idx, w, dir, -1, -1); }
};
static std::map<int, Lis*> g_lis;
static Lis* lis(int i) {
	auto& p = g_lis[i];
	if (!p) p = new Lis(i);
	return p;
}
static int fwOfHandle(efsw_watcher h) {
	int r = -2;
	for (auto& k : g_fw)
		if (k.second->isC && k.second->c == h && !k.second->deleted) r = k.first;
	return r;
}
template <int N>
static void cfn(efsw_watcher h, efsw_watchid w, const char* dir, const char* name, enum efsw_action a, const char* old,
				void* param) {
	logEvent((int)(long)param, w, dir, name, (int)a, old ? old : "", fwOfHandle(h), N);
}
template <int N> static void cmissed(efsw_watcher h, efsw_watchid w, const char* dir) {
	logMissed(-1, w, dir, fwOfHandle(h), N);
}
static efsw_pfn_fileaction_callback g_cfn[3] = {cfn<0>, cfn<1>, cfn<2>};
static efsw_pfn_handle_missed_fileactions g_cmiss[4] = {nullptr, cmissed<1>, cmissed<2>, cmissed<3>};

// ------------------------------------------------------------------------------------------------
// controller
static void bail(const std::string& m) {
	fprintf(stderr, "efswh: %s\n", m.c_str());
	flushTrace();
	_exit(91);
}
static void ctlStep(FW* f, int cmd, int batch) {
	if (f->at == AT_END || f->at == AT_NONE) return;
	f->cmd = cmd;
	f->batch = batch;
	sem_post(&f->go);
	while (sem_wait(&f->parked) != 0) {}
}
static void fdWatched(FW* f, std::set<int>& known, int& unknown) {
	unknown = 0;
	if (f->fd < 0) return;
	char p[64];
	snprintf(p, sizeof p, "/proc/self/fdinfo/%d", (int)f->fd);
	FILE* fp = fopen(p, "r");
	if (!fp) return;
	char line[512];
	while (fgets(line, sizeof line, fp)) {
		unsigned wd;
		unsigned long ino, sdev;
		if (sscanf(line, "inotify wd:%x ino:%lx sdev:%lx", &wd, &ino, &sdev) == 3) {
			bool found = false;
			for (auto& k : g_ino)
				if (k.first.second == (ino_t)ino) {
					known.insert(k.second);
					found = true;
				}
			if (!found) unknown++;
		}
	}
	fclose(fp);
}
static void settle(FW* f, bool log = true) {
	if (f->deleted) return;
	int rounds = 0, polls = 0;
	if (f->threadMade && f->at == AT_START) {
		ctlStep(f, CMD_RUN, 0);
		if (f->at == AT_SLEEP) polls = 1;
	}
	if (f->at == AT_WAIT) {
		for (;;) {
			while (pull(f) > 0) {
				ctlStep(f, CMD_PROCESS, f->batch);
				if (f->at != AT_WAIT) break;
				if (++rounds > 200000) bail("settle does not converge");
			}
			int t = 0;
			for (; t < 3 && f->at == AT_WAIT; t++) {
				ctlStep(f, CMD_TIMEOUT, f->batch);
				if (pull(f) > 0) break;
			}
			if (f->at != AT_WAIT || pull(f) == 0) break;
		}
	} else if (f->at == AT_SLEEP && !polls) {
		ctlStep(f, CMD_RUN, 0);
		polls = 1;
	}
	if (!log) return;
	std::set<int> known;
	int unknown;
	fdWatched(f, known, unknown);
	std::string s = "{\"e\":\"settled\",\"fw\":" + num(f->idx) + ",\"run\":" + num(f->threadMade ? 1 : 0) +
					",\"dead\":" + num(f->at == AT_END ? 1 : 0) + ",\"unk\":" + num(unknown) + ",\"ino\":[";
	bool first = true;
	for (int i : known) {
		if (!first) s += ",";
		first = false;
		s += num(i);
	}
	emit(s + "]}");
}

static std::string absP(const std::string& rel) {
	std::string r = g_root;
	for (auto& c : split(rel, '/')) r += "/" + dec(c);
	return r;
}
static void dirName(const std::string& rel, std::vector<std::string>& d, std::string& n) {
	auto v = split(rel, '/');
	n = v.empty() ? "" : dec(v.back());
	if (!v.empty()) v.pop_back();
	d.clear();
	for (auto& c : v) d.push_back(dec(c));
}
static void opLog(const char* op, const std::string& rel, int ino, const std::string& extra = "") {
	std::vector<std::string> d;
	std::string n;
	dirName(rel, d, n);
	emit("{\"e\":\"op\",\"op\":\"" + std::string(op) + "\",\"d\":" + compsJson(d) + ",\"n\":\"" + enc(n) + "\",\"i\":" +
		 num(ino) + ",\"th\":" + std::to_string(t_fw ? t_fw->idx : -1) + extra + "}");
}
static std::string statExtra(const std::string& p) {
	struct stat64 st;
	if (real_stat64()(p.c_str(), &st) != 0) return ",\"at\":\"\",\"md\":0";
	return ",\"at\":\"" + num(st.st_size) + "_" + num(st.st_mtime) + "_" + num(st.st_mode) + "_" + num(st.st_uid) + "_" +
		   num(st.st_gid) + "\",\"md\":" + num(st.st_mode & 07777);
}
static void rmTree(const std::string& rel, bool log) {
	std::string p = absP(rel);
	struct stat64 st;
	if (real_lstat64()(p.c_str(), &st) != 0) return;
	if (S_ISDIR(st.st_mode)) {
		std::vector<std::string> names;
		DIR* d = real_opendir()(p.c_str());
		if (d) {
			while (dirent* e = real_readdir()(d)) {
				std::string n = e->d_name;
				if (n != "." && n != "..") names.push_back(n);
			}
			real_closedir()(d);
		}
		std::sort(names.begin(), names.end());
		for (auto& n : names) rmTree(rel + "/" + enc(n), log);
		int i = inoOf(p);
		if (rmdir(p.c_str()) == 0 && log) opLog("rmdir", rel, i);
	} else {
		int i = inoOf(p);
		if (unlink(p.c_str()) == 0 && log) opLog("rm", rel, i);
	}
}
static void listDirs(const std::string& rel, std::vector<std::string>& out) {
	std::string p = absP(rel);
	std::vector<std::string> names;
	DIR* d = real_opendir()(p.c_str());
	if (!d) return;
	while (dirent* e = real_readdir()(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		struct stat64 st;
		if (real_lstat64()((p + "/" + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) names.push_back(n);
	}
	real_closedir()(d);
	std::sort(names.begin(), names.end());
	for (auto& n : names) {
		std::string r = rel.empty() ? enc(n) : rel + "/" + enc(n);
		out.push_back(r);
		listDirs(r, out);
	}
}
static void treeJson(const std::string& rel, std::string& out) {
	std::string p = absP(rel);
	DIR* d = real_opendir()(p.c_str());
	if (!d) return;
	std::vector<std::string> names;
	while (dirent* e = real_readdir()(d)) {
		std::string n = e->d_name;
		if (n != "." && n != "..") names.push_back(n);
	}
	real_closedir()(d);
	for (auto& n : names) {
		std::string r = rel.empty() ? enc(n) : rel + "/" + enc(n);
		std::vector<std::string> dd;
		std::string nn;
		dirName(r, dd, nn);
		if (!out.empty()) out += ",";
		out += "{\"d\":" + compsJson(dd) + ",\"n\":\"" + enc(nn) + "\",\"i\":" + num(inoOf(absP(r))) + "}";
		struct stat64 st;
		if (real_lstat64()(absP(r).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) treeJson(r, out);
	}
}
static int g_probe = 0;

static FW* need(const std::string& k) {
	auto it = g_fw.find(atoi(k.c_str()));
	if (it == g_fw.end() || it->second->deleted) return nullptr;
	return it->second;
}

static void apiCall(const std::string& line) { emit("{\"e\":\"call\"," + line + "}"); }

static void doOp(const std::vector<std::string>& a, bool& handled) {
	handled = true;
	const std::string& op = a[0];
	if (op == "mk" || op == "mkr") {
		std::string p = absP(a[1]);
		if (op == "mk") {
			int fd = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644);
			if (fd < 0) return;
			real_close()(fd);
		} else if (mknod(p.c_str(), S_IFREG | 0644, 0) != 0)
			return;
		int i = freshIno(p);
		opLog(op.c_str(), a[1], i, statExtra(p));
	} else if (op == "fifo") {
		std::string p = absP(a[1]);
		if (mkfifo(p.c_str(), 0644) != 0) return;
		{ int i = freshIno(p); opLog("fifo", a[1], i); }
	} else if (op == "mkdir") {
		std::string p = absP(a[1]);
		if (mkdir(p.c_str(), 0755) != 0) return;
		opLog("mkdir", a[1], freshIno(p), statExtra(p));
	} else if (op == "wr") {   // append one byte
		std::string p = absP(a[1]);
		struct stat64 st;
		if (real_lstat64()(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return;
		int fd = open(p.c_str(), O_WRONLY | O_APPEND);
		if (fd < 0) return;
		int cnt = a.size() > 2 ? atoi(a[2].c_str()) : 1;
		std::string data(cnt, 'x');
		if (write(fd, data.data(), data.size()) < 0) {}
		real_close()(fd);
		opLog("wr", a[1], inoOf(p), statExtra(p));
	} else if (op == "trunc") {   // size change without open/close for writing
		std::string p = absP(a[1]);
		struct stat64 st;
		if (real_lstat64()(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return;
		if (truncate64(p.c_str(), atoll(a[2].c_str())) != 0) return;
		opLog("trunc", a[1], inoOf(p), statExtra(p));
	} else if (op == "touchw") {   // open for writing and close, no change
		std::string p = absP(a[1]);
		struct stat64 st;
		if (real_lstat64()(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return;
		int fd = open(p.c_str(), O_WRONLY);
		if (fd < 0) return;
		real_close()(fd);
		opLog("touchw", a[1], inoOf(p), statExtra(p));
	} else if (op == "chmod") {
		std::string p = absP(a[1]);
		if (chmod(p.c_str(), strtol(a[2].c_str(), 0, 8)) != 0) return;
		opLog("attr", a[1], inoOf(p), statExtra(p));
	} else if (op == "chown") {
		std::string p = absP(a[1]);
		if (chown(p.c_str(), atoi(a[2].c_str()), a.size() > 3 ? atoi(a[3].c_str()) : -1) != 0) return;
		opLog("attr", a[1], inoOf(p), statExtra(p));
	} else if (op == "utime") {   // absolute seconds
		std::string p = absP(a[1]);
		timespec ts[2];
		ts[0].tv_sec = ts[1].tv_sec = atoll(a[2].c_str());
		ts[0].tv_nsec = ts[1].tv_nsec = a.size() > 3 ? atol(a[3].c_str()) : 0;
		if (utimensat(AT_FDCWD, p.c_str(), ts, 0) != 0) return;
		opLog("attr", a[1], inoOf(p), statExtra(p));
	} else if (op == "rm") {
		std::string p = absP(a[1]);
		int i = inoOf(p);
		struct stat64 st;
		if (real_lstat64()(p.c_str(), &st) != 0) return;
		if (S_ISDIR(st.st_mode) ? rmdir(p.c_str()) : unlink(p.c_str())) return;
		opLog(S_ISDIR(st.st_mode) ? "rmdir" : "rm", a[1], i);
	} else if (op == "rmdir") {
		std::string p = absP(a[1]);
		int i = inoOf(p);
		if (rmdir(p.c_str()) != 0) return;
		opLog("rmdir", a[1], i);
	} else if (op == "rmtree") {
		rmTree(a[1], true);
	} else if (op == "mv") {
		std::string p = absP(a[1]), q = absP(a[2]);
		int i = inoOf(p), oi = inoOf(q);
		if (i == oi) return;   // same object: rename is a no-op
		if (rename(p.c_str(), q.c_str()) != 0) return;
		std::vector<std::string> d;
		std::string n;
		dirName(a[2], d, n);
		opLog("mv", a[1], i, ",\"d2\":" + compsJson(d) + ",\"n2\":\"" + enc(n) + "\",\"oi\":" + num(oi < 0 ? 0 : oi));
	} else if (op == "ln") {
		std::string p = absP(a[1]), q = absP(a[2]);
		struct stat64 st;
		if (real_lstat64()(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return;
		if (link(p.c_str(), q.c_str()) != 0) return;
		opLog("ln", a[2], inoOf(q), statExtra(q));
	} else if (op == "sym") {   // sym TARGET(relative to scenario root, or =literal) LINK
		std::string t = a[1].compare(0, 1, "=") == 0 ? dec(a[1].substr(1)) : absP(a[1]);
		std::string q = absP(a[2]);
		if (symlink(t.c_str(), q.c_str()) != 0) return;
		std::vector<std::string> tv;
		if (a[1][0] != '=')
			for (auto& c : split(a[1], '/')) tv.push_back(dec(c));
		opLog("sym", a[2], freshIno(q), ",\"t\":" + compsJson(tv));
	} else if (op == "flood") {	  // flood DIR count: fills the kernel's queue, and leaves nothing behind
		int n = atoi(a[2].c_str());
		std::string d = absP(a[1]) + "/q!";
		for (int i = 0; i < n; i++) {
			std::string x = d + num(i);
			int fd = creat(x.c_str(), 0600);
			if (fd < 0) return;
			close(fd);
			unlink(x.c_str());
		}
	} else if (op == "burst") {   // burst OP DIR/prefix count
		int n = atoi(a[3].c_str());
		for (int i = 0; i < n; i++) {
			bool h;
			doOp({a[1], a[2] + num(i)}, h);
		}
	} else if (op == "probe") {
		std::vector<std::string> v;
		listDirs("", v);
		for (auto& d : v) {
			bool h;
			doOp({"mkr", d + "/zp" + num(g_probe++)}, h);
		}
	} else if (op == "tree") {
		std::string o;
		treeJson("", o);
		emit("{\"e\":\"tree\",\"t\":[" + o + "]}");
	} else
		handled = false;
}

static void runStep(const std::vector<std::string>& a, bool nested) {
	HookOff off;
	bool handled;
	doOp(a, handled);
	if (handled) return;
	const std::string& op = a[0];
	struct ApiScope {
		FW* old;
		int oldHook;
		ApiScope(FW* f) : old(t_api), oldHook(t_hook) {
			t_api = f;
			t_hook = 0;
			f->touched = true;
		}
		~ApiScope() {
			t_api = old;
			t_hook = oldHook;
		}
	};
	if (op == "new") {   // new k native|generic|capi|capigen
		int k = atoi(a[1].c_str());
		FW* f = new FW;
		f->idx = k;
		sem_init(&f->go, 0, 0);
		sem_init(&f->parked, 0, 0);
		const std::string& kind = a[2];
		f->isC = kind.compare(0, 4, "capi") == 0;
		f->generic = kind == "generic" || kind == "capigen";
		g_fw[k] = f;
		{
			ApiScope s(f);
			if (f->isC) {
				f->c = efsw_create(f->generic ? 1 : 0);
				f->cpp = (efsw::FileWatcher*)f->c;
			} else
				f->cpp = new efsw::FileWatcher(f->generic);
		}
		emit("{\"e\":\"new\",\"fw\":" + num(k) + ",\"kind\":\"" + kind + "\",\"native\":" + num(f->fd >= 0 ? 1 : 0) + "}");
		return;
	}
	if (op == "inj") {
		g_inj.push_back({atoi(a[1].c_str()), std::vector<std::string>(a.begin() + 2, a.end())});
		return;
	}
	if (op == "cb") {
		g_cbq.push_back({atoi(a[1].c_str()), std::vector<std::string>(a.begin() + 2, a.end())});
		return;
	}
	if (op == "fault") {   // fault fn n errno count
		g_faults.push_back({a[1], atoi(a[2].c_str()), atoi(a[3].c_str()), a.size() > 4 ? atoi(a[4].c_str()) : 1});
		return;
	}
	if (op == "clear") {   // drop pending injections and faults
		g_inj.clear();
		g_cbq.clear();
		g_faults.clear();
		return;
	}
	if (op == "err") {
		std::string log = efsw::Errors::Log::getLastErrorLog();
		std::string clog = efsw_getlasterror();
		int code = (int)efsw::Errors::Log::getLastErrorCode();
		// which scenario-relative path does the text name?
		std::string named;
		bool names = false;
		size_t at = log.find(g_root + "/");
		std::string body = log;
		std::string rel = "[]";
		if (at != std::string::npos) {
			size_t e = log.find(" )", at);
			std::string p = e == std::string::npos ? log.substr(at) : log.substr(at, e - at);
			bool sl, un;
			rel = relJson(p, sl, un);
			names = true;
			body = log.substr(0, at) + "<P>" + (e == std::string::npos ? "" : log.substr(e));
		}
		emit("{\"e\":\"err\",\"code\":" + num(code) + ",\"text\":\"" + enc(body) + "\",\"names\":" + num(names) + ",\"p\":" + rel +
			 ",\"same\":" + num(log == clog) + "}");
		return;
	}
	if (op == "clrerr") {
		if (a.size() > 1 && a[1] == "c")
			efsw_clearlasterror();
		else
			efsw::Errors::Log::clearLastError();
		emit("{\"e\":\"clrerr\"}");
		return;
	}
	if (op == "settleall") {
		for (auto& k : g_fw) settle(k.second);
		return;
	}
	if (a.size() < 2) bail("bad step " + op);
	FW* f = need(a[1]);
	if (!f) return;
	std::string F = "\"fw\":" + num(f->idx);
	if (op == "add") {   // add k L path rec syn [fnv missed]
		int L = atoi(a[2].c_str());
		bool trail = a[3].back() == '/';
		std::string p = absP(a[3]);
		if (trail) p += "/";
		bool rec = a[4] == "1", syn = a[5] == "1";
		int fnv = a.size() > 6 ? atoi(a[6].c_str()) : 0, miss = a.size() > 7 ? atoi(a[7].c_str()) : 1;
		std::vector<std::string> comps;
		for (auto& c : split(a[3], '/')) comps.push_back(dec(c));
		std::string common = F + ",\"f\":\"add\",\"l\":" + num(L) + ",\"p\":" + compsJson(comps) + ",\"rec\":" + num(rec) +
							 ",\"syn\":" + num(syn) + ",\"fn\":" + num(f->isC ? fnv : -1) + ",\"ms\":" + num(f->isC ? miss : -1);
		apiCall(common);
		long id;
		std::string sref = num(f->slots.size());
		{
			ApiScope s(f);
			if (f->isC) {
				if (!syn && miss == 0)
					id = efsw_addwatch(f->c, p.c_str(), g_cfn[fnv], rec, (void*)(long)L);
				else {
					efsw_watcher_option o[2] = {{EFSW_LINUX_PRODUCE_SYNTHETIC_EVENTS, syn ? 1 : 0},
												{EFSW_OPT_WIN_BUFFER_SIZE, 4096}};
					id = efsw_addwatch_withoptions(f->c, p.c_str(), g_cfn[fnv], rec, o, 2, (void*)(long)L, g_cmiss[miss]);
				}
			} else if (syn) {
				id = f->cpp->addWatch(p, lis(L), rec,
									  {{efsw::Options::WinBufferSize, 4096},
									   {efsw::Options::LinuxProduceSyntheticEvents, 1}});
			} else if (rec) {
				id = f->cpp->addWatch(p, lis(L), true);
			} else
				id = f->cpp->addWatch(p, lis(L));
		}
		f->slots.push_back({id, L, miss != 0});
		emit("{\"e\":\"ret\"," + common + ",\"s\":" + sref + ",\"r\":" + num(id) + "}");
		return;
	}
	if (op == "rmid" || op == "rmraw") {
		long id;
		if (op == "rmid") {
			size_t s = atoi(a[2].c_str());
			if (s >= f->slots.size()) return;
			id = f->slots[s].id;
		} else
			id = atol(a[2].c_str());
		std::string common = F + ",\"f\":\"rmid\",\"id\":" + num(id);
		apiCall(common);
		{
			ApiScope s(f);
			if (f->isC)
				efsw_removewatch_byid(f->c, id);
			else
				f->cpp->removeWatch(id);
		}
		std::set<int> known;
		int unk;
		fdWatched(f, known, unk);
		std::string s = ",\"unk\":" + num(unk) + ",\"ino\":[";
		bool first = true;
		for (int i : known) {
			if (!first) s += ",";
			first = false;
			s += num(i);
		}
		emit("{\"e\":\"ret\"," + common + s + "]}");
		return;
	}
	if (op == "rmpath") {
		bool trail = a[2].back() == '/';
		std::string p = absP(a[2]);
		if (trail) p += "/";
		std::vector<std::string> comps;
		for (auto& c : split(a[2], '/')) comps.push_back(dec(c));
		std::string common = F + ",\"f\":\"rmpath\",\"p\":" + compsJson(comps);
		apiCall(common);
		{
			ApiScope s(f);
			if (f->isC)
				efsw_removewatch(f->c, p.c_str());
			else
				f->cpp->removeWatch(p);
		}
		std::set<int> known;
		int unk;
		fdWatched(f, known, unk);
		std::string s = ",\"unk\":" + num(unk) + ",\"ino\":[";
		bool first = true;
		for (int i : known) {
			if (!first) s += ",";
			first = false;
			s += num(i);
		}
		emit("{\"e\":\"ret\"," + common + s + "]}");
		return;
	}
	if (op == "dirs") {
		std::vector<std::string> v;
		{
			ApiScope s(f);
			v = f->cpp->directories();
		}
		std::string s = "{\"e\":\"dirs\"," + F + ",\"ds\":[";
		bool allok = true;
		for (size_t i = 0; i < v.size(); i++) {
			bool sl, un;
			if (i) s += ",";
			s += relJson(v[i], sl, un);
			if (!sl || !un) allok = false;
		}
		emit(s + "],\"ok\":" + num(allok) + "}");
		return;
	}
	if (op == "watch") {
		apiCall(F + ",\"f\":\"watch\"");
		bool first = !f->threadMade;
		{
			ApiScope s(f);
			if (f->isC)
				efsw_watch(f->c);
			else
				f->cpp->watch();
		}
		if (first && f->threadMade) while (sem_wait(&f->parked) != 0) {}
		emit("{\"e\":\"ret\"," + F + ",\"f\":\"watch\"}");
		return;
	}
	if (op == "follow" || op == "oos") {
		bool v = a[2] == "1";
		bool r1, r2;
		{
			ApiScope s(f);
			if (f->isC) {
				if (op == "follow") efsw_follow_symlinks(f->c, v ? 7 : 0); else efsw_allow_outofscopelinks(f->c, v ? 2 : 0);
				r1 = efsw_follow_symlinks_isenabled(f->c);
				r2 = efsw_outofscopelinks_isallowed(f->c);
			} else {
				if (op == "follow") f->cpp->followSymlinks(v); else f->cpp->allowOutOfScopeLinks(v);
				r1 = f->cpp->followSymlinks();
				r2 = f->cpp->allowOutOfScopeLinks();
			}
		}
		emit("{\"e\":\"set\"," + F + ",\"f\":\"" + op + "\",\"v\":" + num(v) + ",\"fl\":" + num(r1) + ",\"oo\":" + num(r2) + "}");
		return;
	}
	if (op == "settle") {
		if (a.size() > 2) f->batch = atoi(a[2].c_str());
		settle(f);
		return;
	}
	if (op == "batch") {
		f->batch = atoi(a[2].c_str());
		return;
	}
	if (op == "step") {   // one read of n events (0 = all)
		if (f->at == AT_START) ctlStep(f, CMD_RUN, 0);
		if (f->at == AT_WAIT && pull(f) > 0) ctlStep(f, CMD_PROCESS, atoi(a[2].c_str()));
		return;
	}
	if (op == "tmo") {
		if (f->at == AT_START) ctlStep(f, CMD_RUN, 0);
		if (f->at == AT_WAIT) ctlStep(f, CMD_TIMEOUT, 0);
		return;
	}
	if (op == "overflow") {   // keep n pending notifications, lose the rest, announce it
		HookOff o2;
		if (f->fd < 0) return;
		pull(f);
		size_t keep = atoi(a[2].c_str());
		if (f->q.size() > keep) f->q.resize(keep);
		inotify_event ev;
		memset(&ev, 0, sizeof ev);
		ev.wd = -1;
		ev.mask = IN_Q_OVERFLOW;
		f->q.emplace_back((char*)&ev, sizeof ev);
		emit("{\"e\":\"overflow\"," + F + "}");
		return;
	}
	if (op == "ovfcheck") {   // real overflow: has the kernel queued one?
		pull(f);
		bool any = false;
		for (auto& e : f->q)
			if (((inotify_event*)e.data())->mask & IN_Q_OVERFLOW) any = true;
		if (any) emit("{\"e\":\"overflow\"," + F + "}");
		return;
	}
	if (op == "del") {
		apiCall(F + ",\"f\":\"del\"");
		int fd = f->fd;
		f->freeRun = true;
		sem_post(&f->go);
		{
			ApiScope s(f);
			if (f->isC)
				efsw_release(f->c);
			else
				delete f->cpp;
		}
		f->deleted = true;
		bool open = false;
		if (fd >= 0) {
			char lp[64], b[128];
			snprintf(lp, sizeof lp, "/proc/self/fd/%d", fd);
			ssize_t n = readlink(lp, b, sizeof b);
			open = f->fd >= 0 && n > 0;
		}
		emit("{\"e\":\"ret\"," + F + ",\"f\":\"del\",\"thr\":" + num(f->threadMade && !f->threadEnded ? 1 : 0) + ",\"open\":" + num(open) + "}");
		return;
	}
	bail("unknown step " + op);
}

static const char* g_curScenario = "";
static void onAlarm(int) {
	const char m[] = "HANG\n";
	if (::write(2, m, sizeof m - 1)) {}
	// keep what was recorded: the trace is appended by the driver
	std::string s = "{\"e\":\"hang\"}\n";
	if (::write(g_traceFd, g_out.data(), g_out.size()) < 0) {}
	if (::write(g_traceFd, s.data(), s.size())) {}
	_exit(77);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:handle_abort=1"; }
static void onDeath() {
	std::string s = "{\"e\":\"crash\"}\n";
	if (::write(g_traceFd, g_out.data(), g_out.size()) < 0) {}
	if (::write(g_traceFd, s.data(), s.size())) {}
	g_out.clear();
}
#endif
static void onSig(int) {
	std::string s = "{\"e\":\"crash\"}\n";
	if (::write(g_traceFd, g_out.data(), g_out.size()) < 0) {}
	if (::write(g_traceFd, s.data(), s.size())) {}
	_exit(78);
}

int main(int argc, char** argv) {
	if (argc < 4) {
		fprintf(stderr, "usage: efswh SCENARIOS TRACE SCRATCH [timeout]\n");
		return 2;
	}
	int tmo = argc > 4 ? atoi(argv[4]) : 60;
	FILE* in = fopen(argv[1], "r");
	if (!in) return 2;
	g_traceFd = open(argv[2], O_CREAT | O_WRONLY | O_APPEND, 0644);
	if (g_traceFd < 0) return 2;
	std::string scratch = argv[3];
	signal(SIGALRM, onAlarm);
	signal(SIGABRT, onSig);
#if defined(__SANITIZE_ADDRESS__)
	__asan_set_death_callback(onDeath);
#else
	signal(SIGSEGV, onSig);
	signal(SIGBUS, onSig);
#endif
	umask(022);
	char* line = nullptr;
	size_t cap = 0;
	ssize_t n;
	int num_sc = 0;
	bool inScn = false;
	auto finish = [&]() {
		if (!inScn) return;
		g_inj.clear();
		g_cbq.clear();
		g_faults.clear();
		for (auto& k : g_fw) {
			if (!k.second->deleted) runStep({"del", std::to_string(k.first)}, false);
		}
		emit("{\"e\":\"end\"}");
		flushTrace();
		rmTree("", false);
		rmdir(g_root.c_str());
		for (auto& k : g_fw) delete k.second;
		g_fw.clear();
		for (auto& k : g_lis) delete k.second;
		g_lis.clear();
		alarm(0);
		inScn = false;
	};
	// scenario file: "@name" starts a scenario
	while ((n = getline(&line, &cap, in)) > 0) {
		while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == ' ')) line[--n] = 0;
		if (n == 0 || line[0] == '#') continue;
		if (line[0] == '@') {
			finish();
			g_root = scratch + "/s" + std::to_string(num_sc++);
			rmTree("", false);
			rmdir(g_root.c_str());
			if (mkdir(g_root.c_str(), 0755) != 0) bail("cannot make scratch " + g_root);
			g_ino.clear();
			g_nextIno = 1;
			struct stat64 st;
			real_lstat64()(g_root.c_str(), &st);
			g_ino[{st.st_dev, st.st_ino}] = 0;
			g_probe = 0;
			g_hookCount = 0;
			efsw::Errors::Log::clearLastError();
			emit("{\"e\":\"reset\",\"sc\":\"" + enc(line + 1) + "\"}");
			inScn = true;
			alarm(tmo);
			continue;
		}
		runStep(split(line, ' '), false);
	}
	finish();
	_exit(0);
}
