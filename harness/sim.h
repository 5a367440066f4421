// A simulated world for code built on boost::asio (epoll): system calls are interposed in the executable.
//  - virtual time (sim::virt): every clock runs on sim::now_ns, which only advances when the process would block;
//    a case with seconds of timers takes milliseconds, and with one service thread it is deterministic;
//  - faults on sockets (sim::faults): short reads and writes, spurious EAGAIN, errors injected into a given transfer;
//  - the buffers handed to the kernel are checked against AddressSanitizer's shadow;
//  - perturbation (sim::jitter): random yields and short sleeps around system calls, for the runs with real threads.
#ifndef SIM_H_
#define SIM_H_
#include "pbt.h"
#include <atomic>
#include <mutex>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <sched.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__has_feature)
extern "C" void* __asan_region_is_poisoned(void* beg, size_t size) __attribute__((weak));
#else
extern "C" void* __asan_region_is_poisoned(void* beg, size_t size) __attribute__((weak));
#endif

namespace sim {

inline std::atomic<bool> virt(false);
inline std::atomic<int64_t> now_ns(1700000000LL * 1000000000LL);
inline std::atomic<uint64_t> epoll_rounds(0); //without the clock having moved
inline bool blocked_for_ever = false;
inline unsigned jitter = 0; //0: none, otherwise one in so many calls yields or sleeps
inline __thread uint64_t jitter_state = 0;
inline uint64_t jitter_seed = 1;

inline int64_t now_ms() {return now_ns / 1000000;}

struct Injection {int fd; bool send; unsigned countdown; int err;};
struct Faults
{
	bool on;
	uint64_t rng;
	unsigned short_r, short_w, again_r, again_w; //out of 256
	size_t max_chunk;
	uint64_t n_short, n_again, n_err;
	std::vector<Injection> inject;
	std::mutex m;
};
inline Faults faults;
struct Reg {int epfd; struct epoll_event ev;};
inline std::map<int, Reg> regs;
inline std::vector<int> rearm;
inline std::mutex reg_mutex;

inline uint64_t rnd() {return pbt::splitmix(faults.rng);}

//a plan drawn from the case: 0 means no faults
inline void set_faults(uint64_t plan)
{
	std::lock_guard<std::mutex> l(faults.m);
	faults.on = plan != 0; faults.rng = plan; faults.n_short = faults.n_again = faults.n_err = 0; faults.inject.clear();
	if (!plan) return;
	static const unsigned ps[] = {0, 10, 60, 128, 220}; static const size_t cs[] = {1, 2, 7, 64, 1000, 100000};
	faults.short_r = ps[rnd() % 5]; faults.short_w = ps[rnd() % 5]; faults.again_r = ps[rnd() % 4] / 2; faults.again_w = ps[rnd() % 4] / 2;
	faults.max_chunk = cs[rnd() % 6];
}
inline void reset()
{
	std::lock_guard<std::mutex> l(reg_mutex);
	rearm.clear(); epoll_rounds = 0; blocked_for_ever = false;
	set_faults(0);
}
inline void inject(int fd, bool send, unsigned countdown, int err) {std::lock_guard<std::mutex> l(faults.m); Injection i = {fd, send, countdown, err}; faults.inject.push_back(i); faults.on = true;}

inline void maybe_jitter()
{
	if (!jitter) return;
	if (!jitter_state) jitter_state = jitter_seed * 0x9e3779b97f4a7c15ULL + (uint64_t) syscall(SYS_gettid) * 7919;
	uint64_t r = pbt::splitmix(jitter_state);
	if (r % jitter) return;
	r >>= 32;
	if (r % 4) sched_yield();
	else {struct timespec ts = {0, (long) (r % 200) * 1000}; syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, &ts, NULL);}
}

//a scheduling point at the entry and exit of every function of the library (-finstrument-functions)
inline unsigned points = 0; //one in so many of them yields or sleeps
inline void point() __attribute__((no_instrument_function));
inline void point()
{
	if (!points) return;
	if (!jitter_state) jitter_state = jitter_seed * 0x9e3779b97f4a7c15ULL + (uint64_t) syscall(SYS_gettid) * 7919;
	uint64_t r = pbt::splitmix(jitter_state);
	if (r % points) return;
	r >>= 32;
	if (r % 8) sched_yield();
	else {struct timespec ts = {0, (long) (r % 300) * 1000}; syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, &ts, NULL);}
}

inline void check_buf(const void* p, size_t n, const char* what)
{
	if (!&__asan_region_is_poisoned || 0 == n) return;
	void* bad = __asan_region_is_poisoned((void*) p, n);
	if (bad) pbt::fail("asan:kernel-buffer", "%s of %zu bytes at %p touches memory that is not allocated (at offset %zu)", what, n, p, (size_t) ((char*) bad - (char*) p));
}

//limit: how many bytes may pass; returns an errno to be reported instead, or 0
inline int plan(int fd, bool send, size_t total, size_t& limit)
{
	limit = total;
	if (!faults.on) return 0;
	std::lock_guard<std::mutex> l(faults.m);
	for (size_t i = 0; i < faults.inject.size(); ++i)
		if (faults.inject[i].fd == fd && faults.inject[i].send == send)
		{
			if (faults.inject[i].countdown) --faults.inject[i].countdown;
			else {int e = faults.inject[i].err; faults.inject.erase(faults.inject.begin() + i); ++faults.n_err; return e;}
			break;
		}
	if (total < 1) return 0;
	if (rnd() % 256 < (send ? faults.again_w : faults.again_r)) {++faults.n_again; return EAGAIN;}
	if (rnd() % 256 < (send ? faults.short_w : faults.short_r)) {limit = 1 + rnd() % faults.max_chunk; if (limit >= total) limit = total; else ++faults.n_short;}
	return 0;
}
inline void want_rearm(int fd)
{
	std::lock_guard<std::mutex> l(reg_mutex);
	if (virt) rearm.push_back(fd);
	else //the caller holds the descriptor's lock: the event is handled once its operation is queued
	{
		std::map<int, Reg>::iterator i = regs.find(fd);
		if (i != regs.end()) syscall(SYS_epoll_ctl, i->second.epfd, EPOLL_CTL_MOD, fd, &i->second.ev);
	}
}
inline bool is_stream(int fd) {int t = 0; socklen_t l = sizeof t; return 0 == syscall(SYS_getsockopt, fd, SOL_SOCKET, SO_TYPE, &t, &l) && SOCK_STREAM == t;}

} //namespace sim

#ifdef PBT_MAIN
#pragma GCC visibility push(default)
extern "C" {

void __cyg_profile_func_enter(void*, void*) __attribute__((no_instrument_function));
void __cyg_profile_func_exit(void*, void*) __attribute__((no_instrument_function));
void __cyg_profile_func_enter(void*, void*) {sim::point();}
void __cyg_profile_func_exit(void*, void*) {sim::point();}

int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (!sim::virt || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_RAW && id != CLOCK_REALTIME_COARSE && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_BOOTTIME))
		return (int) syscall(SYS_clock_gettime, id, ts);
	int64_t t = sim::now_ns.fetch_add(200) + 200;
	ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
	return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* t) noexcept
{
	struct timespec ts;
	if (sim::virt) clock_gettime(CLOCK_REALTIME, &ts); else syscall(SYS_clock_gettime, CLOCK_REALTIME_COARSE, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
int timerfd_create(int clock, int flags) noexcept {if (sim::virt) {errno = ENOSYS; return -1;} return (int) syscall(SYS_timerfd_create, clock, flags);}

int epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev) noexcept
{
	{
		std::lock_guard<std::mutex> l(sim::reg_mutex);
		if (EPOLL_CTL_DEL == op) sim::regs.erase(fd);
		else if (ev) {sim::Reg r = {epfd, *ev}; sim::regs[fd] = r;}
	}
	return (int) syscall(SYS_epoll_ctl, epfd, op, fd, ev);
}

int epoll_wait(int epfd, struct epoll_event* ev, int max, int timeout)
{
	if (!sim::virt) {sim::maybe_jitter(); return (int) syscall(SYS_epoll_pwait, epfd, ev, max, timeout, NULL, 8);}
	{
		std::lock_guard<std::mutex> l(sim::reg_mutex);
		for (size_t i = 0; i < sim::rearm.size(); ++i)
		{
			std::map<int, sim::Reg>::iterator it = sim::regs.find(sim::rearm[i]);
			if (it != sim::regs.end() && it->second.epfd == epfd) syscall(SYS_epoll_ctl, epfd, EPOLL_CTL_MOD, it->first, &it->second.ev);
		}
		sim::rearm.clear();
	}
	int n = (int) syscall(SYS_epoll_pwait, epfd, ev, max, 0, NULL, 8);
	//work takes time, and a timer of 0 ms must not stop the clock
	if (0 == timeout || n != 0) {sim::now_ns += ++sim::epoll_rounds > 200 ? 500000 : 5000; return n;}
	sim::epoll_rounds = 0;
	//nothing is ready: leave the kernel a moment, then move the clock
	struct pollfd p = {epfd, POLLIN, 0}; struct timespec ts = {0, 40000};
	if (timeout < 0) {ts.tv_nsec = 300000000;}
	if (syscall(SYS_ppoll, &p, 1, &ts, NULL, 0) > 0) return (int) syscall(SYS_epoll_pwait, epfd, ev, max, 0, NULL, 8);
	if (timeout < 0) {sim::blocked_for_ever = true; return (int) syscall(SYS_epoll_pwait, epfd, ev, max, 2000, NULL, 8);}
	sim::now_ns += timeout * 1000000LL;
	return 0;
}

int nanosleep(const struct timespec* req, struct timespec* rem)
{
	if (!sim::virt) return (int) syscall(SYS_nanosleep, req, rem);
	sim::now_ns += req->tv_sec * 1000000000LL + req->tv_nsec; return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem)
{
	if (!sim::virt) return -(int) syscall(SYS_clock_nanosleep, id, flags, req, rem);
	int64_t t = req->tv_sec * 1000000000LL + req->tv_nsec;
	if (flags & TIMER_ABSTIME) {if (t > sim::now_ns) sim::now_ns = t;} else sim::now_ns += t;
	return 0;
}
int usleep(useconds_t us)
{
	struct timespec ts = {(time_t) us / 1000000, (long) (us % 1000000) * 1000};
	if (sim::virt) return nanosleep(&ts, NULL);
	return (int) syscall(SYS_nanosleep, &ts, NULL);
}

static ssize_t sim_msg(int fd, struct msghdr* m, int flags, bool send)
{
	size_t total = 0, limit; for (size_t i = 0; i < m->msg_iovlen; ++i) {total += m->msg_iov[i].iov_len; sim::check_buf(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, send ? "send" : "receive");}
	sim::maybe_jitter();
	limit = total;
	struct iovec tmp[64]; struct msghdr mm = *m;
	if (sim::faults.on)
	{
		bool stream = sim::is_stream(fd);
		int e = stream ? sim::plan(fd, send, total, limit) : 0;
		if (e) {if (EAGAIN == e) sim::want_rearm(fd); errno = e; return -1;}
		if (stream && limit < total && m->msg_iovlen <= 64)
		{
			sim::want_rearm(fd); //asio takes a short transfer for an exhausted descriptor and waits for the next edge
			size_t left = limit, n = 0;
			for (size_t i = 0; i < m->msg_iovlen && left > 0; ++i) {tmp[n] = m->msg_iov[i]; if (tmp[n].iov_len > left) tmp[n].iov_len = left; left -= tmp[n].iov_len; ++n;}
			mm.msg_iov = tmp; mm.msg_iovlen = n;
		}
	}
	ssize_t r = syscall(send ? SYS_sendmsg : SYS_recvmsg, fd, &mm, flags);
	if (!send && r >= 0) {m->msg_namelen = mm.msg_namelen; m->msg_flags = mm.msg_flags; m->msg_controllen = mm.msg_controllen;}
	return r;
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags) {return sim_msg(fd, m, flags, false);}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {struct msghdr mm = *m; return sim_msg(fd, &mm, flags, true);}
ssize_t recvfrom(int fd, void* buf, size_t n, int flags, struct sockaddr* a, socklen_t* al)
{
	struct iovec v = {buf, n}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &v; m.msg_iovlen = 1; if (a) {m.msg_name = a; m.msg_namelen = *al;}
	ssize_t r = sim_msg(fd, &m, flags, false); if (a) *al = m.msg_namelen; return r;
}
ssize_t recv(int fd, void* buf, size_t n, int flags) {return recvfrom(fd, buf, n, flags, NULL, NULL);}
ssize_t sendto(int fd, const void* buf, size_t n, int flags, const struct sockaddr* a, socklen_t al)
{
	struct iovec v = {(void*) buf, n}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &v; m.msg_iovlen = 1; if (a) {m.msg_name = (void*) a; m.msg_namelen = al;}
	return sim_msg(fd, &m, flags, true);
}
ssize_t send(int fd, const void* buf, size_t n, int flags) {return sendto(fd, buf, n, flags, NULL, 0);}

} //extern "C"
#pragma GCC visibility pop
#endif
#endif
