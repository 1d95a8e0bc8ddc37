// Cooperative scheduler: the threads of the code under test run as fibers, every scheduling decision is a recorded choice.
// An execution is determined by its list of choices; an explorer enumerates all executions with at most a given number of
// deviations from the default schedule (continue the running thread, otherwise the next runnable one; time passes only
// when nobody can run).  Free choices (inputs, durations) cost nothing and are enumerated completely.
#pragma once
#include "vclock.h"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <functional>
#include <memory>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

namespace sched
{
	constexpr std::size_t STACK = 512 * 1024;
	struct Violation { // thrown (or recorded) by oracles
		std::string what;
	};
	struct EhGlobals {
		void *caught;
		unsigned int uncaught;
	};
	struct Fiber {
		int id;
		void *sp = nullptr;
		char *stack = nullptr;
		bool done = false, blocked = false, timed_out = false, detached = false;
		std::function<bool()> ready;
		std::int64_t deadline = -1; // monotonic virtual time, -1 none
		std::function<void()> entry;
		void *(*start)(void *) = nullptr;
		void *arg = nullptr, *ret = nullptr;
		EhGlobals eh{nullptr, 0};
		const char *where = "start";
		std::string name;
		int err = 0;
	};
	struct Point {
		std::uint16_t n; // alternatives
		std::uint16_t taken;
		bool free; // alternatives cost nothing
	};
	inline bool active = false;
	inline std::vector<std::unique_ptr<Fiber>> fibers;
	inline Fiber *current = nullptr;
	inline void *main_sp = nullptr;
	inline EhGlobals main_eh;
	inline std::vector<char *> pool;
	inline std::vector<std::uint16_t> script; // choices to follow
	inline std::vector<Point> trace;
	inline std::string failure; // first violation
	inline std::uint64_t steps, max_steps = 20000, run_length, choice_count;
	inline bool timeout_choices = true; // may time pass although somebody can run?
	inline bool preemption_choices = true;
	inline std::vector<std::string> log; // readable events
	inline bool verbose = false;

	inline void note(const std::string &s)
	{
		if (verbose) log.push_back("[" + (current ? current->name : std::string("-")) + "] " + s);
	}

	extern "C" void sched_switch(void **save, void *load);
#ifdef VERIF_SCHED
	__asm__(".text\n.globl sched_switch\n.type sched_switch,@function\nsched_switch:\n"
			"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
			"sub $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
			"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
			"ldmxcsr (%rsp)\nfldcw 4(%rsp)\nadd $8,%rsp\n"
			"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size sched_switch,.-sched_switch\n");
#endif
	inline EhGlobals *eh() { return reinterpret_cast<EhGlobals *>(abi::__cxa_get_globals()); }

	[[noreturn]] inline void fiber_main();
	inline void leave_to(Fiber *f, Fiber *from);

	inline Fiber *spawn(const std::string &name, std::function<void()> fn)
	{
		auto f = std::make_unique<Fiber>();
		f->id = (int) fibers.size();
		f->name = name;
		f->entry = std::move(fn);
		if (pool.empty()) {
			f->stack = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			mprotect(f->stack, 4096, PROT_NONE);
		} else {
			f->stack = pool.back();
			pool.pop_back();
		}
		auto *top = (std::uint64_t *) (f->stack + STACK - 64);
		*--top = 0; // alignment / end of the stack
		*--top = (std::uint64_t) (void (*)()) fiber_main;
		for (int i = 0; i < 6; ++i) *--top = 0;
		--top;
		std::uint32_t mx;
		std::uint16_t cw;
		__asm__ volatile("stmxcsr %0" : "=m"(mx));
		__asm__ volatile("fnstcw %0" : "=m"(cw));
		((std::uint32_t *) top)[0] = mx;
		((std::uint32_t *) top)[1] = cw;
		f->sp = top;
		Fiber *r = f.get();
		fibers.push_back(std::move(f));
		return r;
	}
	inline void switch_to(Fiber *f) // from current (or the main context if null)
	{
		if (f == current) return;
		Fiber *from = current;
		void **save = from ? &from->sp : &main_sp;
		EhGlobals *g = eh();
		(from ? from->eh : main_eh) = *g;
		if (from) from->err = errno;
		current = f;
		*g = f ? f->eh : main_eh;
		void *load = f ? f->sp : main_sp;
		sched_switch(save, load);
		if (current) errno = current->err;
	}
	// a choice among n alternatives; alternative 0 is the default
	inline int choose(int n, bool free)
	{
		if (n <= 1) return 0;
		++choice_count;
		int c = 0;
		if (trace.size() < script.size()) c = script[trace.size()];
		if (c >= n) { // cannot happen for deterministic code
			std::fprintf(stderr, "internal: execution is not deterministic\n");
			_exit(9);
		}
		trace.push_back({(std::uint16_t) n, (std::uint16_t) c, free});
		return c;
	}
	[[noreturn]] inline void abandon() // give up the whole execution
	{
		Fiber *f = current;
		(void) f;
		switch_to(nullptr);
		std::abort();
	}
	inline void fail(const std::string &what)
	{
		if (failure.empty()) failure = what;
	}
	inline bool runnable(Fiber &f) { return !f.done && (!f.blocked || (f.ready && f.ready())); }
	// pick who runs next; current may or may not be runnable
	inline void reschedule(bool current_first)
	{
		if (++steps > max_steps) {
			std::string s;
			for (auto &f : fibers)
				if (!f->done) s += " " + f->name + "@" + f->where;
			fail("the execution does not end:" + s);
			abandon();
		}
		static std::vector<Fiber *> alt; // not used any more when another fiber gets here
		alt.clear();
		int me = current ? current->id : -1;
		int n = (int) fibers.size();
		bool fair = run_length > 300; // let the others run, too
		for (int k = 0; k < n; ++k) {
			Fiber &f = *fibers[((me < 0 ? 0 : me) + k) % n];
			if (k == 0 && (!current_first || fair)) continue;
			if (runnable(f)) alt.push_back(&f);
		}
		if ((!current_first || fair) && me >= 0 && runnable(*fibers[me])) alt.push_back(fibers[me].get());
		Fiber *timer = nullptr;
		for (auto &f : fibers)
			if (!f->done && f->blocked && f->deadline >= 0 && !runnable(*f) && (!timer || f->deadline < timer->deadline)) timer = f.get();
		if (!preemption_choices && alt.size() > 1) alt.resize(1);
		if (timer && (alt.empty() || timeout_choices)) alt.push_back(timer);
		if (alt.empty()) {
			std::string s;
			for (auto &f : fibers)
				if (!f->done) s += " " + f->name + " waits in " + f->where + ";";
			fail("deadlock:" + s);
			abandon();
		}
		int c = choose((int) alt.size(), false);
		Fiber *f = alt[c];
		if (f == timer) {
			if (timer->deadline > vclock::mono_us) vclock::advance(timer->deadline - vclock::mono_us);
			f->timed_out = true;
		}
		run_length = f == current ? run_length + 1 : 0;
		switch_to(f);
	}
	inline void yield(const char *where)
	{
		if (!active || !current) return;
		current->where = where;
		reschedule(true);
	}
	// returns false on timeout
	inline bool block(const char *where, std::function<bool()> ready, std::int64_t timeout_us = -1)
	{
		Fiber *f = current;
		f->where = where;
		f->blocked = true;
		f->timed_out = false;
		f->ready = std::move(ready);
		f->deadline = timeout_us >= 0 ? vclock::mono_us + timeout_us : -1;
		reschedule(true);
		bool t = f->timed_out;
		f->blocked = false;
		f->ready = nullptr;
		f->deadline = -1;
		f->timed_out = false;
		return !t;
	}
	[[noreturn]] inline void fiber_main()
	{
		Fiber *f = current;
		try {
			if (f->start) f->ret = f->start(f->arg);
			else f->entry();
		} catch (const Violation &v) {
			fail(v.what);
			abandon();
		} catch (const std::exception &e) {
			fail("uncaught exception in thread " + f->name + ": " + e.what());
			abandon();
		} catch (...) {
			fail("uncaught exception in thread " + f->name);
			abandon();
		}
		f->done = true;
		f->where = "end";
		bool any = false;
		for (auto &x : fibers) any |= !x->done;
		if (any) reschedule(false);
		else switch_to(nullptr);
		std::abort();
	}
	// execute body under the scheduler following `choices`; returns false if the execution was given up (process not reusable)
	inline bool execute(const std::vector<std::uint16_t> &choices, const std::function<void()> &body)
	{
		script = choices;
		trace.clear();
		log.clear();
		failure.clear();
		steps = run_length = 0;
		fibers.clear();
		current = nullptr;
		vclock::reset();
		Fiber *m = spawn("main", body);
		active = true;
		switch_to(m);
		active = false;
		bool clean = true;
		for (auto &f : fibers) clean &= f->done;
		if (!clean) return false;
		for (auto &f : fibers) pool.push_back(f->stack);
		fibers.clear();
		return true;
	}
} // namespace sched

#ifdef VERIF_SCHED
namespace sched
{
	constexpr std::uint64_t HANDLE = 0x5ced000000000000ull;
	inline Fiber *by_handle(pthread_t t)
	{
		std::uint64_t v = (std::uint64_t) t;
		if ((v & 0xffff000000000000ull) != HANDLE) return nullptr;
		return fibers[v & 0xffff].get();
	}
	struct Cond {
		std::uint64_t signals = 0;
		std::deque<std::shared_ptr<bool>> waiters;
	};
	inline std::vector<std::pair<void *, std::shared_ptr<Cond>>> conds;
	inline Cond &cond_of(void *c)
	{
		for (auto &p : conds)
			if (p.first == c) return *p.second;
		conds.push_back({c, std::make_shared<Cond>()});
		return *conds.back().second;
	}
	inline int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, std::int64_t timeout_us)
	{
		auto w = std::make_shared<bool>(false);
		cond_of(c).waiters.push_back(w);
		pthread_mutex_unlock(m);
		bool ok = block("condition variable", [w]() { return *w; }, timeout_us);
		pthread_mutex_lock(m);
		return ok ? 0 : ETIMEDOUT;
	}
} // namespace sched
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*start)(void *), void *arg) noexcept
{
	if (!sched::active) {
		static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
		return real(t, a, start, arg);
	}
	auto *f = sched::spawn("thread" + std::to_string(sched::fibers.size()), nullptr);
	f->start = start;
	f->arg = arg;
	*t = (pthread_t) (sched::HANDLE | (std::uint64_t) f->id);
	sched::yield("thread creation");
	return 0;
}
int pthread_join(pthread_t t, void **r)
{
	auto *f = sched::by_handle(t);
	if (!f) {
		static auto real = (int (*)(pthread_t, void **)) dlsym(RTLD_NEXT, "pthread_join");
		return real(t, r);
	}
	if (f == sched::current) return EDEADLK;
	sched::block("join", [f]() { return f->done; });
	if (r) *r = f->ret;
	return 0;
}
int pthread_detach(pthread_t t) noexcept
{
	auto *f = sched::by_handle(t);
	if (!f) {
		static auto real = (int (*)(pthread_t)) dlsym(RTLD_NEXT, "pthread_detach");
		return real(t);
	}
	f->detached = true;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
	static auto real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
	if (!sched::active || !sched::current) return real(m);
	if (pthread_mutex_trylock(m) == 0) return 0;
	while (true) {
		bool got = false;
		sched::block("mutex", [m, &got]() {
			// trylock and unlock again: only a test
			if (pthread_mutex_trylock(m) == 0) {
				static auto un = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
				un(m);
				return true;
			}
			return false;
		});
		(void) got;
		if (pthread_mutex_trylock(m) == 0) return 0;
	}
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	return sched::cond_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	std::int64_t us = t->tv_sec * 1000000ll + t->tv_nsec / 1000 - vclock::wall_us;
	return sched::cond_wait(c, m, us < 0 ? 0 : us);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *t)
{
	std::int64_t us = t->tv_sec * 1000000ll + t->tv_nsec / 1000 - (id == CLOCK_REALTIME ? vclock::wall_us : vclock::mono_us);
	return sched::cond_wait(c, m, us < 0 ? 0 : us);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept
{
	auto &q = sched::cond_of(c).waiters;
	while (!q.empty()) {
		auto w = q.front();
		q.pop_front();
		if (w.use_count() > 1) {
			*w = true;
			break;
		}
	}
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept
{
	auto &q = sched::cond_of(c).waiters;
	for (auto &w : q) *w = true;
	q.clear();
	return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) noexcept
{
	for (std::size_t i = 0; i < sched::conds.size(); ++i)
		if (sched::conds[i].first == c) {
			sched::conds.erase(sched::conds.begin() + i);
			break;
		}
	return 0;
}
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (r < 0 && r > -4096) {
		errno = (int) -r;
		return -1;
	}
	return r;
}
// futures and atomic waits block in the futex system call
long syscall(long n, ...) noexcept
{
	va_list ap;
	va_start(ap, n);
	long a[6];
	for (auto &x : a) x = va_arg(ap, long);
	va_end(ap);
	if (n == SYS_futex && sched::active && sched::current) {
		int op = (int) a[1] & 127;
		auto *p = (volatile int *) a[0];
		if (op == 0 || op == 9) { // FUTEX_WAIT, FUTEX_WAIT_BITSET
			int val = (int) a[2];
			if (*p != val) {
				errno = EAGAIN;
				return -1;
			}
			std::int64_t us = -1;
			if (a[3]) {
				auto *t = (const struct timespec *) a[3];
				us = t->tv_sec * 1000000ll + t->tv_nsec / 1000;
				if (op == 9) us -= ((int) a[1] & 256) ? vclock::wall_us : vclock::mono_us;
				if (us < 0) us = 0;
			}
			if (!sched::block("futex", [p, val]() { return *p != val; }, us)) {
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		return 1; // wake: waiters look at the value
	}
	return raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static int sched_sleep(std::int64_t us)
{
	if (!sched::active || !sched::current) {
		struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
		raw_syscall(SYS_nanosleep, (long) &ts, 0, 0, 0, 0, 0);
		return 0;
	}
	sched::block("sleep", []() { return false; }, us < 0 ? 0 : us);
	return 0;
}
int nanosleep(const struct timespec *t, struct timespec *) { return sched_sleep(t->tv_sec * 1000000ll + t->tv_nsec / 1000); }
int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *)
{
	std::int64_t us = t->tv_sec * 1000000ll + t->tv_nsec / 1000;
	if (flags & TIMER_ABSTIME) us -= id == CLOCK_REALTIME ? vclock::wall_us : vclock::mono_us;
	return sched_sleep(us);
}
int usleep(useconds_t us) { return sched_sleep(us); }
unsigned sleep(unsigned s) { return sched_sleep(s * 1000000ll); }
int sched_yield(void) noexcept
{
	sched::yield("sched_yield");
	return 0;
}
}
#endif
