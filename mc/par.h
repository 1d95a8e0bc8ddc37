// Crash tolerant parallel map over [0,n): forked workers share an atomic index; results come back as byte records.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <signal.h>

namespace par
{
	inline double now()
	{
		struct timespec ts;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
		return ts.tv_sec + ts.tv_nsec * 1e-9;
	}
	constexpr int MAXP = 64;
	struct Shared {
		std::atomic<std::uint64_t> next;
		std::atomic<int> stop;
		struct Slot {
			std::atomic<std::uint64_t> index; // item being processed + 1
			std::atomic<std::uint64_t> sub; // free for the item (e.g. child number)
			std::atomic<std::uint64_t> beat; // progress counter
		} slot[MAXP];
	};
	struct Dead { // a worker that did not survive
		std::uint64_t index, sub;
		int sig; // signal, -1 hang, -2 exit
	};
	inline int procs()
	{
		const char *e = getenv("VERIF_JOBS");
		int n = e ? atoi(e) : (int) sysconf(_SC_NPROCESSORS_ONLN);
		return n < 1 ? 1 : n > MAXP ? MAXP : n;
	}
	inline Shared *self_shared = nullptr;
	inline int self_slot = -1;
	inline void sub(std::uint64_t s)
	{
		if (self_shared) {
			self_shared->slot[self_slot].sub = s;
			self_shared->slot[self_slot].beat++;
		}
	}
	inline bool stopped() { return self_shared && self_shared->stop.load(std::memory_order_relaxed); }
	inline void request_stop() { if (self_shared) self_shared->stop = 1; }
	// fn(index, out): appends a record's bytes to out.  Records of all items are concatenated per worker.
	inline std::vector<std::string> run(std::uint64_t n, std::uint64_t batch, const std::function<void(std::uint64_t, std::string &)> &fn,
		std::vector<Dead> &dead, double deadline, double hang_s = 60)
	{
		auto *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		new (sh) Shared();
		sh->next = 0;
		sh->stop = 0;
		int p = procs();
		if ((std::uint64_t) p > n) p = n ? (int) n : 1;
		std::vector<pid_t> pids(p);
		std::vector<FILE *> files(p);
		std::vector<std::uint64_t> last_beat(p, 0);
		std::vector<double> last_change(p, now());
		auto spawn = [&](int k, FILE *f) {
			pid_t pid = fork();
			if (pid == 0) {
				struct rlimit rl = {0, 0};
				setrlimit(RLIMIT_CORE, &rl);
				self_shared = sh;
				self_slot = k;
				std::string out;
				while (!sh->stop.load(std::memory_order_relaxed)) {
					std::uint64_t b = sh->next.fetch_add(batch);
					if (b >= n) break;
					for (std::uint64_t i = b; i < b + batch && i < n; ++i) {
						sh->slot[k].index = i + 1;
						sh->slot[k].sub = 0;
						sh->slot[k].beat++;
						fn(i, out);
						if (out.size() > (1u << 20)) {
							fwrite(out.data(), 1, out.size(), f);
							fflush(f);
							out.clear();
						}
						if (sh->stop.load(std::memory_order_relaxed)) break;
					}
				}
				sh->slot[k].index = 0;
				fwrite(out.data(), 1, out.size(), f);
				fflush(f);
				_exit(0);
			}
			return pid;
		};
		fflush(nullptr);
		for (int k = 0; k < p; ++k) {
			files[k] = tmpfile();
			pids[k] = spawn(k, files[k]);
		}
		int alive = p;
		while (alive) {
			int st;
			pid_t pid = waitpid(-1, &st, WNOHANG);
			if (pid <= 0) {
				usleep(300);
				double t = now();
				if (t > deadline) sh->stop = 1;
				for (int k = 0; k < p; ++k) {
					if (!pids[k]) continue;
					auto b = sh->slot[k].beat.load();
					if (b != last_beat[k]) {
						last_beat[k] = b;
						last_change[k] = t;
					} else if (t - last_change[k] > hang_s) {
						dead.push_back({sh->slot[k].index.load() - 1, sh->slot[k].sub.load(), -1});
						kill(pids[k], SIGKILL);
						last_change[k] = t + 1e9;
					}
				}
				continue;
			}
			for (int k = 0; k < p; ++k) {
				if (pids[k] != pid) continue;
				pids[k] = 0;
				--alive;
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
					bool hung = last_change[k] > 1e9;
					if (!hung) {
						dead.push_back({sh->slot[k].index.load() - 1, sh->slot[k].sub.load(),
							WIFSIGNALED(st) ? WTERMSIG(st) : -2});
					}
					sh->stop = 1; // one death is enough
				}
			}
		}
		std::vector<std::string> res(p);
		for (int k = 0; k < p; ++k) {
			fseek(files[k], 0, SEEK_END);
			long sz = ftell(files[k]);
			rewind(files[k]);
			res[k].resize(sz);
			if (sz && fread(&res[k][0], 1, sz, files[k]) != (std::size_t) sz) res[k].clear();
			fclose(files[k]);
		}
		munmap(sh, sizeof(Shared));
		return res;
	}
	// With VERIF_ISOLATE every single execution gets a process of its own (used when the code under test carries
	// state from one execution to the next, so that a violation does not reproduce by itself).
	inline const bool isolate = getenv("VERIF_ISOLATE") != nullptr;
	inline std::string call(const std::function<std::string()> &fn)
	{
		if (!isolate) return fn();
		int p[2];
		if (pipe(p)) abort();
		pid_t pid = fork();
		if (pid == 0) {
			close(p[0]);
			std::string s = fn();
			for (std::size_t o = 0; o < s.size();) {
				ssize_t n = write(p[1], s.data() + o, s.size() - o);
				if (n <= 0) _exit(77);
				o += (std::size_t) n;
			}
			_exit(0);
		}
		close(p[1]);
		std::string s;
		char buf[65536];
		ssize_t n;
		while ((n = read(p[0], buf, sizeof buf)) > 0) s.append(buf, (std::size_t) n);
		close(p[0]);
		int st;
		waitpid(pid, &st, 0);
		if (WIFSIGNALED(st)) { // die in the same way
			signal(WTERMSIG(st), SIG_DFL);
			kill(getpid(), WTERMSIG(st));
			_exit(78);
		}
		if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
		return s;
	}
	// run fn in a forked process; returns 0 ok, else signal / -1 hang / 1000+exit status; fn may write to fd
	inline int isolated(const std::function<void(FILE *)> &fn, std::string &out, double limit = 60)
	{
		FILE *f = tmpfile();
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			struct rlimit rl = {0, 0};
			setrlimit(RLIMIT_CORE, &rl);
			fn(f);
			fflush(f);
			_exit(0);
		}
		double end = now() + limit;
		int st, r = 0;
		while (true) {
			pid_t q = waitpid(pid, &st, WNOHANG);
			if (q == pid) {
				r = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) ? 1000 + WEXITSTATUS(st) : 0;
				break;
			}
			if (now() > end) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				r = -1;
				break;
			}
			usleep(500);
		}
		fseek(f, 0, SEEK_END);
		long sz = ftell(f);
		rewind(f);
		out.resize(sz);
		if (sz && fread(&out[0], 1, sz, f) != (std::size_t) sz) out.clear();
		fclose(f);
		return r;
	}
} // namespace par
