// Drives the real broker_handler / worker_registry / queue managers through their public message interface and
// checks every observable message against the specification facts it keeps.
#pragma once
#include "arena.h"
#include "vclock.h"

#include <algorithm>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "broker_connect.h"
#include "config/broker_config.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "worker_registry.h"

using strs = std::vector<std::string>;
typedef std::uint32_t tagset;
inline constexpr tagset T(int i) { return tagset(1) << i; }
template <class... A> constexpr tagset T(int i, A... r) { return T(i) | T(r...); }
constexpr tagset T_ANY = ~tagset(0);

// ---------------------------------------------------------------- capability oracle (independent of src/worker.cpp)
struct Variant {
	std::string hwgroup;
	strs headers; // "name=value"
};
struct JobClass {
	strs headers; // incl. meta.*
	strs payload;
};

inline std::pair<std::string, std::string> split_kv(const std::string &h)
{
	auto p = h.find('=');
	return {h.substr(0, p), h.substr(p + 1)};
}

inline bool oracle_capable(const Variant &v, const strs &req)
{
	for (auto &r : req) {
		auto kv = split_kv(r);
		if (kv.first.compare(0, 5, "meta.") == 0) continue;
		bool ok = false;
		if (kv.first == "hwgroup") {
			std::stringstream ss(kv.second);
			std::string part;
			while (std::getline(ss, part, '|'))
				if (part == v.hwgroup) ok = true;
		}
		for (auto &h : v.headers) {
			auto w = split_kv(h);
			if (w.first != kv.first) continue;
			if (kv.first == "threads") {
				if (std::atol(w.second.c_str()) >= std::atol(kv.second.c_str())) ok = true;
			} else if (w.second == kv.second) {
				ok = true;
			}
		}
		if (!ok) return false;
	}
	return true;
}

// the order in which headers with different names are announced means nothing
inline bool same_announcement(const Variant &a, const Variant &b)
{
	auto x = a.headers, y = b.headers;
	std::sort(x.begin(), x.end());
	std::sort(y.begin(), y.end());
	return a.hwgroup == b.hwgroup && x == y;
}

// ---------------------------------------------------------------- scenario
enum EvKind : std::uint8_t {
	INIT, // a=worker b=variant c=declared job (0 none, 1 foreign, 2 own zombie, 3 the job it holds)
	EVAL, // a=class b=job number c=0 or 1+index of the finished job whose id is used again
	DONE, // a=worker b=status
	STALE, // a=worker b=instance index (255 unknown id, 254 empty id, 253 and 252 almost the id it holds) c=status (4-14 malformed)
	PING, // a=worker
	TOUCH, // a=worker b=kind
	TICK, // a=index of tick size
	EXPIRE, // a=mask
	FREEZE,
	UNFREEZE,
	FEVAL, // a=class: evaluation request while frozen
	STATS,
	PROGRESS, // a=worker b=kind
	CLOCK, // a=kind
	NKINDS
};
struct Ev {
	std::uint8_t k, a, b, c;
	bool operator==(const Ev &o) const { return k == o.k && a == o.a && b == o.b && c == o.c; }
};
typedef std::vector<Ev> History;

struct Scenario {
	std::string name;
	bool multi = false, down = false;
	std::size_t L = 2, F = 2;
	int interval = 1000;
	std::vector<long> ticks = {1001};
	std::vector<Variant> variants;
	std::vector<std::vector<int>> wvariants; // per worker: variants it may announce
	std::vector<JobClass> classes;
	std::vector<int> use_classes;
	int max_jobs = 3;
	unsigned kinds = 0; // bit per EvKind
	int budget[NKINDS]; // max occurrences per history (0 = unlimited)
	int total_reinit = 1; // max changed or repeated inits of a registered worker
	bool decl_foreign = false, decl_zombie = false, decl_held = false;
	std::vector<int> statuses = {0, 1, 2};
	int depth = 6;
	int nomerge = 2; // depths at which nothing is merged
	History prefix; // fixed beginning
	bool key_stats = false, key_runs = false, key_order = false;
	int stale_status_mask = 7; // 8: also almost right ids and statuses
	std::int64_t mono0 = 0; // time at the beginning
	int reuse = 0; // submissions that use the id of a finished or rejected job again
	std::vector<int> expire_masks; // empty: all non-empty masks
	Scenario() { std::memset(budget, 0, sizeof budget); }
};

static const char *STATUS[] = {"OK", "FAILED", "INTERNAL_ERROR", "SUCCESS"}; // the last one does not exist

struct Violation {
	tagset tags;
	std::string text;
};

enum JState : std::uint8_t { J_NONE, J_WAIT, J_HELD, J_TERM, J_REJ };

struct Job { // an instance: submitted by a client, or declared by a worker at registration (orphan)
	std::string id;
	int cls = -1;
	bool orphan = false;
	JState st = J_NONE;
	int seq = 0; // acceptance order
	int disp = 0, fail_lo = 0, fail_hi = 0;
	int holder = -1;
	bool moved = false;
	int place = 0; // multi: workers in whose queue it may be waiting
	int reports = 0;
	int first_worker = -1;
	int run = -1, run_n = 0;
};
struct Wk {
	bool reg = false, seen = false;
	int variant = -1;
	int held = -1; // instance
	int zombie = -1; // instance it held when it was last dropped
	long silent = 0, acc = 0; // ms since last message; greedy accumulator
	std::size_t units = 0;
	bool empty_reasons = false;
	int last_seq = -1; // multi: acceptance number of the last never-moved job it was given
};

struct Out {
	std::vector<message_container> client, worker, monitor, notifier, other;
};

class World
{
public:
	const Scenario &s;
	std::shared_ptr<broker_config> config;
	std::shared_ptr<worker_registry> registry;
	std::shared_ptr<queue_manager_interface> queue;
	std::shared_ptr<broker_handler> handler;

	std::vector<Job> jobs;
	std::vector<Wk> w;
	bool frozen = false;
	long evaluated = 0, failed = 0;
	int seqno = 0, jobno = 0, fjobno = 0, foreign = 0;
	int run_id = 0, run_last_mask = -1;
	bool run_open = false;
	std::vector<int> clock_kinds;

	std::vector<Violation> viol;
	bool hard = false;
	tagset ctx = 0;

	bool hashing = false;
	std::uint64_t h1 = 0x9E3779B97F4A7C15ull, h2 = 0xC2B2AE3D27D4EB4Full;
	std::string *log = nullptr; // readable trace

	explicit World(const Scenario &sc, std::shared_ptr<broker_config> cfg) : s(sc), config(cfg)
	{
		registry = std::make_shared<worker_registry>();
		if (s.multi)
			queue = std::make_shared<multi_queue_manager>();
		else
			queue = std::make_shared<single_queue_manager<>>();
		std::shared_ptr<spdlog::logger> logger; // logging must not matter: everything or the default
		if (s.multi) {
			logger = helpers::create_null_logger();
			logger->set_level(spdlog::level::trace);
		}
		handler = std::make_shared<broker_handler>(config, registry, queue, logger);
		if (s.mono0) vclock::mono_us = s.mono0;
		w.resize(s.wvariants.size() + 1); // last: the probe worker
	}

	// ------------------------------------------------------------ plumbing
	void mix(const std::string &x)
	{
		for (unsigned char c : x) {
			h1 = (h1 ^ c) * 0x100000001B3ull;
			h2 = (h2 + c) * 0x9E3779B97F4A7C15ull;
			h2 ^= h2 >> 29;
		}
		h1 = (h1 ^ 0x1F) * 0x100000001B3ull;
		h2 = (h2 ^ 0x2F) * 0xBF58476D1CE4E5B9ull;
	}
	void bad(tagset t, const std::string &text, bool is_hard)
	{
		viol.push_back({t | (is_hard ? ctx : 0), printable(text)});
		if (log) *log += "    !! " + text + "\n";
		if (is_hard) hard = true;
	}
	static std::string printable(const std::string &x)
	{
		std::string r;
		for (unsigned char c : x) {
			if (c >= 32 && c < 127) {
				r += (char) c;
			} else {
				char b[8];
				std::snprintf(b, sizeof b, "\\x%02x", c);
				r += b;
			}
		}
		return r;
	}
	static std::string show(const message_container &m)
	{
		std::string r = m.key + "[" + printable(m.identity) + "]";
		for (auto &d : m.data) r += " '" + printable(d) + "'";
		return r;
	}
	std::string wid(int i) const // identities that are prefixes of each other and contain arbitrary bytes
	{
		if (i == (int) s.wvariants.size()) return "probe";
		static const std::string ids[] = {"worker", "worker1", std::string("worker1\0b", 9), std::string("\0\xffw", 3), "WORKER"};
		return i < 5 ? ids[i] : "worker" + std::to_string(i);
	}
	std::string jid(int n) const // one is empty, the others are prefixes of each other
	{
		static const std::string odd = std::string(" Jo/b%=\0\n", 9); // opaque
		static const std::size_t ones[] = {2, 0, 3, 1, 4}; // and not in lexicographic order
		if (n < 6) return n == 5 ? "" : (s.multi ? "job" : odd) + std::string(ones[n], '1');
		return "job-" + std::to_string(n);
	}
	int windex(const std::string &id) const
	{
		for (std::size_t i = 0; i < w.size(); ++i)
			if (wid((int) i) == id) return (int) i;
		return -1;
	}

	Out feed(const std::string &key, const std::string &identity, const strs &data)
	{
		Out o;
		message_container m(key, identity, data);
		if (log) *log += "  > " + show(m) + "\n";
		auto cb = [&](const message_container &r) {
			if (hashing) {
				mix(r.key);
				mix(r.identity);
				for (auto &d : r.data) mix(d);
				mix("|");
			}
			if (log) *log += "    < " + show(r) + "\n";
			if (r.key == broker_connect::KEY_CLIENTS) o.client.push_back(r);
			else if (r.key == broker_connect::KEY_WORKERS) o.worker.push_back(r);
			else if (r.key == broker_connect::KEY_MONITOR) o.monitor.push_back(r);
			else if (r.key == broker_connect::KEY_STATUS_NOTIFIER) o.notifier.push_back(r);
			else o.other.push_back(r);
		};
		try {
			handler->on_request(m, cb);
		} catch (std::exception &e) {
			bad(T_ANY, std::string("exception escaped from the broker: ") + e.what() + " on " + show(m), true);
		} catch (...) {
			bad(T_ANY, "unknown exception escaped from the broker on " + show(m), true);
		}
		if (hashing) mix("/");
		return o;
	}

	const Variant &var(int i) const { return s.variants.at(w[i].variant); }
	bool capable(int wi, int cls) const { return oracle_capable(var(wi), s.classes.at(cls).headers); }
	bool someone_capable(int cls) const
	{
		for (std::size_t i = 0; i < w.size(); ++i)
			if (w[i].reg && capable((int) i, cls)) return true;
		return false;
	}
	int cap_mask(int cls) const
	{
		int m = 0;
		for (std::size_t i = 0; i < w.size(); ++i)
			if (w[i].reg && capable((int) i, cls)) m |= 1 << i;
		return m;
	}
	int find_inst(const std::string &id, JState st) const
	{
		for (std::size_t i = 0; i < jobs.size(); ++i)
			if (jobs[i].id == id && jobs[i].st == st && !jobs[i].orphan) return (int) i;
		return -1;
	}
	int find_any(const std::string &id) const
	{
		for (std::size_t i = jobs.size(); i-- > 0;)
			if (jobs[i].id == id && !jobs[i].orphan) return (int) i;
		return -1;
	}

	// ------------------------------------------------------------ expectations of one step
	struct Report {
		int inst;
		std::string status, reason;
		tagset tags;
		bool seen;
	};
	struct Mon {
		std::string id, text;
		bool must, seen;
		bool failed_ok; // optional one
	};
	struct Expect {
		std::vector<Report> reports;
		std::vector<Mon> mon;
		std::vector<strs> progress; // exact frames
		bool progress_optional = false;
		int errors = 0;
		bool ping = false;
	};

	void heard(int wi)
	{
		if (wi < 0) return;
		w[wi].silent = w[wi].acc = 0;
		w[wi].units = 0;
	}
	void terminal(int inst)
	{
		jobs[inst].st = J_TERM;
		jobs[inst].holder = -1;
	}
	void expect_failed(Expect &x, int inst, tagset tags, const std::string &reason, int mon /*0 none,1 must,2 maybe*/)
	{
		terminal(inst);
		x.reports.push_back({inst, "FAILED", reason, tags, false});
		if (mon) x.mon.push_back({jobs[inst].id, "FAILED", mon == 1, false, false});
	}
	static bool out_has_failed(const Out &o, const std::string &id)
	{
		for (auto &m : o.notifier) {
			bool i = false, f = false;
			for (std::size_t k = 0; k + 1 < m.data.size(); k += 2) {
				if (m.data[k] == "id" && m.data[k + 1] == id) i = true;
				if (m.data[k] == "status" && m.data[k + 1] == "FAILED") f = true;
			}
			if (i && f) return true;
		}
		return false;
	}
	static bool out_has_aborted(const Out &o, const std::string &id)
	{
		for (auto &m : o.monitor)
			if (m.data.size() == 2 && m.data[0] == id && m.data[1] == "ABORTED") return true;
		return false;
	}
	// an attempt of a job with known content ended without a result; decide its fate
	void release(Expect &x, const Out &o, int inst, tagset tags, const std::string &reason, bool death, bool maybe)
	{
		Job &j = jobs[inst];
		j.holder = -1;
		j.moved = true;
		if (!someone_capable(j.cls)) {
			expect_failed(x, inst, tags | T(1), reason, 1);
			return;
		}
		if ((std::size_t) j.fail_lo >= s.F) {
			expect_failed(x, inst, tags | T(1, 5), reason, 1);
			return;
		}
		if ((std::size_t) j.fail_hi >= s.F) {
			if (out_has_failed(o, j.id)) {
				expect_failed(x, inst, tags | T(1, 5), reason, 1);
				return;
			}
			j.fail_hi = (int) s.F - 1;
		}
		j.st = J_WAIT;
		j.place = cap_mask(j.cls);
		if (death) x.mon.push_back({j.id, "ABORTED", !maybe, false, false});
	}
	// waiting jobs after the set of registered workers shrank
	void orphaned_waiting(Expect &x, tagset tags, int lost_mask_cls(const World &, int))
	{
		(void) lost_mask_cls;
		for (std::size_t i = 0; i < jobs.size(); ++i) {
			if (jobs[i].st != J_WAIT || jobs[i].orphan) continue;
			if (!someone_capable(jobs[i].cls)) expect_failed(x, (int) i, tags | T(1), "", 1);
		}
	}

	void check_outputs(const Out &o, Expect &x)
	{
		if (!o.other.empty()) bad(T(1, 16, 20), "message to an unknown destination: " + show(o.other[0]), false);
		// dispatches and other worker traffic
		for (auto &m : o.worker) {
			int wi = windex(m.identity);
			if (m.data.empty()) {
				bad(T(4, 10, 17, 3), "message without frames sent to worker " + m.identity, false);
				continue;
			}
			if (m.data[0] == "pong" || m.data[0] == "intro") {
				if (!x.ping) bad(T(17), "unexpected " + m.data[0] + " to " + m.identity, false);
				continue;
			}
			if (m.data[0] != "eval" || m.data.size() < 2) {
				bad(T(10, 17), "unexpected message to a worker: " + show(m), false);
				continue;
			}
			dispatch(m, wi);
			if (hard) return;
		}
		// reports
		for (auto &m : o.notifier) {
			std::map<std::string, std::string> kv;
			for (std::size_t k = 0; k + 1 < m.data.size(); k += 2) kv[m.data[k]] = m.data[k + 1];
			if (m.data.size() % 2 || m.identity != "") bad(T(1, 26), "malformed report: " + show(m), false);
			if (kv["type"] == "error") {
				if (--x.errors < 0) bad(T(17, 26), "unexpected error report: " + show(m), false);
				continue;
			}
			if (kv["type"] != "job-status") {
				bad(T(1, 26), "report of unknown type: " + show(m), true);
				return;
			}
			bool found = false;
			for (auto &r : x.reports) {
				if (r.seen || jobs[r.inst].id != kv["id"] || r.status != kv["status"]) continue;
				r.seen = found = true;
				jobs[r.inst].reports++;
				if (r.status == "FAILED") {
					if (!kv.count("message")) bad(T(26), "FAILED report without a message: " + show(m), false);
					else if (kv["message"].find(r.reason) == std::string::npos)
						bad(T(26), "FAILED report lacks the worker's explanation '" + r.reason + "': " + show(m), false);
				}
				break;
			}
			if (!found) {
				bool wrong_status = false;
				for (auto &r : x.reports)
					if (!r.seen && jobs[r.inst].id == kv["id"]) wrong_status = true;
				int inst = find_any(kv["id"]);
				tagset t = T(1, 26);
				if (inst >= 0 && jobs[inst].st == J_REJ) t |= T(2);
				if (inst >= 0 && (jobs[inst].st == J_WAIT || jobs[inst].st == J_HELD) && kv["status"] == "FAILED") t |= T(5);
				if (wrong_status) t |= T(5);
				bad(t, "report that nothing justifies: " + show(m), true);
				return;
			}
		}
		for (auto &r : x.reports) {
			if (!r.seen) {
				bad(r.tags | T(1),
					"missing final report " + r.status + " for job " + jobs[r.inst].id + " in this step", true);
				return;
			}
		}
		if (x.errors > 0) bad(T(17), "missing error report for an init with different capabilities", false);
		// monitor
		for (auto &m : o.monitor) {
			if (m.identity != broker_connect::MONITOR_IDENTITY)
				bad(T(16, 10), "monitor message to a wrong peer: " + show(m), false);
			bool ok = false;
			for (std::size_t i = 0; i < x.progress.size(); ++i) {
				if (x.progress[i] == m.data) {
					x.progress.erase(x.progress.begin() + i);
					ok = true;
					break;
				}
			}
			if (ok) continue;
			for (auto &e : x.mon) {
				if (!e.seen && m.data.size() == 2 && e.id == m.data[0] && e.text == m.data[1]) {
					e.seen = ok = true;
					break;
				}
			}
			if (!ok && !(x.progress_optional))
				bad(T(16) | (x.progress.empty() ? 0 : T(10)), "unexpected monitor message: " + show(m), false);
		}
		for (auto &e : x.mon)
			if (e.must && !e.seen) bad(T(16), "monitor was not told " + e.id + " " + e.text, false);
		if (!x.progress.empty() && !x.progress_optional)
			bad(T(10, 16), "progress message did not reach the monitor unchanged", false);
	}

	void dispatch(const message_container &m, int wi)
	{
		const std::string &id = m.data[1];
		if (wi < 0 || !w[wi].reg) {
			bad(T(3, 7, 17), "job " + id + " sent to a worker that is not registered: " + m.identity, true);
			return;
		}
		int inst = find_inst(id, J_WAIT);
		if (inst < 0) {
			int k = find_any(id);
			if (k < 0) {
				bad(T(1, 3, 10), "unknown job sent to a worker: " + show(m), true);
			} else if (jobs[k].st == J_REJ) {
				bad(T(2, 3), "rejected job sent to a worker: " + show(m), true);
			} else if (jobs[k].st == J_TERM) {
				bad(T(1, 5, 8), "job sent to a worker after its final report: " + show(m), true);
			} else {
				bad(T(4, 1), "job that a worker still holds sent to a worker again: " + show(m), true);
			}
			return;
		}
		Job &j = jobs[inst];
		if (w[wi].held >= 0) {
			bad(T(4, 12), "job " + id + " sent to " + m.identity + ", which still holds " + jobs[w[wi].held].id, true);
			return;
		}
		if (!capable(wi, j.cls)) {
			bad(T(3), "job " + id + " sent to " + m.identity + ", which does not satisfy its headers", true);
			return;
		}
		if ((std::size_t) j.fail_lo >= s.F) {
			bad(T(5), "job " + id + " dispatched again after " + std::to_string(j.fail_lo) + " failed attempts", true);
			return;
		}
		strs want = {"eval", id};
		for (auto &p : s.classes[j.cls].payload) want.push_back(p);
		if (m.data != want) bad(T(10), "job payload changed: " + show(m), false);
		if (!j.moved) {
			if (!s.multi) {
				for (auto &k : jobs)
					if (&k != &j && k.st == J_WAIT && !k.orphan && !k.moved && k.seq < j.seq && capable(wi, k.cls))
						bad(T(11), "job " + id + " sent to " + m.identity + " before the earlier job " + k.id, false);
			} else {
				if (j.seq < w[wi].last_seq)
					bad(T(11), "job " + id + " given to " + m.identity + " after a later job of its queue", false);
			}
			w[wi].last_seq = std::max(w[wi].last_seq, j.seq);
		}
		j.st = J_HELD;
		j.holder = wi;
		j.disp++;
		if ((std::size_t) j.disp > std::max<std::size_t>(s.F, 1) + (std::size_t)(j.fail_hi - j.fail_lo))
			bad(T(5), "job " + id + " dispatched " + std::to_string(j.disp) + " times", false);
		if (j.first_worker < 0) j.first_worker = wi;
		w[wi].held = inst;
	}

	void post()
	{
		if (hard) return;
		// the registry knows exactly the registered identities
		std::map<std::string, int> cnt;
		for (auto &p : registry->get_workers()) cnt[p->identity]++;
		for (std::size_t i = 0; i < w.size(); ++i) {
			int c = cnt.count(wid((int) i)) ? cnt[wid((int) i)] : 0;
			if (w[i].reg && c != 1) {
				bad(T(17, 6), "worker " + wid((int) i) + " has " + std::to_string(c) + " registrations", true);
				return;
			}
			if (!w[i].reg && c != 0) {
				bad(T(17, 6, 7), "worker " + wid((int) i) + " should not be registered", true);
				return;
			}
		}
		for (auto &j : jobs) {
			if (j.st != J_WAIT || j.orphan) continue;
			bool any_idle = false, any_busy = false;
			for (std::size_t i = 0; i < w.size(); ++i) {
				if (!w[i].reg || !capable((int) i, j.cls)) continue;
				(w[i].held < 0 ? any_idle : any_busy) = true;
			}
			if (s.multi) {
				any_busy = false;
				for (std::size_t i = 0; i < w.size(); ++i)
					if ((j.place >> i & 1) && w[i].reg && w[i].held >= 0) any_busy = true;
			}
			if (s.multi ? !any_busy : any_idle) {
				bad(T(12) | (ctx & T(13)), "job " + j.id + " waits although a capable worker is idle", false);
				return;
			}
		}
	}

	void check_no_client(const Out &o)
	{
		if (!o.client.empty()) bad(T(2, 14, 15), "unexpected message to a client: " + show(o.client[0]), false);
	}

	// ------------------------------------------------------------ events
	strs eval_message(int cls, const std::string &id)
	{
		strs m = {"eval", id};
		for (auto &h : s.classes[cls].headers) m.push_back(h);
		m.push_back("");
		for (auto &p : s.classes[cls].payload) m.push_back(p);
		return m;
	}
	std::string eval(int cls, const std::string &id, bool is_frozen)
	{
		ctx = is_frozen ? T(14, 2) : T(2);
		bool idle_cap = false;
		for (std::size_t i = 0; i < w.size(); ++i)
			if (w[i].reg && w[i].held < 0 && capable((int) i, cls)) idle_cap = true;
		Job j;
		j.id = id;
		j.cls = cls;
		std::string client = "client-" + id;
		bool want = !is_frozen && someone_capable(cls);
		Out o = feed(broker_connect::KEY_CLIENTS, client, eval_message(cls, id));
		if (hard) return "";
		// answers
		bool ok = o.client.size() == 2;
		for (auto &m : o.client)
			if (m.identity != client) ok = false;
		bool acc = false;
		if (ok) {
			ok = o.client[0].data.size() == 1 && o.client[0].data[0] == "ack" && !o.client[1].data.empty() &&
				(o.client[1].data[0] == "accept" || o.client[1].data[0] == "reject");
			acc = ok && o.client[1].data[0] == "accept";
		}
		if (!ok) {
			std::string t;
			for (auto &m : o.client) t += show(m) + " ; ";
			bad(T(2), "evaluation request not answered by ack and one accept/reject: " + t, true);
			return "";
		}
		if (acc != want) {
			for (auto &m : o.worker)
				if (windex(m.identity) >= 0 && !m.data.empty() && m.data[0] == "eval" && !capable(windex(m.identity), cls))
					bad(T(3), "job " + id + " sent to a worker that does not satisfy its headers", false);
			bad(T(2), std::string(acc ? "accepted" : "rejected") + " job " + id + " although " +
					(is_frozen ? "frozen" : want ? "a capable worker is registered" : "no capable worker is registered"),
				true);
			return "";
		}
		Expect x;
		j.st = acc ? J_WAIT : J_REJ;
		if (acc) {
			j.seq = ++seqno;
			int mask = cap_mask(cls);
			j.place = mask;
			if (!run_open || mask != run_last_mask) {
				++run_id;
				run_open = true;
				run_last_mask = mask;
			}
			j.run = run_id;
			j.run_n = __builtin_popcount(mask);
		} else if (!is_frozen) {
			x.mon.push_back({id, "FAILED", true, false, false});
		}
		jobs.push_back(j);
		check_outputs(o, x);
		if (hard) return "";
		if (acc && !s.multi && idle_cap && jobs.back().st == J_WAIT)
			bad(T(13, 12), "job " + id + " was not sent to an idle capable worker", false);
		post();
		return acc ? "accept" : "reject";
	}

	void init(int wi, int variant, int decl)
	{
		bool was = w[wi].reg;
		bool same = was && same_announcement(s.variants.at(w[wi].variant), s.variants.at(variant));
		ctx = was ? T(17) : 0;
		const Variant &v = s.variants.at(variant);
		strs m = {"init", v.hwgroup};
		for (auto &h : v.headers) m.push_back(h);
		std::string did;
		int zombie = w[wi].zombie, held = w[wi].held;
		if (decl == 1) { // ids are opaque: a plain one, and a long one with characters that mean something elsewhere
			did = s.multi ? "foreign=" + std::string(300, 'x') + " \n" + std::to_string(foreign) : "foreign" + std::to_string(foreign);
			++foreign;
		}
		if (decl == 2 && zombie >= 0) did = jobs[zombie].id;
		if (decl == 3 && held >= 0) did = jobs[held].id;
		m.push_back("");
		m.push_back("description=box " + std::to_string(wi));
		if (!did.empty()) m.push_back("current_job=" + did);
		Out o = feed(broker_connect::KEY_WORKERS, wid(wi), m);
		heard(wi);
		if (hard) return;
		check_no_client(o);
		Expect x;
		if (same) w[wi].variant = variant;
		if (!same) {
			run_open = false;
			w[wi].seen = w[wi].reg = true;
			w[wi].variant = variant;
			w[wi].zombie = -1;
			w[wi].last_seq = -1;
			int keep = -1;
			if (was) {
				x.errors = 1;
				w[wi].held = -1;
				if (held >= 0) {
					if (decl == 3) {
						keep = held;
						jobs[held].fail_hi++;
						jobs[held].moved = true;
					} else if (jobs[held].orphan) {
						expect_failed(x, held, T(17, 1), "", 2);
					} else {
						jobs[held].fail_hi++;
						release(x, o, held, T(17), "", true, true);
					}
				}
				for (auto &j : jobs)
					if (j.st == J_WAIT && s.multi) {
						j.moved = true;
						j.place |= cap_mask(j.cls);
						x.mon.push_back({j.id, "ABORTED", false, false, false});
					}
				orphaned_waiting(x, T(17), nullptr);
			}
			if (keep >= 0) {
				w[wi].held = keep;
			} else if (!did.empty()) {
				Job j;
				j.id = did;
				j.orphan = true;
				j.st = J_HELD;
				j.holder = wi;
				j.fail_lo = 0;
				jobs.push_back(j);
				w[wi].held = (int) jobs.size() - 1;
			}
		} else {
			if (!o.worker.empty() || !o.notifier.empty() || !o.monitor.empty()) {
				bad(T(17), "repeating the same init caused traffic", true);
				return;
			}
		}
		check_outputs(o, x);
		post();
	}

	void done(int wi, int st)
	{
		ctx = T(26, 8) | (st == 2 ? T(5) : 0);
		int h = w[wi].held;
		std::string reason = "because-" + std::to_string(wi) + "-" + jobs[h].id + " {} %s \"\xc5\x99\" &=\n" + std::string(wi == 1 ? 4200 : 300, 'y') + std::string("\0.", 2);
		if (w[wi].empty_reasons || (st == 1 && jobs[h].disp % 2 == 0)) reason = "";
		strs m = {"done", jobs[h].id, STATUS[st]};
		if (st) m.push_back(reason);
		else if (wi % 2) m.push_back(wi == 1 ? "" : "fine"); // workers may explain success, too
		Out o = feed(broker_connect::KEY_WORKERS, wid(wi), m);
		heard(wi);
		if (hard) return;
		check_no_client(o);
		Expect x;
		w[wi].held = -1;
		Job &j = jobs[h];
		if (st == 0) {
			evaluated++;
			terminal(h);
			x.reports.push_back({h, "OK", "", T(1, 26), false});
		} else if (st == 1) {
			failed++;
			j.fail_lo++;
			j.fail_hi++;
			terminal(h);
			x.reports.push_back({h, "FAILED", reason, T(1, 5, 26), false});
		} else {
			failed++;
			j.fail_lo++;
			j.fail_hi++;
			run_open = false;
			if (j.orphan) expect_failed(x, h, T(26, 1), reason, 2);
			else release(x, o, h, T(5), reason, false, false);
		}
		check_outputs(o, x);
		post();
	}

	std::string almost(int wi, int how) const
	{
		std::string id = w[wi].held >= 0 ? jobs[w[wi].held].id : "x";
		if (how == 253 || id.empty()) return id + std::string("\0x", 2);
		id[0] ^= 32;
		return id;
	}
	void stale(int wi, const std::string &id, int st)
	{
		ctx = T(8);
		static const char *ALMOST[] = {"FAIL", "ok", "OK ", "INTERNAL_ERRORS", "FAILED_", ""};
		strs m = {"done", id, st >= 9 && st < 15 ? ALMOST[st - 9] : STATUS[st < 4 ? st : st < 6 ? 1 : 2]};
		switch (st) {
		case 0: break;
		case 4: case 6: break; // the explanation is missing
		case 5: case 7: m.insert(m.end(), {"one", "two"}); break;
		case 8: m.pop_back(); break;
		case 15: m = {"done", id, "ok"}; break;
		case 16: m = {"done", ""}; break;
		default: m.push_back("stale");
		}
		Out o = feed(broker_connect::KEY_WORKERS, wid(wi), m);
		heard(wi);
		if (hard) return;
		if (!o.worker.empty() || !o.notifier.empty() || !o.monitor.empty() || !o.client.empty()) {
			bad(T(8), "a malformed completion or one from a worker that does not hold the job had an effect", true);
			return;
		}
		post();
	}

	void ping(int wi)
	{
		ctx = T(17);
		Out o = feed(broker_connect::KEY_WORKERS, wid(wi), wi == 1 ? strs{"ping", "extra"} : strs{"ping"});
		heard(wi);
		if (hard) return;
		check_no_client(o);
		const char *want = w[wi].reg ? "pong" : "intro";
		if (o.worker.size() != 1 || o.worker[0].identity != wid(wi) || o.worker[0].data != strs{want})
			bad(T(17) | (w[wi].reg ? T(6) : T(6, 7)), "ping of " + wid(wi) + " not answered by " + want, false);
		Expect x;
		x.ping = true;
		check_outputs(o, x);
		post();
	}

	void progress(int wi, int kind)
	{
		ctx = T(10, 16);
		static const strs many = [] {
			strs r(40, "frame");
			r[7] = std::string(70000, 'z');
			return r;
		}();
		static const std::vector<strs> args = {{"job-x", "TASK", "t1", "COMPLETED"}, {"j", ""}, {"", std::string("\x00\xff=|", 4), ""},
			{"only"}, {"j0", "FAILED"}, {""}, many, {"done", "job", "OK"}, {"", "a", "", "b", "", ""}};
		strs m = {"progress"};
		strs a = args.at(kind % args.size());
		if (kind == 4 && w[wi].held >= 0) a[0] = jobs[w[wi].held].id;
		m.insert(m.end(), a.begin(), a.end());
		Out o = feed(broker_connect::KEY_WORKERS, wid(wi), m);
		heard(wi);
		if (hard) return;
		check_no_client(o);
		Expect x;
		x.progress.push_back(a);
		x.progress_optional = !w[wi].reg;
		check_outputs(o, x);
		post();
	}

	// any message of a worker; nothing may come of it (except the monitor copy of a progress message)
	void touch(int wi, int kind)
	{
		ctx = T(6);
		switch (kind) {
		case 0: progress(wi, 0); return;
		case 1: stale(wi, "no-such-job", 0); return;
		case 2:
			if (w[wi].reg) init(wi, w[wi].variant, 0);
			return;
		case 3: {
			Out o = feed(broker_connect::KEY_WORKERS, wid(wi), {"hello"});
			heard(wi);
			return;
		}
		case 4: {
			Out o = feed(broker_connect::KEY_WORKERS, wid(wi), {"done"});
			heard(wi);
			return;
		}
		}
	}

	void tick(long ms)
	{
		vclock::advance(ms * 1000);
		Out o = feed(broker_connect::KEY_TIMER, "", {std::to_string(ms)});
		if (hard) return;
		ctx = 0;
		check_no_client(o);
		Expect x;
		std::vector<int> dropped;
		std::size_t need = std::max<std::size_t>(s.L, 1);
		for (std::size_t i = 0; i < w.size(); ++i) {
			if (!w[i].reg) continue;
			w[i].silent += ms;
			w[i].acc += ms;
			if (w[i].acc > s.interval) {
				w[i].acc = 0;
				w[i].units++;
			}
			bool must = w[i].units >= need;
			bool may = w[i].silent >= (long) s.L * s.interval;
			bool gone = registry->find_worker_by_identity(wid((int) i)) == nullptr;
			if (must && !gone) {
				bad(T(6, 7, 1), "worker " + wid((int) i) + " silent for " + std::to_string(w[i].silent) + " ms is still registered",
					true);
				return;
			}
			if (gone && !may) {
				bad(T(6, 7), "worker " + wid((int) i) + " dropped after only " + std::to_string(w[i].silent) + " ms of silence", true);
				return;
			}
			if (gone) dropped.push_back((int) i);
		}
		int dmask = 0;
		for (int d : dropped) {
			dmask |= 1 << d;
			ctx |= T(7);
		}
		if (!dropped.empty()) {
			run_open = false;
			if (s.multi) {
				int surviving = 0;
				for (std::size_t i = 0; i < w.size(); ++i)
					if (w[i].reg && !(dmask >> i & 1)) surviving |= 1 << i;
				for (auto &j : jobs) {
					if (j.st != J_WAIT || j.orphan || !(j.place & dmask)) continue;
					int heirs = cap_mask(j.cls) & surviving;
					bool sure = !(j.place & ~dmask); // it was waiting for one of the dropped workers
					bool told = out_has_aborted(o, j.id);
					if (!sure && !told) { // so it waits for another one
						j.place &= ~dmask;
						continue;
					}
					j.moved = true;
					j.place = heirs;
					if (heirs) x.mon.push_back({j.id, "ABORTED", true, false, false});
				}
			}
			for (int d : dropped) w[d].reg = false;
			// first the fate of waiting jobs (their survivors), then the held ones
			orphaned_waiting(x, T(7), nullptr);
			for (int d : dropped) {
				int h = w[d].held;
				w[d].held = -1;
				w[d].zombie = h;
				if (h < 0) continue;
				jobs[h].fail_lo++;
				jobs[h].fail_hi++;
				if (jobs[h].orphan) {
					expect_failed(x, h, T(7, 26), "", 1);
				} else {
					release(x, o, h, T(7), "", true, false);
				}
			}
			for (int d : dropped) w[d].variant = -1;
		}
		check_outputs(o, x);
		post();
		if (s.key_stats && !hard) stats(true); // the gauges are right after each timer message
	}

	void expire(int mask)
	{
		// with a grace of one interval the others have to be heard within it
		std::size_t parts = s.L > 1 ? 1 : 2;
		for (std::size_t n = 0; n < std::max<std::size_t>(s.L, 1) * parts && !hard; ++n) {
			for (std::size_t i = 0; i < w.size() && !hard; ++i)
				if (w[i].reg && !(mask >> i & 1)) ping((int) i);
			if (!hard) tick(parts == 1 ? s.interval + 1 : s.interval / 2 + 1);
		}
		for (std::size_t i = 0; i < w.size() && !hard; ++i)
			if (w[i].reg) ping((int) i);
	}

	void freeze(bool on)
	{
		ctx = T(14);
		Out o = feed(broker_connect::KEY_CLIENTS, "admin", {on ? "freeze" : "unfreeze"});
		if (hard) return;
		frozen = on;
		if (o.client.size() != 1 || o.client[0].identity != "admin" || o.client[0].data != strs{"ack"})
			bad(T(14), std::string(on ? "freeze" : "unfreeze") + " was not acknowledged", false);
		Expect x;
		check_outputs(o, x);
		post();
	}

	void stats(bool gauges)
	{
		ctx = T(15);
		Out o = feed(broker_connect::KEY_CLIENTS, "stat", jobs.size() % 2 ? strs{"get-runtime-stats", "extra", ""} : strs{"get-runtime-stats"});
		if (hard) return;
		if (o.client.size() != 1 || o.client[0].identity != "stat" || o.client[0].data.size() % 2) {
			bad(T(15), "statistics request not answered by one list of pairs", false);
			return;
		}
		std::map<std::string, std::string> kv;
		bool dup = false;
		for (std::size_t k = 0; k + 1 < o.client[0].data.size(); k += 2)
			if (!kv.emplace(o.client[0].data[k], o.client[0].data[k + 1]).second) dup = true;
		if (dup) bad(T(15), "duplicate statistics key", false);
		auto want = [&](const char *k, long v) {
			auto it = kv.find(k);
			if (it == kv.end()) bad(T(15), std::string("statistics lack ") + k, false);
			else if (v >= 0 && it->second != std::to_string(v))
				bad(T(15), std::string("statistic ") + k + " is " + it->second + ", not " + std::to_string(v), false);
		};
		long reg = 0, busy = 0, waiting = 0;
		for (auto &x : w) {
			reg += x.reg;
			busy += x.reg && x.held >= 0;
		}
		for (auto &j : jobs) waiting += j.st == J_WAIT;
		want("evaluated-jobs", evaluated);
		want("failed-jobs", failed);
		want("is-frozen", frozen);
		want("worker-count", gauges ? reg : -1);
		want("idle-worker-count", gauges ? reg - busy : -1);
		want("jobs-in-progress", gauges ? busy : -1);
		want("queued-jobs", gauges ? waiting : -1);
		if (kv.size() != 7) bad(T(15), "statistics do not have the fixed set of keys", false);
		Expect x;
		check_outputs(o, x);
		post();
	}

	void clock(int kind)
	{
		static const std::int64_t d[] = {1000, 0, -3600000000ll, 7200000000ll, 300};
		if (kind == 2 || kind == 3) vclock::wall_us += d[kind];
		else vclock::advance(d[kind]);
	}

	void apply(const Ev &e)
	{
		if (hard) return;
		switch (e.k) {
		case INIT: init(e.a, e.b, e.c); break;
		case EVAL: eval(e.a, e.c ? jobs.at(e.c - 1).id : jid(e.b), false); jobno = std::max(jobno, e.b + 1); break;
		case DONE: if (w[e.a].held >= 0) done(e.a, e.b); break;
		case STALE: stale(e.a, e.b == 255 ? "nojob" : e.b == 254 ? "" : e.b >= 252 ? almost(e.a, e.b) : jobs.at(e.b).id, e.c); break;
		case PING: ping(e.a); break;
		case TOUCH: touch(e.a, e.b); break;
		case TICK: tick(s.ticks.at(e.a)); break;
		case EXPIRE: expire(e.a); break;
		case FREEZE: freeze(true); break;
		case UNFREEZE: freeze(false); break;
		case FEVAL: eval(e.a, "frozen" + std::to_string(fjobno++), true); jobs.pop_back(); break;
		case STATS: stats(false); break;
		case PROGRESS: progress(e.a, e.b); break;
		case CLOCK: clock(e.a); break;
		}
	}

	// ------------------------------------------------------------ enabled events
	void enabled(const History &hist, std::vector<Ev> &out) const
	{
		int cnt[NKINDS] = {0};
		int reinits = 0;
		for (auto &e : hist) cnt[e.k]++;
		for (auto &e : hist)
			if (e.k == INIT && (e.c & 0x80)) reinits++;
		auto on = [&](int k) { return (s.kinds >> k & 1) && (s.budget[k] == 0 || cnt[k] < s.budget[k]); };
		int nw = (int) s.wvariants.size();
		if (on(INIT)) {
			for (int i = 0; i < nw; ++i) {
				if (!w[i].seen) { // break the symmetry of not yet seen workers with the same options
					bool skip = false;
					for (int k = 0; k < i; ++k)
						if (!w[k].seen && s.wvariants[k] == s.wvariants[i]) skip = true;
					if (skip) continue;
				}
				for (int v : s.wvariants[i]) {
					auto b = (std::uint8_t) v;
					if (!w[i].reg) {
						out.push_back({INIT, (std::uint8_t) i, b, 0});
						if (s.decl_foreign && foreign == 0) out.push_back({INIT, (std::uint8_t) i, b, 1});
						if (s.decl_zombie && w[i].zombie >= 0) out.push_back({INIT, (std::uint8_t) i, b, 2});
					} else if (count_reinits(hist) < s.total_reinit) {
						out.push_back({INIT, (std::uint8_t) i, b, 0});
						if (s.decl_held && w[i].held >= 0) out.push_back({INIT, (std::uint8_t) i, b, 3});
						if (s.decl_foreign && foreign == 0 && v != w[i].variant)
							out.push_back({INIT, (std::uint8_t) i, b, 1});
					}
				}
			}
		}
		if (on(EVAL) && !frozen && jobno < s.max_jobs)
			for (int c : s.use_classes) {
				out.push_back({EVAL, (std::uint8_t) c, (std::uint8_t) jobno, 0});
				int used = 0;
				for (auto &e : hist) used += e.k == EVAL && e.c;
				for (std::size_t k = 0; k < jobs.size() && used < s.reuse; ++k)
					if (!jobs[k].orphan && (int) k == find_any(jobs[k].id) && (jobs[k].st == J_TERM || jobs[k].st == J_REJ))
						out.push_back({EVAL, (std::uint8_t) c, (std::uint8_t) jobno, (std::uint8_t) (k + 1)});
			}
		if (on(FEVAL) && frozen)
			for (int c : s.use_classes) out.push_back({FEVAL, (std::uint8_t) c, 0, 0});
		if (on(DONE))
			for (int i = 0; i < nw; ++i)
				if (w[i].reg && w[i].held >= 0)
					for (int st : s.statuses) out.push_back({DONE, (std::uint8_t) i, (std::uint8_t) st, 0});
		if (on(STALE))
			for (int i = 0; i < nw; ++i) {
				if (!w[i].seen && i > 0) continue;
				std::set<std::string> ids;
				for (int st = 0; st < 3; ++st) {
					if (!(s.stale_status_mask >> st & 1)) continue;
					ids.clear();
					for (std::size_t k = 0; k < jobs.size(); ++k) {
						if (w[i].reg && w[i].held >= 0 && jobs[w[i].held].id == jobs[k].id) continue;
						if (ids.insert(jobs[k].id).second)
							out.push_back({STALE, (std::uint8_t) i, (std::uint8_t) k, (std::uint8_t) st});
					}
					if (st == 0) out.push_back({STALE, (std::uint8_t) i, 255, 0});
					if ((!w[i].reg || w[i].held < 0 || jobs[w[i].held].id != "")) out.push_back({STALE, (std::uint8_t) i, 254, (std::uint8_t) st});
					if (st == 0 && w[i].reg && w[i].held >= 0) // malformed ones for the right job
						for (int x = 3; x <= (s.stale_status_mask & 8 ? 16 : 8); ++x) out.push_back({STALE, (std::uint8_t) i, (std::uint8_t) w[i].held, (std::uint8_t) x});
				}
				if (s.stale_status_mask & 8 && w[i].reg && w[i].held >= 0)
					for (int b : {252, 253})
						for (int st : {0, 2}) out.push_back({STALE, (std::uint8_t) i, (std::uint8_t) b, (std::uint8_t) st});
			}
		if (on(PING))
			for (int i = 0; i < nw; ++i) out.push_back({PING, (std::uint8_t) i, 0, 0});
		if (on(TOUCH))
			for (int i = 0; i < nw; ++i)
				if (w[i].reg)
					for (int k = 0; k < 5; ++k) out.push_back({TOUCH, (std::uint8_t) i, (std::uint8_t) k, 0});
		if (on(TICK))
			for (std::size_t i = 0; i < s.ticks.size(); ++i) out.push_back({TICK, (std::uint8_t) i, 0, 0});
		if (on(EXPIRE)) {
			int reg = 0;
			for (int i = 0; i < nw; ++i)
				if (w[i].reg) reg |= 1 << i;
			for (int m = 1; m < (1 << nw); ++m) {
				if ((m & reg) != m) continue;
				if (!s.expire_masks.empty() &&
					std::find(s.expire_masks.begin(), s.expire_masks.end(), m) == s.expire_masks.end())
					continue;
				out.push_back({EXPIRE, (std::uint8_t) m, 0, 0});
			}
		}
		if (on(FREEZE)) out.push_back({FREEZE, 0, 0, 0});
		if (on(UNFREEZE)) out.push_back({UNFREEZE, 0, 0, 0});
		if (on(STATS)) out.push_back({STATS, 0, 0, 0});
		if (on(PROGRESS))
			for (int i = 0; i < nw; ++i)
				if (w[i].seen)
					for (int k = 0; k < 9; ++k) out.push_back({PROGRESS, (std::uint8_t) i, (std::uint8_t) k, 0});
		if (on(CLOCK))
			for (int k : {0, 2}) out.push_back({CLOCK, (std::uint8_t) k, 0, 0});
	}
	int count_reinits(const History &h) const
	{
		// an INIT of a worker that was registered at that time; recomputed from the facts below
		(void) h;
		return reinit_count;
	}
	int reinit_count = 0;
	void apply_counted(const Ev &e)
	{
		if (e.k == INIT && w[e.a].reg) reinit_count++;
		apply(e);
	}

	// ------------------------------------------------------------ facts
	std::string facts() const
	{
		std::string f;
		auto num = [&](long v) {
			f += std::to_string(v);
			f += ',';
		};
		num(frozen);
		num(reinit_count);
		num(foreign);
		num(jobno);
		for (auto &x : w) {
			num(x.reg);
			num(x.seen);
			if (x.reg) {
				num(x.variant);
				num(x.held);
				num(x.silent);
				num(x.acc);
				num((long) x.units);
			} else {
				num(x.zombie);
			}
		}
		for (auto &j : jobs) {
			f += j.orphan ? 'o' : 'j';
			if (j.orphan || s.reuse) f += j.id;
			num(j.cls);
			num(j.st);
			if (j.st == J_WAIT || j.st == J_HELD) {
				num(j.fail_lo);
				num(j.fail_hi);
				num(j.disp);
				num(j.holder);
				num(j.moved);
				if (s.multi) num(j.place);
				if (s.key_runs) {
					num(j.run);
					num(j.first_worker);
				}
			} else if (s.key_runs) {
				num(j.run);
				num(j.first_worker);
			}
		}
		if (s.key_runs) num(run_open ? run_id : -1);
		if (s.multi)
			for (auto &x : w) num(x.reg ? x.last_seq : -9);
		if (s.key_stats) {
			num(evaluated);
			num(failed);
		}
		if (s.key_order) {
			num((long) (vclock::wall_us - vclock::mono_us));
			num((long) vclock::mono_us);
		}
		return f;
	}

	// ------------------------------------------------------------ probes
	void drain(int st)
	{
		if (st == 2)
			for (auto &x : w) x.empty_reasons = true;
		for (int n = 0; n < 400 && !hard; ++n) {
			bool any = false;
			for (std::size_t i = 0; i < w.size() && !hard; ++i) {
				if (w[i].reg && w[i].held >= 0) {
					done((int) i, st);
					any = true;
				}
			}
			if (!any) return;
		}
		if (!hard) bad(T(5, 1), "jobs never come to an end", true);
	}
	void all_terminal(tagset t)
	{
		if (hard) return;
		for (auto &j : jobs) {
			if (j.orphan) continue;
			if (j.st == J_WAIT || j.st == J_HELD) {
				bad(t | T(1), "job " + j.id + " was accepted but never gets a final report", true);
				return;
			}
		}
	}
	void service(int n)
	{
		// a fresh universal worker and jobs: the broker still works
		int p = (int) s.wvariants.size();
		if (hard) return;
		if (frozen) freeze(false);
		if (!hard) init(p, (int) s.variants.size() - 1, 0);
		for (int k = 0; k < n && !hard; ++k) {
			std::string r = eval(0, "probe" + std::to_string(k), false);
			if (!hard && r != "accept") bad(T(2, 14, 17), "a job for a fresh capable worker is not accepted", true);
		}
		drain(0);
		all_terminal(T(12));
	}
	// diff: 0 normal; 1 unfreeze first (not part of the trace); 2 nothing that depends on the freeze state itself
	void probe(int kind, int diff = 0)
	{
		if (diff == 1) {
			hashing = false;
			freeze(false);
			evaluated = failed = 0;
		}
		hashing = true;
		bool st = diff != 2;
		switch (kind) {
		case 0:
			if (diff == 0) {
				stats(false);
				if (!hard) tick(0);
				if (!hard) stats(true);
			}
			drain(0);
			all_terminal(T(12));
			if (diff == 0) {
				if (!hard) tick(0);
				if (!hard) stats(true);
				if (!hard) check_runs();
			}
			if (st) service(3);
			break;
		case 1:
			drain(2);
			all_terminal(T(5, 12));
			break;
		case 2:
			if (s.kinds >> TICK & 1 && s.L <= 8) { // in small steps, which reveals how long each worker has left
				for (std::size_t n = 0; n < 8 * std::max<std::size_t>(s.L, 1) && !hard; ++n) tick(s.interval / 6 + 1);
			} else {
				for (std::size_t i = 0; i + 1 < w.size() && !hard; ++i)
					if (w[i].reg) ping((int) i);
				for (std::size_t n = 0; n < std::max<std::size_t>(s.L, 1) && !hard; ++n) tick(s.interval + 1);
			}
			all_terminal(T(7));
			for (std::size_t i = 0; i + 1 < w.size() && !hard; ++i) ping((int) i);
			if (!hard && st) eval(0, "late", frozen);
			if (st) service(1);
			break;
		}
		hashing = false;
	}
	void check_runs()
	{
		if (!s.multi) return;
		std::map<int, std::vector<const Job *>> runs;
		for (auto &j : jobs)
			if (j.run >= 0) runs[j.run].push_back(&j);
		for (auto &r : runs) {
			auto &v = r.second;
			std::size_t n = (std::size_t) v[0]->run_n;
			for (std::size_t i = 0; i + n <= v.size(); ++i) {
				std::set<int> ws;
				bool skip = false;
				for (std::size_t k = i; k < i + n; ++k) {
					if (v[k]->moved || v[k]->first_worker < 0) skip = true;
					ws.insert(v[k]->first_worker);
				}
				if (!skip && ws.size() != n) {
					bad(T(13), "of " + std::to_string(n) + " consecutive submissions from " + v[i]->id +
							" on, some worker got more than one", false);
					return;
				}
			}
		}
	}
};

inline std::string show(const Ev &e)
{
	static const char *names[] = {"INIT", "EVAL", "DONE", "STALE", "PING", "TOUCH", "TICK", "EXPIRE", "FREEZE", "UNFREEZE",
		"FEVAL", "STATS", "PROGRESS", "CLOCK"};
	return std::string(names[e.k]) + "(" + std::to_string(e.a) + "," + std::to_string(e.b) + "," + std::to_string(e.c) + ")";
}
