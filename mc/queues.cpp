// C27: both queue managers driven through their interface by every sequence of operations up to a depth.
// Each sequence is executed from scratch on the real manager next to a model that accounts for every request; afterwards
// the manager is drained, which reveals the contents of its queues.
#define VERIF_VCLOCK
#include "vclock.h"
#include "par.h"
#include "report.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include <algorithm>
#include <set>

namespace
{
	using Seq = std::vector<std::uint8_t>;
	struct Scn {
		std::string name;
		bool multi;
		int workers; // how many different worker identities
		int types; // request types used
		int prefill; // number of leading enqueue operations with cycling types (after registering all workers busy)
		int depth;
		int step_us; // passing of time between two operations
	};
	enum { ADD = 0, ADDBUSY = 3, ENQ = 6, FIN = 10, CAN = 13, ASS = 16, TER = 19, REQ = 22, NOPS = 23 };

	std::string op_name(int o)
	{
		static const char *wn[] = {"W0{e=a}", "W1{e=a,e=b}", "W2{e=b,g2}"};
		static const char *tn[] = {"{}", "{e=a}", "{e=b}", "{e=a,e=b}"};
		if (o < ADDBUSY) return std::string("add(") + wn[o - ADD] + ")";
		if (o < ENQ) return std::string("add_busy(") + wn[o - ADDBUSY] + ")";
		if (o < FIN) return std::string("enqueue") + tn[o - ENQ];
		if (o < CAN) return "finished(W" + std::to_string(o - FIN) + ")";
		if (o < ASS) return "cancelled(W" + std::to_string(o - CAN) + ")";
		if (o < TER) return "assign(W" + std::to_string(o - ASS) + ")";
		if (o < REQ) return "terminated(W" + std::to_string(o - TER) + ")";
		return "enqueue_again(oldest handed back)";
	}
	std::string seq_name(const Seq &s)
	{
		std::string r;
		for (auto o : s) r += (r.empty() ? "" : " ") + op_name(o);
		return r;
	}
	bool capable(int w, int t)
	{
		bool a = w == 0 || w == 1, b = w == 1 || w == 2;
		return t == 0 ? true : t == 1 ? a : t == 2 ? b : a && b;
	}
	struct Bad {
		std::string what;
	};
	struct Sim {
		const Scn &s;
		std::unique_ptr<queue_manager_interface> m;
		worker_ptr w[3];
		request_ptr cur[3];
		std::vector<request_ptr> waiting; // in order of arrival
		std::vector<request_ptr> handed; // given back to the caller, may be enqueued again
		std::map<request_ptr, int> type;
		int next_id = 0;
		explicit Sim(const Scn &s) : s(s)
		{
			vclock::reset();
			if (s.multi) m.reset(new multi_queue_manager());
			else m.reset(new single_queue_manager<>());
		}
		std::string rn(const request_ptr &r) const { return r ? (type.count(r) ? r->data.get_job_id() : "an unknown request") : "nothing"; }
		request_ptr make(int t, bool complete = true)
		{
			request::headers_t h;
			if (t & 1) h.emplace("e", "a");
			if (t & 2) h.emplace("e", "b");
			std::string id = "r" + std::to_string(next_id++);
			auto r = complete ? std::make_shared<request>(h, request::metadata_t(), job_request_data(id, {"x"})) : std::make_shared<request>(h, request::metadata_t(), job_request_data(id));
			type[r] = t;
			return r;
		}
		worker_ptr make_worker(int k)
		{
			std::multimap<std::string, std::string> h;
			if (k != 2) h.emplace("e", "a");
			if (k != 0) h.emplace("e", "b");
			return std::make_shared<worker>("w" + std::to_string(k), k == 2 ? "g2" : "g1", h);
		}
		bool any_capable(int t) const
		{
			for (int k = 0; k < 3; ++k)
				if (w[k] && capable(k, t)) return true;
			return false;
		}
		void took(int k, const request_ptr &r, const char *how)
		{
			if (!r) return;
			auto it = std::find(waiting.begin(), waiting.end(), r);
			if (it == waiting.end()) throw Bad{std::string(how) + " gave worker W" + std::to_string(k) + " " + rn(r) + ", which is not waiting"};
			if (!capable(k, type[r])) throw Bad{std::string(how) + " gave worker W" + std::to_string(k) + " " + rn(r) + ", which it cannot serve"};
			waiting.erase(it);
			cur[k] = r;
		}
		void enqueue(const request_ptr &r)
		{
			auto res = m->enqueue_request(r);
			bool can = any_capable(type[r]);
			if (res.enqueued != can) throw Bad{"enqueue_request(" + rn(r) + ") reported " + (res.enqueued ? "success" : "failure") + " although " + (can ? "a" : "no") + " capable worker is registered"};
			if (res.assigned_to) {
				int k = -1;
				for (int i = 0; i < 3; ++i)
					if (w[i] == res.assigned_to) k = i;
				if (k < 0) throw Bad{"enqueue_request(" + rn(r) + ") assigned it to a worker that is not registered"};
				if (!res.enqueued) throw Bad{"enqueue_request assigned a request it did not enqueue"};
				if (cur[k]) throw Bad{"enqueue_request(" + rn(r) + ") assigned it to W" + std::to_string(k) + ", which holds " + rn(cur[k])};
				if (!capable(k, type[r])) throw Bad{"enqueue_request(" + rn(r) + ") assigned it to W" + std::to_string(k) + ", which cannot serve it"};
				cur[k] = r;
			} else if (can) {
				waiting.push_back(r);
			} else {
				handed.push_back(r);
			}
		}
		bool enabled(int o) const
		{
			int k = o < ENQ ? o % 3 : o < FIN ? -1 : o < REQ ? (o - FIN) % 3 : -1;
			if (k >= s.workers) return false;
			if (o < ENQ) return !w[k];
			if (o < FIN) return o - ENQ < s.types;
			if (o < CAN) return w[k] && cur[k];
			if (o < ASS) return (bool) w[k]; // an idle worker has nothing to cancel
			if (o < TER) return w[k] && !cur[k];
			if (o < REQ) return (bool) w[k];
			return !handed.empty();
		}
		// own: what a drain of the queues of the worker revealed, if known (multi queue)
		void step(int o, const std::set<std::string> *own = nullptr)
		{
			vclock::advance(s.step_us);
			if (o < ADDBUSY) {
				int k = o - ADD;
				w[k] = make_worker(k);
				took(k, m->add_worker(w[k]), "add_worker");
			} else if (o < ENQ) {
				int k = o - ADDBUSY;
				w[k] = make_worker(k);
				auto r = make(0, false); // as announced by a worker: only its id is known
				cur[k] = r;
				auto x = m->add_worker(w[k], r);
				if (x) throw Bad{"add_worker with a current request returned " + rn(x)};
			} else if (o < FIN) {
				enqueue(make(o - ENQ));
			} else if (o < CAN) {
				int k = o - FIN;
				cur[k] = nullptr;
				took(k, m->worker_finished(w[k]), "worker_finished");
			} else if (o < ASS) {
				int k = o - CAN;
				auto r = m->worker_cancelled(w[k]);
				if (r != cur[k]) throw Bad{"worker_cancelled(W" + std::to_string(k) + ") returned " + rn(r) + " instead of " + rn(cur[k])};
				cur[k] = nullptr;
				if (r) handed.push_back(r);
			} else if (o < TER) {
				int k = o - ASS;
				took(k, m->assign_request(w[k]), "assign_request");
			} else if (o < REQ) {
				int k = o - TER;
				auto list = m->worker_terminated(w[k]);
				w[k] = nullptr;
				std::multiset<request_ptr> got(list->begin(), list->end());
				for (auto &r : got) {
					if (got.count(r) > 1) throw Bad{"worker_terminated returned " + rn(r) + " twice"};
					if (r != cur[k] && std::find(waiting.begin(), waiting.end(), r) == waiting.end())
						throw Bad{"worker_terminated(W" + std::to_string(k) + ") returned " + rn(r) + ", which was neither its current request nor waiting"};
				}
				if (cur[k] && !got.count(cur[k])) throw Bad{"worker_terminated(W" + std::to_string(k) + ") did not return its current request " + rn(cur[k])};
				for (auto &r : waiting) {
					bool must = s.multi ? (own && own->count(r->data.get_job_id())) : !any_capable(type[r]);
					if (s.multi && !own) continue;
					if (must != (got.count(r) > 0))
						throw Bad{"worker_terminated(W" + std::to_string(k) + ") " + (must ? "did not return " : "returned ") + rn(r) + (must ? ", which lost its queue" : ", which still has a queue")};
				}
				for (auto &r : *list) {
					handed.push_back(r);
					auto it = std::find(waiting.begin(), waiting.end(), r);
					if (it != waiting.end()) waiting.erase(it);
				}
				cur[k] = nullptr;
			} else {
				auto r = handed.front();
				handed.erase(handed.begin());
				enqueue(r);
			}
			state_check();
		}
		void state_check()
		{
			if (m->get_queued_request_count() != waiting.size())
				throw Bad{"get_queued_request_count() is " + std::to_string(m->get_queued_request_count()) + ", but " + std::to_string(waiting.size()) + " requests are waiting"};
			for (int k = 0; k < 3; ++k)
				if (w[k] && m->get_current_request(w[k]) != cur[k])
					throw Bad{"get_current_request(W" + std::to_string(k) + ") is " + rn(m->get_current_request(w[k])) + " instead of " + rn(cur[k])};
		}
		// every waiting request must come out of the queues
		void drain(std::vector<std::set<std::string>> *own)
		{
			if (own) own->assign(3, {});
			for (int k = 0; k < 3; ++k) {
				if (!w[k]) continue;
				for (std::size_t guard = waiting.size() + 1;; --guard) {
					cur[k] = nullptr;
					request_ptr r = m->worker_finished(w[k]);
					took(k, r, "worker_finished (drain)");
					if (!r) break;
					if (own) (*own)[k].insert(r->data.get_job_id());
					if (!guard) throw Bad{"draining the queues does not end"};
				}
			}
			if (!waiting.empty()) throw Bad{"request " + rn(waiting[0]) + " is waiting, but no worker ever gets it"};
			state_check();
		}
	};
	std::vector<int> prefix_ops(const Scn &s)
	{
		std::vector<int> r;
		if (s.prefill) {
			for (int k = 0; k < s.workers; ++k) r.push_back(ADDBUSY + k);
			for (int i = 0; i < s.prefill; ++i) r.push_back(ENQ + i % s.types);
		}
		return r;
	}
	// returns "" or the violation; fills the operations enabled afterwards
	std::string execute_here(const Scn &s, const Seq &q, std::vector<int> *next, std::vector<std::set<std::string>> *own_out, const std::set<std::string> *own_last)
	{
		Sim sim(s);
		std::size_t i = 0;
		try {
			for (auto o : prefix_ops(s)) sim.step(o);
			for (; i < q.size(); ++i) {
				if (!sim.enabled(q[i])) return "";
				sim.step(q[i], i + 1 == q.size() ? own_last : nullptr);
			}
			if (next)
				for (int o = 0; o < NOPS; ++o)
					if (sim.enabled(o)) next->push_back(o);
			sim.drain(own_out);
		} catch (const Bad &b) {
			return b.what;
		} catch (const std::exception &e) {
			return std::string("exception: ") + e.what();
		}
		return "";
	}
	std::string execute(const Scn &s, const Seq &q, std::vector<int> *next, std::vector<std::set<std::string>> *own_out, const std::set<std::string> *own_last)
	{
		if (!par::isolate) return execute_here(s, q, next, own_out, own_last);
		auto o = par::call([&] {
			auto t = execute_here(s, q, next, own_out, own_last);
			std::string r;
			auto num = [&](std::uint64_t v) { r.append((char *) &v, 8); };
			auto str = [&](const std::string &x) {
				num(x.size());
				r += x;
			};
			str(t);
			num(next ? next->size() : 0);
			if (next)
				for (int x : *next) num((std::uint64_t) x);
			num(own_out ? own_out->size() : 0);
			if (own_out)
				for (auto &z : *own_out) {
					num(z.size());
					for (auto &x : z) str(x);
				}
			return r;
		});
		std::size_t p = 0;
		auto num = [&]() {
			std::uint64_t v;
			std::memcpy(&v, o.data() + p, 8);
			p += 8;
			return v;
		};
		auto str = [&]() {
			std::size_t n = num();
			p += n;
			return o.substr(p - n, n);
		};
		auto t = str();
		for (std::size_t n = num(); n; --n) next->push_back((int) num());
		std::size_t no = num();
		for (std::size_t i = 0; i < no; ++i)
			for (std::size_t n = num(); n; --n) (*own_out)[i].insert(str());
		return t;
	}
	std::uint64_t pack(const Seq &q)
	{
		std::uint64_t r = 1;
		for (auto o : q) r = (r << 5) | o;
		return r;
	}
	Seq unpack(std::uint64_t v)
	{
		Seq q;
		while (v > 1) {
			q.insert(q.begin(), v & 31);
			v >>= 5;
		}
		return q;
	}
	struct Rec {
		std::uint64_t kind, a, b;
	};
	std::string full_check(const Scn &s, const Seq &q)
	{
		std::vector<std::set<std::string>> own(3);
		const std::set<std::string> *ol = nullptr;
		if (!q.empty() && q.back() >= TER && q.back() < REQ) {
			Seq p(q.begin(), q.end() - 1);
			auto t = execute(s, p, nullptr, &own, nullptr);
			if (!t.empty()) return t;
			ol = &own[q.back() - TER];
		}
		return execute(s, q, nullptr, nullptr, ol);
	}
	bool walk(const Scn &s, Seq &q, int depth, std::uint64_t &nodes, std::string &out, const std::set<std::string> *own_last)
	{
		if (par::self_shared) {
			par::self_shared->slot[par::self_slot].sub = pack(q);
			par::self_shared->slot[par::self_slot].beat++;
		}
		std::vector<int> next;
		std::vector<std::set<std::string>> own(3);
		auto t = execute(s, q, &next, &own, own_last);
		++nodes;
		if (!t.empty()) {
			Rec r{1, pack(q), 0};
			out.append((char *) &r, sizeof r);
			par::request_stop();
			return false;
		}
		if ((int) q.size() == depth || par::stopped()) return true;
		for (int o : next) {
			q.push_back(o);
			bool ok = walk(s, q, depth, nodes, out, o >= TER && o < REQ ? &own[o - TER] : nullptr);
			q.pop_back();
			if (!ok) return false;
		}
		return true;
	}
	std::string replay_text(const Scn &s, const Seq &q, const std::string &t)
	{
		std::string r = "harness queues\nproperty C27\nscenario " + s.name + "\nops";
		for (auto o : q) r += " " + std::to_string(o);
		r += "\n# " + t + "\n# " + (s.prefill ? "(after the prefill) " : "") + seq_name(q) + "\n";
		return r;
	}
	std::vector<Scn> scenarios(const std::string &tier)
	{
		bool th = tier == "thorough";
		std::vector<Scn> v;
		for (int multi = 0; multi < 2; ++multi) {
			std::string n = multi ? "multi" : "single";
			v.push_back({n + "-3w", (bool) multi, 3, 4, 0, th ? 8 : 6, 0});
			v.push_back({n + "-2w-deep", (bool) multi, 2, 2, 0, th ? 10 : 7, 1000});
			v.push_back({n + "-1w-deep", (bool) multi, 1, 2, 0, th ? 11 : 9, 1000});
			v.push_back({n + "-prefill70", (bool) multi, 3, 4, 70, th ? 5 : 4, 0});
			v.push_back({n + "-prefill7", (bool) multi, 3, 4, 7, th ? 6 : 5, 1000});
		}
		return v;
	}
	void explore(const Scn &s, report::Result &res, double deadline)
	{
		double t0 = par::now();
		// work items: all nodes at depth 2
		std::vector<Seq> items{{}};
		std::uint64_t nodes = 0;
		auto violation = [&](const Seq &q) {
			std::string out;
			std::string text;
			int rc = par::isolated([&](FILE *f) { auto t = full_check(s, q); fputs(t.c_str(), f); }, text, 30);
			if (rc) text = "the process ends with " + std::to_string(rc);
			if (text.empty() && par::isolate) text = "a violation that is not reproducible";
			if (text.empty()) {
				std::fprintf(stderr, "internal: does not reproduce\n");
				std::exit(3);
			}
			text += " after: " + seq_name(q);
			res.violations.push_back({text, replay_text(s, q, text)});
		};
		int split = std::min(2, s.depth);
		std::vector<Seq> all{{}};
		for (int d = 0; d < split; ++d) {
			std::vector<Seq> nx;
			for (auto &q : all) {
				std::string text;
				std::string list;
				int rc = par::isolated([&](FILE *f) {
					std::vector<int> n;
					auto t = full_check(s, q);
					if (!t.empty()) { fputs("!", f); return; }
					execute(s, q, &n, nullptr, nullptr);
					for (int o : n) fputc(64 + o, f);
				}, list, 30);
				++nodes;
				if (rc || (!list.empty() && list[0] == '!')) { violation(q); return; }
				for (char c : list) {
					Seq z = q;
					z.push_back(c - 64);
					nx.push_back(z);
				}
			}
			all.swap(nx);
		}
		std::vector<par::Dead> dead;
		auto recs = par::run(all.size(), 1, [&](std::uint64_t i, std::string &out) {
			Seq q = all[i];
			std::uint64_t n = 0;
			std::vector<std::set<std::string>> own(3);
			const std::set<std::string> *ol = nullptr;
			if (q.back() >= TER && q.back() < REQ) {
				Seq p(q.begin(), q.end() - 1);
				execute(s, p, nullptr, &own, nullptr);
				ol = &own[q.back() - TER];
			}
			walk(s, q, s.depth, n, out, ol);
			Rec r{2, n, par::stopped() ? 0u : 1u};
			out.append((char *) &r, sizeof r);
		}, dead, deadline, 60);
		for (auto &d : dead) {
			violation(unpack(d.sub));
			return;
		}
		std::uint64_t done = 0;
		for (auto &b : recs)
			for (std::size_t o = 0; o + sizeof(Rec) <= b.size(); o += sizeof(Rec)) {
				Rec r;
				std::memcpy(&r, b.data() + o, sizeof r);
				if (r.kind == 1) {
					violation(unpack(r.a));
					return;
				}
				nodes += r.a;
				done += r.b;
			}
		bool complete = done == all.size();
		if (!complete) res.exhaustive = false;
		res.counts["states"] += nodes;
		res.counts["transitions"] += nodes ? nodes - 1 : 0;
		res.counts["executions"] += nodes;
		char b[300];
		std::snprintf(b, sizeof b, "{\"scenario\": \"%s\", \"depth\": %d, \"sequences\": %llu, \"complete\": %s, \"wall_s\": %.2f}", s.name.c_str(), s.depth,
			(unsigned long long) nodes, complete ? "true" : "false", par::now() - t0);
		res.parts.push_back(b);
		if (!all.empty()) res.samples.push_back(s.name + ": " + seq_name(all[all.size() / 2]) + " ...");
		std::fprintf(stderr, "%s\n", b);
	}
} // namespace

int main(int argc, char **argv)
{
	std::string tier = "quick", out, replay;
	double limit = 600;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--prop") ++i;
		else if (a == "--tier") tier = argv[++i];
		else if (a == "--out") out = argv[++i];
		else if (a == "--replay") replay = argv[++i];
		else if (a == "--limit") limit = std::atof(argv[++i]);
	}
	vclock::active = true;
	if (!replay.empty()) {
		FILE *f = std::fopen(replay.c_str(), "r");
		if (!f) return 2;
		char line[4096];
		std::string scn;
		Seq q;
		while (std::fgets(line, sizeof line, f)) {
			std::string l = line;
			if (l.back() == '\n') l.pop_back();
			if (l.compare(0, 9, "scenario ") == 0) scn = l.substr(9);
			if (l.compare(0, 3, "ops") == 0)
				for (char *p = line + 3; *p && *p != '\n';) q.push_back((std::uint8_t) std::strtol(p, &p, 10));
		}
		for (auto &s : scenarios("thorough"))
			if (s.name == scn) {
				auto t = full_check(s, q);
				std::printf("%s\n%s\n", seq_name(q).c_str(), t.empty() ? "no violation" : ("VIOLATED: " + t).c_str());
				return t.empty() ? 0 : 1;
			}
		return 2;
	}
	report::Result res;
	double start = par::now();
	for (auto &s : scenarios(tier)) {
		if (!res.violations.empty()) break;
		explore(s, res, start + limit);
	}
	if (!out.empty()) res.write(out);
	for (auto &v : res.violations) std::printf("VIOLATED: %s\n%s\n", v.first.c_str(), v.second.c_str());
	return res.violations.empty() ? 0 : 1;
}
