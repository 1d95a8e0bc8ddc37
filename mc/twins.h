// Submissions that share an id while they are both alive.  Each has a payload of its own, which tells them apart when they are
// dispatched; reports carry the id only, so they are counted per id and step.  All workers can serve everything, which makes the
// expected reports of every step exact.  Every event sequence up to the bound is executed, each followed by the death of everyone.
#pragma once
#include "world.h"
#include "par.h"
#include "report.h"
#include <yaml-cpp/yaml.h>

namespace twins
{
	struct Setup {
		std::string name;
		bool multi, down;
		std::size_t F;
		std::string prefix; // events
		int depth, max_jobs;
	};
	// events: a b INIT of worker 0/1; x y EVAL with that id; c d done OK, e f FAILED, g h INTERNAL_ERROR of worker 0/1; 1 2 3 EXPIRE mask
	struct Outcome {
		tagset tags = 0;
		std::string text, next;
	};

	class Case
	{
		const Setup &s;
		std::shared_ptr<worker_registry> registry = std::make_shared<worker_registry>();
		std::shared_ptr<queue_manager_interface> queue;
		std::shared_ptr<broker_handler> handler;
		std::string *log;
		struct Sub {
			std::string id;
			int st = 0; // 0 waiting, 1 held, 2 over
			std::size_t fails = 0;
		};
		std::vector<Sub> subs;
		bool reg[2] = {false, false};
		int held[2] = {-1, -1};
		std::vector<message_container> out;
		std::multiset<std::string> reports, monitor;
		std::vector<std::string> answers;

	public:
		tagset tags = 0;
		std::string text;

		Case(const Setup &st, std::string *l) : s(st), log(l)
		{
			if (s.multi) queue = std::make_shared<multi_queue_manager>();
			else queue = std::make_shared<single_queue_manager<>>();
			auto cfg = std::make_shared<broker_config>(
				YAML::Load("workers: {max_liveness: 2, ping_interval: 1000, max_request_failures: " + std::to_string(s.F) + "}"));
			handler = std::make_shared<broker_handler>(cfg, registry, queue, nullptr);
		}
		static std::string wid(int k) { return k ? "worker1" : "worker"; }
		void bad(tagset t, const std::string &x)
		{
			if (tags) return;
			tags = t;
			text = x;
			if (log) *log += "    !! " + x + "\n";
		}
		// the events that are possible and sensible now
		std::string next() const
		{
			std::string r;
			for (int k = 0; k < 2; ++k)
				if (!reg[k]) r += (char) ('a' + k);
			if ((int) subs.size() < s.max_jobs) r += "xy";
			for (int k = 0; k < 2; ++k)
				if (reg[k] && held[k] >= 0) {
					r += (char) ('c' + k);
					r += (char) ('e' + k);
					r += (char) ('g' + k);
				}
			for (int m = 1; m < 4; ++m)
				if ((!(m & 1) || reg[0]) && (!(m & 2) || reg[1])) r += (char) ('0' + m);
			return r;
		}
		void feed(const std::string &key, const std::string &identity, const strs &data)
		{
			if (tags) return;
			message_container m(key, identity, data);
			if (log) *log += "  > " + World::show(m) + "\n";
			try {
				handler->on_request(m, [&](const message_container &r) {
					if (log) *log += "    < " + World::show(r) + "\n";
					out.push_back(r);
				});
			} catch (std::exception &e) {
				bad(T_ANY, std::string("exception escaped from the broker: ") + e.what());
			}
			// what was sent: dispatches are judged by the payload
			for (auto &r : out) {
				if (r.key == broker_connect::KEY_WORKERS && !r.data.empty() && r.data[0] == "eval") {
					int k = r.identity == wid(0) ? 0 : r.identity == wid(1) ? 1 : -1;
					int n = -1;
					for (std::size_t i = 0; i < subs.size(); ++i)
						if (r.data == strs{"eval", subs[i].id, "p" + std::to_string(i)}) n = (int) i;
					std::string what = World::show(r);
					if (n < 0) return bad(T(10, 1), "what was dispatched is none of the submissions: " + what);
					if (k < 0 || !reg[k]) return bad(T(3, 7), "dispatched to a worker that is not registered: " + what);
					if (held[k] >= 0) return bad(T(4), "dispatched to a worker that holds another job: " + what);
					if (subs[n].st == 1) return bad(T(4, 1), "a submission was dispatched while a worker holds it: " + what);
					if (subs[n].st == 2) return bad(T(1, 5, 8), "a submission was dispatched again although its fate was reported: " + what);
					subs[n].st = 1;
					held[k] = n;
				} else if (r.key == broker_connect::KEY_STATUS_NOTIFIER) {
					std::string id, status = "?";
					for (std::size_t i = 0; i + 1 < r.data.size(); i += 2) {
						if (r.data[i] == "id") id = r.data[i + 1];
						if (r.data[i] == "status") status = r.data[i + 1];
					}
					reports.insert(id + ":" + status);
				} else if (r.key == broker_connect::KEY_MONITOR) {
					if (r.data.size() == 2 && r.data[1] == "FAILED") monitor.insert(r.data[0]);
				} else if (r.key == broker_connect::KEY_CLIENTS) {
					answers.push_back(r.data.empty() ? "" : r.data[0]);
				}
			}
			out.clear();
		}
		static std::string list(const std::multiset<std::string> &x)
		{
			std::string r;
			for (auto &e : x) r += " " + e;
			return r.empty() ? " nothing" : r;
		}
		void step(char e)
		{
			if (tags) return;
			reports.clear();
			monitor.clear();
			answers.clear();
			std::multiset<std::string> want, wmon;
			strs wans;
			if (log) *log += std::string("event ") + e + "\n";
			if (e == 'a' || e == 'b') {
				int k = e - 'a';
				reg[k] = true;
				feed(broker_connect::KEY_WORKERS, wid(k), {"init", "g", "env=c"});
			} else if (e == 'x' || e == 'y') {
				bool ok = reg[0] || reg[1];
				subs.push_back({std::string(1, e), ok ? 0 : 2, 0});
				wans = {"ack", ok ? "accept" : "reject"};
				if (!ok) wmon.insert(subs.back().id);
				feed(broker_connect::KEY_CLIENTS, "client", {"eval", subs.back().id, "env=c", "", "p" + std::to_string(subs.size() - 1)});
				if (answers != wans) bad(T(2), "evaluation request answered wrongly");
			} else if (e >= 'c' && e <= 'h') {
				int k = (e - 'c') % 2, st = (e - 'c') / 2;
				auto &j = subs[held[k]];
				std::string id = j.id;
				held[k] = -1;
				if (st == 2 && ++j.fails < s.F) j.st = 0;
				else {
					j.st = 2;
					want.insert(id + (st ? ":FAILED" : ":OK"));
					if (st == 2) wmon.insert(id);
				}
				strs m = {"done", id, st == 0 ? "OK" : st == 1 ? "FAILED" : "INTERNAL_ERROR"};
				if (st) m.push_back("reason");
				feed(broker_connect::KEY_WORKERS, wid(k), m);
			} else {
				int mask = e - '0';
				for (int t = 0; t < 2; ++t) {
					for (int k = 0; k < 2; ++k)
						if (reg[k] && !(mask >> k & 1)) feed(broker_connect::KEY_WORKERS, wid(k), {"ping"});
					if (t == 1) { // now they die
						for (int k = 0; k < 2; ++k)
							if (mask >> k & 1) {
								reg[k] = false;
								if (held[k] >= 0) {
									auto &j = subs[held[k]];
									held[k] = -1;
									j.st = 0;
									if (++j.fails >= s.F) {
										j.st = 2;
										want.insert(j.id + ":FAILED");
										wmon.insert(j.id);
									}
								}
							}
						if (!reg[0] && !reg[1])
							for (auto &j : subs)
								if (j.st == 0) {
									j.st = 2;
									want.insert(j.id + ":FAILED");
									wmon.insert(j.id);
								}
					}
					feed(broker_connect::KEY_TIMER, "", {"1001"});
				}
				for (int k = 0; k < 2; ++k)
					if (reg[k]) feed(broker_connect::KEY_WORKERS, wid(k), {"ping"});
			}
			if (tags) return;
			if (reports != want) bad(T(1, 26) | (e <= '3' ? T(7) : 0) | (e == 'g' || e == 'h' || e <= '3' ? T(5) : 0), "reports of this step:" + list(reports) + ", expected:" + list(want));
			if (monitor != wmon) bad(T(16), "jobs the monitor hears to have failed in this step:" + list(monitor) + ", expected:" + list(wmon));
			// nobody idles while something waits
			std::size_t waiting = 0;
			for (auto &j : subs) waiting += j.st == 0;
			for (int k = 0; k < 2; ++k)
				if (!s.multi && waiting && reg[k] && held[k] < 0) bad(T(12), "a submission waits although a worker is idle");
			if (queue->get_queued_request_count() != waiting) bad(T(1), "the queue manager counts " + std::to_string(queue->get_queued_request_count()) + " waiting jobs instead of " + std::to_string(waiting));
		}
		void finish()
		{
			if (reg[0] || reg[1]) step((char) ('0' + (reg[0] ? 1 : 0) + (reg[1] ? 2 : 0)));
		}
	};
	inline Outcome execute(const Setup &s, const std::string &h, std::string *log = nullptr)
	{
		Outcome o;
		vclock::reset();
		arena::begin(s.down);
		{
			Case c(s, log);
			for (char e : s.prefix + h) c.step(e);
			std::string n = c.tags ? "" : c.next();
			c.finish();
			arena::S.active = false;
			o.tags = c.tags;
			o.text = std::string(c.text.c_str());
			o.next = std::string(n.c_str());
			arena::S.active = true;
		}
		arena::end();
		return o;
	}
	inline std::vector<Setup> setups(bool th)
	{
		std::vector<Setup> r;
		for (bool m : {false, true})
			for (bool d : {false, true}) {
				if (d && !th) continue;
				std::string t = std::string(m ? "/multi" : "/single") + (d ? "/down" : "");
				r.push_back({"twins" + t, m, d, 2, "", th ? 8 : 6, 4});
				r.push_back({"twinsbusy" + t, m, d, 2, "axxxyb", th ? 7 : 5, 6});
			}
		return r;
	}
	inline bool relevant(int prop, const Outcome &o) { return o.tags == T_ANY || (o.tags >> prop & 1); }
	inline std::string replay_text(int prop, const Setup &s, const std::string &h, const Outcome &o, const std::string &log)
	{
		return "harness broker\nproperty C" + std::string(prop < 10 ? "0" : "") + std::to_string(prop) + "\nscenario " + s.name + "\ntwins " + h + "\nviolation " + o.text + "\n" + log;
	}
	inline Outcome confirm(const Setup &s, const std::string &h, std::string &log)
	{
		std::string r;
		int rc = par::isolated(
			[&](FILE *f) {
				std::string l;
				auto o = execute(s, h, &l);
				std::fprintf(f, "%llu\n%s\n%s", (unsigned long long) o.tags, o.text.c_str(), l.c_str());
			},
			r, 30);
		Outcome o;
		if (rc != 0) {
			o.tags = T_ANY;
			o.text = rc == -1 ? "the broker does not return from handling a message" : "the broker crashes (signal/exit " + std::to_string(rc) + ")";
			return o;
		}
		auto a = r.find('\n'), b = r.find('\n', a + 1);
		o.tags = (tagset) std::strtoull(r.c_str(), nullptr, 10);
		o.text = r.substr(a + 1, b - a - 1);
		log = r.substr(b + 1);
		return o;
	}
	inline void explore(int prop, const Setup &s, report::Result &res, double deadline)
	{
		double t0 = par::now();
		std::vector<std::string> items = {""};
		for (int d = 0; d < 2; ++d) { // split by the first two events
			std::vector<std::string> n;
			for (auto &h : items) {
				std::string log;
				auto o = confirm(s, h, log);
				if (o.tags) {
					if (relevant(prop, o)) {
						res.violations.push_back({o.text, replay_text(prop, s, h, o, log)});
						return;
					}
					continue;
				}
				for (char e : execute(s, h).next) n.push_back(h + e);
			}
			items.swap(n);
		}
		std::vector<par::Dead> dead;
		auto recs = par::run(
			items.size(), 1,
			[&](std::uint64_t i, std::string &out) {
				std::uint64_t n = 0, pruned = 0;
				std::function<bool(std::string &)> go = [&](std::string &h) {
					++n;
					par::sub(n);
					auto o = execute(s, h);
					if (o.tags) {
						++pruned;
						if (relevant(prop, o)) {
							out += "V" + h + "\n";
							par::request_stop();
							return false;
						}
						return true;
					}
					if ((int) h.size() < s.depth)
						for (char e : o.next) {
							h += e;
							bool on = go(h) && !par::stopped();
							h.pop_back();
							if (!on) return false;
						}
					return true;
				};
				std::string h = items[i];
				bool all = go(h);
				out += "N" + std::to_string(n) + " " + std::to_string(pruned) + " " + (all ? "1" : "0") + "\n";
			},
			dead, deadline, 30);
		std::uint64_t n = 0, pruned = 0, complete = 0;
		std::vector<std::string> viol;
		for (auto &r : recs) {
			std::stringstream ss(r);
			std::string l;
			while (std::getline(ss, l)) {
				if (l[0] == 'V') viol.push_back(l.substr(1));
				unsigned long long a, b;
				int c;
				if (l[0] == 'N' && std::sscanf(l.c_str() + 1, "%llu %llu %d", &a, &b, &c) == 3) {
					n += a;
					pruned += b;
					complete += c;
				}
			}
		}
		std::sort(viol.begin(), viol.end());
		for (auto &h : viol) {
			std::string log;
			auto o = confirm(s, h, log);
			if (!o.tags) o.text = "a violation that is not reproducible";
			res.violations.push_back({o.text, replay_text(prop, s, h, o, log)});
			return;
		}
		for (auto &d : dead) { // search the subtree one by one
			std::function<bool(const std::string &)> find = [&](const std::string &h) {
				std::string log;
				auto o = confirm(s, h, log);
				if (o.tags) {
					if (!relevant(prop, o)) return false;
					res.violations.push_back({o.text, replay_text(prop, s, h, o, log)});
					return true;
				}
				if ((int) h.size() < s.depth)
					for (char e : execute(s, h).next)
						if (find(h + e)) return true;
				return false;
			};
			if (find(items[d.index])) return;
			std::fprintf(stderr, "internal: an explorer process died (%d) and the cause did not reproduce\n", d.sig);
			std::exit(3);
		}
		res.counts["executions"] += n;
		res.counts["transitions"] += n;
		res.counts["pruned"] += pruned;
		bool ok = complete == items.size();
		if (!ok) res.exhaustive = false;
		char b[300];
		std::snprintf(b, sizeof b, "{\"scenario\": \"%s\", \"depth_bound\": %d, \"executions\": %llu, \"pruned\": %llu, \"complete\": %s, \"wall_s\": %.2f}",
			s.name.c_str(), s.depth, (unsigned long long) n, (unsigned long long) pruned, ok ? "true" : "false", par::now() - t0);
		res.parts.push_back(b);
		std::fprintf(stderr, "%s\n", b);
	}
} // namespace twins
