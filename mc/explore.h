// Enumeration of all executions of a scenario (see fibers.h): complete in the free choices, deviations bounded.
#pragma once
#include "fakezmq.h"
#include "par.h"
#include "report.h"
#include "fibers.h"

namespace explore
{
	struct Scenario {
		std::string name;
		int dev; // deviations
		std::function<void()> body; // runs as the main thread
		std::function<void()> before, after; // outside of the scheduler
		bool timeouts = true; // deviations may let time pass
		std::uint64_t max_steps = 6000;
	};
	using Script = std::vector<std::uint16_t>;
	struct Rec {
		std::uint32_t kind, len; // 0 counters, 1 violation, 2 child
		std::uint64_t a, b, c;
	};
	inline char *shared_script; // current script per slot, for crashes
	constexpr std::size_t SLOT = 8192;
	inline void put(std::string &out, std::uint32_t kind, const Script &s, std::uint64_t a = 0, std::uint64_t b = 0, std::uint64_t c = 0)
	{
		Rec r{kind, (std::uint32_t) s.size(), a, b, c};
		out.append((char *) &r, sizeof r);
		out.append((const char *) s.data(), s.size() * 2);
	}
	inline bool run_here(const Scenario &sc, const Script &s)
	{
		fz::reset();
		fz::scheduling = true;
		fz::default_hwm = 1000;
		fz::throttle_choices = true;
		fz::poll_fault = nullptr;
		fz::poll_time = nullptr;
		fz::poll_done = nullptr;
		sched::timeout_choices = sc.timeouts;
		sched::preemption_choices = true;
		sched::max_steps = sc.max_steps;
		if (sc.before) sc.before();
		if (shared_script && par::self_slot >= 0) {
			char *p = shared_script + SLOT * par::self_slot;
			std::uint32_t n = std::min<std::size_t>(s.size(), SLOT / 2 - 4);
			std::memcpy(p, &n, 4);
			std::memcpy(p + 4, s.data(), n * 2);
			par::self_shared->slot[par::self_slot].beat++;
		}
		bool clean = sched::execute(s, sc.body);
		if (sc.after) sc.after();
		return clean;
	}
	inline bool run_one(const Scenario &sc, const Script &s)
	{
		if (!par::isolate) return run_here(sc, s);
		auto r = par::call([&] {
			bool clean = run_here(sc, s);
			std::string o(1, clean ? '1' : '0');
			std::uint64_t n = sched::trace.size(), st = sched::steps;
			o.append((char *) &st, 8);
			o.append((char *) &n, 8);
			o.append((char *) sched::trace.data(), n * sizeof(sched::Point));
			return o + sched::failure;
		});
		std::uint64_t n, st;
		std::memcpy(&st, r.data() + 1, 8);
		std::memcpy(&n, r.data() + 9, 8);
		sched::steps = st;
		sched::trace.resize(n);
		std::memcpy((void *) sched::trace.data(), r.data() + 17, n * sizeof(sched::Point));
		sched::failure = r.substr(17 + n * sizeof(sched::Point));
		return r[0] == '1';
	}
	struct Counters {
		std::uint64_t executions = 0, nodes = 0, steps = 0;
	};
	inline int cost(const std::vector<sched::Point> &t, std::size_t upto)
	{
		int c = 0;
		for (std::size_t i = 0; i < upto; ++i) c += !t[i].free && t[i].taken;
		return c;
	}
	inline void children(const Scenario &sc, const Script &s, const std::vector<sched::Point> &t, std::vector<Script> &out)
	{
		int base = cost(t, s.size());
		// beyond the script everything is default, so the cost of a prefix stays `base`
		Script p = s;
		for (std::size_t j = s.size(); j < t.size(); ++j) {
			if (t[j].free || base < sc.dev)
				for (std::uint16_t c = 1; c < t[j].n; ++c) {
					out.push_back(p);
					out.back().push_back(c);
				}
			p.push_back(0);
		}
	}
	// returns false if the process must not go on
	inline bool dfs(const Scenario &sc, const Script &s, Counters &n, std::string &out)
	{
		bool clean = run_one(sc, s);
		n.executions++;
		n.nodes += sched::trace.size() - std::min(sched::trace.size(), s.size());
		n.steps += sched::steps;
		if (!sched::failure.empty() || !clean) {
			put(out, 1, s);
			par::request_stop();
			return false;
		}
		if (par::stopped()) return false;
		std::vector<Script> ch;
		children(sc, s, sched::trace, ch);
		for (auto &c : ch)
			if (!dfs(sc, c, n, out)) return false;
		return true;
	}
	struct Parsed {
		std::vector<Script> bad, child;
		Counters n;
		std::uint64_t items = 0;
	};
	inline Parsed parse(const std::vector<std::string> &recs)
	{
		Parsed p;
		for (auto &b : recs)
			for (std::size_t o = 0; o + sizeof(Rec) <= b.size();) {
				Rec r;
				std::memcpy(&r, b.data() + o, sizeof r);
				o += sizeof r;
				Script s(r.len);
				std::memcpy(s.data(), b.data() + o, r.len * 2);
				o += r.len * 2;
				if (r.kind == 0) {
					p.n.executions += r.a;
					p.n.nodes += r.b;
					p.n.steps += r.c;
					p.items++;
				} else if (r.kind == 1) p.bad.push_back(s);
				else p.child.push_back(s);
			}
		return p;
	}
	inline std::string script_text(const Script &s)
	{
		std::string r;
		for (auto c : s) r += " " + std::to_string(c);
		return r;
	}
	// run in a process of its own; text of the violation or ""
	inline std::string confirm(const Scenario &sc, const Script &s, std::string &log)
	{
		std::string o;
		int rc = par::isolated([&](FILE *f) {
			sched::verbose = true;
			if (!freopen("/dev/null", "w", stderr)) return;
			run_here(sc, s);
			fputs(sched::failure.c_str(), f);
			fputc('\n', f);
			for (auto &l : sched::log) fprintf(f, "# %s\n", l.c_str());
		}, o, 60);
		if (rc == -1) return "the execution hangs";
		if (rc) return "the process crashes (" + std::to_string(rc) + ")";
		auto e = o.find('\n');
		log = o.substr(e + 1);
		return o.substr(0, e);
	}
	inline void run(const Scenario &sc, const std::string &harness, const std::string &prop, report::Result &res, double deadline)
	{
		double t0 = par::now();
		if (!shared_script) shared_script = (char *) mmap(nullptr, SLOT * par::MAXP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		std::memset(shared_script, 0, SLOT * par::MAXP);
		Counters total;
		auto violation = [&](const Script &s) {
			std::string log;
			auto t = confirm(sc, s, log);
			if (t.empty() && par::isolate) t = "a violation that is not reproducible";
			if (t.empty()) {
				std::fprintf(stderr, "internal: violation does not reproduce in %s:%s\n", sc.name.c_str(), script_text(s).c_str());
				std::exit(3);
			}
			t = "[" + sc.name + "] " + t;
			res.violations.push_back({t, "harness " + harness + "\nproperty " + prop + "\nscenario " + sc.name + "\nchoices" + script_text(s) + "\n# " + t + "\n" + log});
		};
		std::vector<Script> level{{}};
		bool complete = true;
		for (int lv = 0; lv < 3 && !level.empty() && complete; ++lv) {
			bool last = lv == 2;
			std::vector<par::Dead> dead;
			auto recs = par::run(level.size(), last ? 1 : 4, [&](std::uint64_t i, std::string &out) {
				Counters n;
				if (last) {
					dfs(sc, level[i], n, out);
				} else {
					bool clean = run_one(sc, level[i]);
					n.executions = 1;
					n.nodes = sched::trace.size() - std::min(sched::trace.size(), level[i].size());
					n.steps = sched::steps;
					if (!sched::failure.empty() || !clean) {
						put(out, 1, level[i]);
						par::request_stop();
					} else {
						std::vector<Script> ch;
						children(sc, level[i], sched::trace, ch);
						for (auto &c : ch) put(out, 2, c);
					}
				}
				if (!par::stopped()) put(out, 0, {}, n.executions, n.nodes, n.steps);
			}, dead, deadline, 60);
			if (!dead.empty()) {
				for (int k = 0; k < par::MAXP; ++k) { // some slot holds the culprit
					std::uint32_t n;
					char *p = shared_script + SLOT * k;
					std::memcpy(&n, p, 4);
					Script s(n);
					std::memcpy(s.data(), p + 4, n * 2);
					std::string log;
					if (!confirm(sc, s, log).empty()) {
						violation(s);
						return;
					}
				}
				std::fprintf(stderr, "internal: explorer died in %s\n", sc.name.c_str());
				std::exit(3);
			}
			auto p = parse(recs);
			if (!p.bad.empty()) {
				std::sort(p.bad.begin(), p.bad.end(), [](const Script &a, const Script &b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
				violation(p.bad[0]);
				return;
			}
			total.executions += p.n.executions;
			total.nodes += p.n.nodes;
			total.steps += p.n.steps;
			if (p.items < level.size()) complete = false;
			std::sort(p.child.begin(), p.child.end());
			if (last) break;
			level.swap(p.child);
			if (lv == 1 && !level.empty()) {
				Script mid = level[level.size() / 2];
				res.samples.push_back(sc.name + ": choices" + script_text(mid) + (last ? "" : ""));
			}
		}
		if (!complete) res.exhaustive = false;
		res.counts["states"] += total.nodes;
		res.counts["transitions"] += total.steps;
		res.counts["executions"] += total.executions;
		char b[400];
		std::snprintf(b, sizeof b, "{\"scenario\": \"%s\", \"deviations\": %d, \"schedules\": %llu, \"choice_points\": %llu, \"steps\": %llu, \"complete\": %s, \"wall_s\": %.2f}", sc.name.c_str(), sc.dev,
			(unsigned long long) total.executions, (unsigned long long) total.nodes, (unsigned long long) total.steps, complete ? "true" : "false", par::now() - t0);
		res.parts.push_back(b);
		std::fprintf(stderr, "%s\n", b);
	}
	inline int main_loop(int argc, char **argv, const std::string &harness, const std::function<std::vector<Scenario>(const std::string &, bool)> &scenarios)
	{
		std::string tier = "quick", out, replay, prop, only;
		double limit = 600;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			if (a == "--prop") prop = argv[++i];
			else if (a == "--tier") tier = argv[++i];
			else if (a == "--out") out = argv[++i];
			else if (a == "--replay") replay = argv[++i];
			else if (a == "--only") only = argv[++i];
			else if (a == "--limit") limit = std::atof(argv[++i]);
		}
		vclock::active = true;
		if (!replay.empty()) {
			FILE *f = std::fopen(replay.c_str(), "r");
			if (!f) return 2;
			static char line[1 << 16];
			std::string scn;
			Script s;
			while (std::fgets(line, sizeof line, f)) {
				std::string l = line;
				while (!l.empty() && l.back() == '\n') l.pop_back();
				if (l.compare(0, 9, "property ") == 0) prop = l.substr(9);
				if (l.compare(0, 9, "scenario ") == 0) scn = l.substr(9);
				if (l.compare(0, 7, "choices") == 0) {
					char *p = line + 7;
					while (*p && *p != '\n') s.push_back((std::uint16_t) std::strtol(p, &p, 10));
				}
			}
			for (bool th : {false, true})
				for (auto &sc : scenarios(prop, th))
					if (sc.name == scn) {
						std::string log;
						auto t = confirm(sc, s, log);
						std::printf("%s%s\n", log.c_str(), t.empty() ? "no violation" : ("VIOLATED: " + t).c_str());
						return t.empty() ? 0 : 1;
					}
			return 2;
		}
		report::Result res;
		double start = par::now();
		for (auto &sc : scenarios(prop, tier == "thorough")) {
			if (!res.violations.empty()) break;
			if (!only.empty() && sc.name != only) continue;
			run(sc, harness, prop, res, start + limit);
		}
		if (!out.empty()) res.write(out);
		for (auto &v : res.violations) std::printf("VIOLATED: %s\n%s\n", v.first.c_str(), v.second.c_str());
		return res.violations.empty() ? 0 : 1;
	}
} // namespace explore
