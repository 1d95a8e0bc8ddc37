#pragma once
#include "world.h"

inline unsigned K(int k) { return 1u << k; }
template <class... A> unsigned K(int k, A... r) { return K(k) | K(r...); }

inline Scenario base(const std::string &name, bool multi, bool down)
{
	Scenario s;
	s.multi = multi;
	s.down = down;
	s.name = name + (multi ? "/multi" : "/single") + (down ? "/down" : "");
	s.variants = {
		{"g1", {"env=c", "threads=4"}}, // 0: A
		{"g2", {"env=c", "env=py", "threads=2", "opt=a=b"}}, // 1: B
		{"g2", {"env=c", "threads=4"}}, // 2: A in another hardware group
		{"g1", {"env=py", "threads=8"}}, // 3: C
		{"gp", {"env=c", "env=py", "threads=64", "opt=a=b"}}, // probe worker
	};
	static const strs many = [] {
		strs r(40, "frame");
		r[1] = "";
		r[7] = std::string(70000, 'z');
		const strs odd = {"line\n", "line\r\n", " padded ", "\ttab", "a=b", "=", "%20%", "\"q\"", "'", "eval", "done", "{}", "\\n", "MiXeD", "caf\xc3\xa9"};
		for (std::size_t i = 0; i < odd.size(); ++i) r[10 + i] = odd[i];
		return r;
	}();
	s.classes = {
		{{"hwgroup=g1|g2|gp", "env=c", "meta.user=me"}, {"http://x/a.zip", "", std::string("\x00\xff\x7f", 3), "end"}}, // 0: A B (A2)
		{{"env=py"}, {}}, // 1: B C
		{{"threads=3", "hwgroup=g1|gp"}, {""}}, // 2: A C
		{{"env=rust"}, {"x"}}, // 3: nobody
		{{}, {"", "env=c", "", "y"}}, // 4: anybody
		{{"env=c", "env=py"}, {"meta.user=me", "env=c"}}, // 5: B
		{{"opt=a=b", "meta.env=rust", "meta.user=you=me"}, many}, // 6: B
		{{"threads=3", "env=c", "hwgroup=g1|g2|gp"}, {"three"}}, // 7: A A2
		{{"env=c", "opt="}, {"x"}}, // 8: nobody
		{{"meta.user=me", "meta.course=1", "meta.x="}, {"z", ""}}, // 9: anybody
	};
	s.use_classes = {0, 1, 2};
	s.wvariants = {{0}, {1}, {0}};
	s.kinds = K(INIT, EVAL, DONE, EXPIRE);
	s.total_reinit = 0;
	s.max_jobs = 4;
	return s;
}
inline Ev I(int w, int v, int c = 0) { return {INIT, (std::uint8_t) w, (std::uint8_t) v, (std::uint8_t) c}; }
inline Ev E(int cls, int no) { return {EVAL, (std::uint8_t) cls, (std::uint8_t) no, 0}; }

inline std::vector<Scenario> scenarios_for(int prop, const std::string &tier)
{
	std::vector<Scenario> r;
	bool th = tier == "thorough";
	auto dp = [&](int q, int t) { return th ? t : q; };
	// Whole life cycle from the empty broker
	auto core = [&](const char *n, bool multi, bool down, int depth) {
		Scenario s = base(n, multi, down);
		s.depth = depth;
		return s;
	};
	// Life cycle with two workers registered and two jobs accepted already
	auto busy = [&](const char *n, bool multi, bool down, int depth) {
		Scenario s = base(n, multi, down);
		s.prefix = {I(0, 0), I(1, 1), E(0, 0), E(0, 1)};
		s.max_jobs = 5;
		s.depth = depth;
		return s;
	};
	auto each = [&](const std::function<Scenario(bool, bool)> &f, bool downs = true) {
		r.push_back(f(false, false));
		r.push_back(f(true, false));
		if (downs) r.push_back(f(false, true));
	};
	// the id of a job that came to its end is used for another one
	auto reuse = [&](bool m, bool d) {
		Scenario s = core("reuse", m, d, dp(6, 8));
		s.wvariants = {{0}, {1}};
		s.use_classes = {0, 3};
		s.max_jobs = 3;
		s.reuse = 2;
		return s;
	};
	// one failed attempt after another
	auto retry3 = [&](bool m, bool d) {
		Scenario s = busy("retry3", m, d, dp(5, 7));
		s.F = 3;
		s.L = 1;
		s.statuses = {0, 2};
		return s;
	};
	// six workers
	auto many = [&](bool m, bool d) {
		Scenario s = base("many", m, d);
		s.wvariants = {{0}, {1}, {0}, {2}, {3}, {1}};
		s.prefix = {I(0, 0), I(1, 1), I(2, 0), I(3, 2), I(4, 3), I(5, 1)};
		for (int i = 0; i < 8; ++i) s.prefix.push_back(E(i % 3, i));
		s.use_classes = {0, 2};
		s.statuses = {0, 2};
		s.max_jobs = 10;
		s.depth = dp(2, 4);
		s.nomerge = 1;
		return s;
	};
	// workers that have been silent for a while
	auto quiet = [&](bool m, bool d) {
		Scenario s = base("quiet", m, d);
		s.key_runs = prop == 13;
		s.key_stats = prop == 15;
		s.L = 3;
		s.wvariants = {{0}, {1}};
		s.prefix = {I(0, 0), I(1, 1), {TICK, 0, 0, 0}};
		s.kinds = K(INIT, EVAL, DONE, TICK, PING);
		s.ticks = {1001};
		s.budget[PING] = 1;
		s.use_classes = {0, 1};
		s.statuses = {0, 2};
		s.max_jobs = 4;
		s.depth = dp(5, 7);
		return s;
	};
	// five workers, every kind of job
	auto wide = [&](bool m, bool d) {
		Scenario s = base("wide", m, d);
		s.wvariants = {{0}, {2}, {3}, {0}, {1}};
		s.prefix = {I(0, 0), I(1, 2), I(2, 3), I(3, 0)};
		s.use_classes = {0, 1, 2, 3, 4, 5, 7, 8};
		s.statuses = {0, 2};
		s.depth = dp(3, 5);
		s.nomerge = 1;
		s.max_jobs = 6;
		return s;
	};
	// progress messages while jobs run
	auto chatty = [&](bool m, bool d) {
		Scenario s = busy("chatty", m, d, dp(4, 5));
		s.kinds |= K(PROGRESS, TOUCH);
		s.budget[PROGRESS] = s.budget[TOUCH] = 1;
		s.use_classes = {0};
		s.max_jobs = 3;
		return s;
	};
	// a job that failed before waits for one worker while another becomes free
	auto later = [&](bool m, bool d) {
		Scenario s = base("later", m, d);
		s.F = 4;
		s.L = 2;
		s.wvariants = {{0}, {1}, {3}};
		s.prefix = {I(0, 0), I(1, 1), I(2, 3), E(1, 0), E(1, 1), E(2, 2), E(0, 3)};
		s.use_classes = {0};
		s.statuses = {0, 2};
		s.max_jobs = 5;
		s.depth = dp(5, 7);
		return s;
	};
	// a job that two deaths put back is waiting, everyone is busy
	auto later2 = [&](bool m, bool d) {
		Scenario s = base("later2", m, d);
		s.F = 4;
		s.L = 2;
		s.wvariants = {{0}, {1}, {3}, {0}};
		Ev gone{EXPIRE, 1, 0, 0};
		s.prefix = {I(0, 0), I(1, 1), I(2, 3), I(3, 0), E(7, 0), E(7, 1), E(1, 2), E(1, 3), gone, I(0, 0), gone};
		s.use_classes = {0};
		s.statuses = {0, 2};
		s.max_jobs = 5;
		s.depth = dp(4, 6);
		return s;
	};
	// hundreds of jobs before
	auto longrun = [&](bool m, bool d) {
		Scenario s = base("longrun", m, d);
		s.wvariants = {{0}, {1}};
		s.prefix = {I(0, 0)};
		for (int i = 0; i < 540; ++i) {
			s.prefix.push_back(i < 200 ? E(0, i) : Ev{EVAL, 0, 199, (std::uint8_t) (1 + (i - 200) % 200)});
			s.prefix.push_back({DONE, 0, (std::uint8_t) (i < 270 ? 0 : 1), 0});
		}
		s.kinds = K(INIT, EVAL, DONE, EXPIRE, TICK);
		s.budget[EXPIRE] = s.budget[TICK] = 1;
		s.ticks = {10};
		s.use_classes = {0};
		s.max_jobs = 1 << 20;
		s.key_stats = true;
		s.depth = dp(3, 4);
		s.nomerge = 1;
		return s;
	};
	// hundreds of failed attempts before
	auto longfail = [&](bool m, bool d) {
		Scenario s = base("longfail", m, d);
		s.F = 260;
		s.L = 1;
		s.wvariants = {{0}, {1}};
		s.prefix = {I(0, 0), E(0, 0)};
		for (int i = 0; i < 256; ++i) s.prefix.push_back({DONE, 0, 2, 0});
		s.use_classes = {0};
		s.statuses = {0, 2};
		s.max_jobs = 2;
		s.depth = dp(5, 6);
		return s;
	};
	// long queues
	auto crowd = [&](bool m, bool d) {
		Scenario s = base("crowd", m, d);
		s.wvariants = {{0}, {1}};
		s.prefix = {I(0, 0), I(1, 1)};
		for (int i = 0; i < 140; ++i) s.prefix.push_back(E(i < 4 || (i >= 74 && i % 4 != 3) ? 0 : 1, i)); // many of a kind first
		s.use_classes = {0, 1};
		s.statuses = {0, 2};
		s.max_jobs = 142;
		s.depth = dp(2, 3);
		s.nomerge = 1;
		return s;
	};
	switch (prop) {
	case 1:
		each([&](bool m, bool d) { return core("core", m, d, dp(7, 9)); });
		each([&](bool m, bool d) { return busy("busy", m, d, dp(5, 7)); }, th);
		each([&](bool m, bool d) {
			Scenario s = core("declared", m, d, dp(6, 8));
			s.wvariants = {{0}, {1}};
			s.decl_foreign = s.decl_zombie = true;
			s.kinds |= K(FREEZE, UNFREEZE, FEVAL);
			s.budget[FREEZE] = s.budget[UNFREEZE] = s.budget[FEVAL] = 1;
			s.use_classes = {0, 1};
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = core("reinit", m, d, dp(6, 8));
			s.wvariants = {{0, 2, 3}, {1}};
			s.total_reinit = 2;
			s.decl_held = s.decl_foreign = true;
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = busy("retry3", m, d, dp(5, 7));
			s.F = 3;
			s.L = 1;
			s.statuses = {0, 2};
			return s;
		}, false);
		each(reuse, false);
		each(crowd, false);
		each(chatty, false);
		each(longrun, false);
		each(quiet, false);
		break;
	case 2:
		each([&](bool m, bool d) {
			Scenario s = core("accept", m, d, dp(6, 8));
			s.use_classes = {0, 1, 2, 3, 5, 6, 7, 9};
			s.wvariants = {{0}, {1}};
			s.kinds |= K(FREEZE, UNFREEZE, FEVAL);
			s.budget[FREEZE] = s.budget[UNFREEZE] = s.budget[FEVAL] = 1;
			s.statuses = {0, 2};
			return s;
		});
		each([&](bool m, bool d) {
			Scenario s = core("changing", m, d, dp(6, 8));
			s.wvariants = {{0, 2, 3}, {1}};
			s.total_reinit = 2;
			s.use_classes = {0, 1, 2, 3};
			s.statuses = {0};
			return s;
		}, false);
		each(reuse, false);
		each(crowd, false);
		each(wide, false);
		each(quiet, false);
		break;
	case 3:
		each([&](bool m, bool d) { return core("core", m, d, dp(7, 9)); });
		each([&](bool m, bool d) {
			Scenario s = core("changing", m, d, dp(6, 8));
			s.wvariants = {{0, 2, 3}, {1, 3}};
			s.use_classes = {0, 1, 2, 5, 7};
			s.total_reinit = 2;
			return s;
		}, false);
		each([&](bool m, bool d) { return busy("busy", m, d, dp(5, 7)); }, false);
		each(many, false);
		each(wide, false);
		each(retry3, false);
		each(later, false);
		each(later2, false);
		each(quiet, false);
		break;
	case 4:
		each([&](bool m, bool d) { return core("core", m, d, dp(6, 8)); });
		each([&](bool m, bool d) {
			Scenario s = core("declared", m, d, dp(6, 8));
			s.wvariants = {{0}, {1}, {0}};
			s.decl_foreign = s.decl_zombie = true;
			s.use_classes = {0, 1};
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = core("reinit", m, d, dp(6, 8));
			s.wvariants = {{0, 2}, {1}};
			s.total_reinit = 2;
			s.decl_held = true;
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = busy("stale", m, d, dp(4, 6));
			s.kinds |= K(STALE);
			s.budget[STALE] = 2;
			return s;
		}, false);
		each(many, false);
		each(retry3, false);
		each(quiet, false);
		break;
	case 5:
		each([&](bool m, bool d) {
			Scenario s = core("retry", m, d, dp(7, 9));
			s.wvariants = {{0}, {1}, {0}};
			s.use_classes = {0, 1};
			s.max_jobs = 3;
			return s;
		});
		for (int F : {1, 3, 5})
			each([&](bool m, bool d) {
				Scenario s = busy(("F" + std::to_string(F)).c_str(), m, d, F == 3 || F == 5 ? dp(6, 8) : dp(5, 7));
				s.F = F;
				s.L = 1;
				s.max_jobs = 3;
				s.use_classes = {0, 1};
				return s;
			}, false);
		each(reuse, false);
		each([&](bool m, bool d) {
			Scenario s = busy("reinit", m, d, dp(5, 7));
			s.wvariants = {{0, 2}, {1}, {0}};
			s.total_reinit = 2;
			s.decl_held = true;
			s.use_classes = {0};
			s.max_jobs = 2;
			return s;
		}, false);
		each(later, false);
		each(later2, false);
		each(longfail, false);
		each(quiet, false);
		break;
	case 6:
		each([&](bool m, bool d) {
			Scenario s = core("fine", m, d, dp(7, 9));
			s.interval = 100;
			s.ticks = {10, 60, 101};
			s.wvariants = {{0}, {1}};
			s.kinds = K(INIT, PING, TICK, TOUCH);
			s.budget[PING] = 2;
			s.budget[TOUCH] = 1;
			return s;
		}, false);
		for (int L : {0, 1, 3, 4})
			each([&](bool m, bool d) {
				Scenario s = core(("grace" + std::to_string(L)).c_str(), m, d, dp(7, 9));
				s.L = L;
				s.interval = 100;
				s.ticks = {50, 100, 101};
				s.wvariants = {{0}, {1}};
				s.kinds = K(INIT, PING, TICK, EVAL, DONE);
				s.budget[PING] = 1;
				s.statuses = {0};
				s.use_classes = {0};
				s.max_jobs = 1;
				s.decl_foreign = true;
				return s;
			}, false);
		each([&](bool m, bool d) {
			Scenario s = core("coarse", m, d, dp(7, 9));
			s.kinds = K(INIT, EVAL, DONE, TICK, TOUCH, PING);
			s.budget[TOUCH] = 2;
			s.wvariants = {{0, 2}, {1}};
			s.total_reinit = 1;
			s.use_classes = {0};
			s.max_jobs = 2;
			return s;
		}, false);
		each([&](bool m, bool d) { // a long grace period that is nearly over
			Scenario s = core("patient", m, d, dp(4, 6));
			s.L = 300;
			s.interval = 100;
			s.ticks = {60, 101};
			s.wvariants = {{0}, {1}};
			s.prefix = {I(0, 0)};
			for (int i = 0; i < 297; ++i) s.prefix.push_back({TICK, 1, 0, 0});
			s.prefix.push_back(I(1, 1));
			s.kinds = K(INIT, PING, TICK);
			s.budget[PING] = 2;
			s.nomerge = 1;
			return s;
		}, false);
		each([&](bool m, bool d) { // timer messages after stalls of weeks
			Scenario s = core("stall", m, d, dp(5, 7));
			s.interval = 100;
			s.ticks = {60, 101, 3000000000l, 4294967346l};
			s.wvariants = {{0}, {1}};
			s.kinds = K(INIT, PING, TICK);
			s.budget[PING] = 1;
			return s;
		}, false);
		break;
	case 7:
		each([&](bool m, bool d) { return core("core", m, d, dp(7, 9)); });
		each([&](bool m, bool d) {
			Scenario s = busy("deaths", m, d, dp(5, 7));
			s.prefix = {I(0, 0), I(1, 1), I(2, 0), E(0, 0), E(0, 1), E(0, 2), E(0, 3), E(1, 4), E(2, 5)};
			s.max_jobs = 7;
			s.use_classes = {0};
			s.statuses = {0, 2};
			return s;
		});
		each([&](bool m, bool d) {
			Scenario s = busy("ticks", m, d, dp(6, 8));
			s.kinds = K(INIT, EVAL, DONE, TICK, PING);
			s.statuses = {0};
			s.use_classes = {0};
			s.F = 3;
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = core("declared", m, d, dp(6, 7));
			s.wvariants = {{0}, {1}};
			s.decl_foreign = s.decl_zombie = true;
			s.use_classes = {0};
			return s;
		}, false);
		each(many, false);
		each(retry3, false);
		each(later, false);
		each(later2, false);
		each(quiet, false);
		break;
	case 8:
		each([&](bool m, bool d) {
			Scenario s = core("stale", m, d, dp(6, 8));
			s.stale_status_mask = 15;
			s.kinds |= K(STALE);
			s.budget[STALE] = 2;
			s.wvariants = {{0}, {1}};
			s.use_classes = {0};
			s.max_jobs = 3;
			return s;
		}, th);
		each([&](bool m, bool d) {
			Scenario s = busy("stalebusy", m, d, dp(4, 6));
			s.stale_status_mask = 15;
			s.kinds |= K(STALE);
			s.budget[STALE] = 3;
			s.use_classes = {0};
			s.max_jobs = 4;
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = core("staledecl", m, d, dp(5, 7));
			s.wvariants = {{0}, {1}};
			s.decl_foreign = s.decl_zombie = true;
			s.stale_status_mask = 15;
			s.kinds |= K(STALE);
			s.budget[STALE] = 2;
			s.use_classes = {0};
			return s;
		}, false);
		each(chatty, false);
		each(reuse, false);
		break;
	case 10:
		each([&](bool m, bool d) {
			Scenario s = core("payload", m, d, dp(6, 8));
			s.kinds |= K(PROGRESS);
			s.budget[PROGRESS] = 1;
			s.use_classes = {0, 1, 2, 4, 5, 6, 9};
			s.wvariants = {{0}, {1}};
			s.max_jobs = 4;
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = busy("payload2", m, d, dp(4, 6));
			s.prefix = {I(0, 0), I(1, 1), E(0, 0), E(4, 1), E(2, 2), E(1, 3)};
			s.use_classes = {0, 4};
			s.max_jobs = 6;
			return s;
		}, false);
		each(reuse, false);
		break;
	case 11:
		each([&](bool m, bool d) {
			Scenario s = core("order", m, d, dp(7, 9));
			s.kinds |= K(CLOCK);
			s.budget[CLOCK] = 2;
			s.wvariants = {{0}, {1}};
			s.statuses = {0, 2};
			s.max_jobs = 5;
			s.key_order = true;
			s.budget[EXPIRE] = 1;
			return s;
		});
		for (int bits : {31, 32}) // the clock exceeds 32 bits
			each([&](bool m, bool d) {
				Scenario s = core(("clock" + std::to_string(bits)).c_str(), m, d, dp(4, 6));
				s.mono0 = ((1ll << bits) - 2) * 1000;
				s.prefix = {I(0, 0), I(1, 1), E(0, 0), E(0, 1)};
				s.kinds |= K(CLOCK);
				s.budget[CLOCK] = 2;
				for (int i = 0; i < 3; ++i) {
					s.prefix.push_back(E(0, 2 + i));
					s.prefix.push_back({CLOCK, 0, 0, 0});
				}
				s.wvariants = {{0}, {1}};
				s.statuses = {0, 2};
				s.use_classes = {0};
				s.max_jobs = 7;
				s.key_order = true;
				return s;
			}, false);
		for (int n : {20, 40})
			each([&](bool m, bool d) {
				Scenario s = core(("long" + std::to_string(n)).c_str(), m, d, dp(4, 6));
				s.prefix = {I(0, 0), I(1, 1)};
				for (int i = 0; i < n; ++i) {
					s.prefix.push_back(E(i % 5 == 3 ? 1 : i % 7 == 2 ? 2 : 0, i));
					if (i == 13) s.prefix.push_back({CLOCK, 0, 0, 0});
					if (i == 17) s.prefix.push_back({CLOCK, 2, 0, 0});
				}
				s.wvariants = {{0}, {1}};
				s.statuses = {0, 1, 2};
				s.use_classes = {0};
				s.max_jobs = n + 1;
				return s;
			}, false);
		break;
	case 12:
		each([&](bool m, bool d) { return core("core", m, d, dp(7, 9)); });
		each([&](bool m, bool d) { return busy("busy", m, d, dp(5, 7)); }, th);
		each([&](bool m, bool d) {
			Scenario s = core("declared", m, d, dp(6, 8));
			s.wvariants = {{0}, {1}};
			s.decl_foreign = s.decl_zombie = true;
			s.use_classes = {0, 1};
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = core("reinit", m, d, dp(6, 8));
			s.wvariants = {{0, 2, 3}, {1}};
			s.total_reinit = 2;
			s.statuses = {0, 2};
			return s;
		}, false);
		each(many, false);
		each(crowd, false);
		each(retry3, false);
		each(later, false);
		each(later2, false);
		each(quiet, false);
		break;
	case 13:
		each([&](bool m, bool d) {
			Scenario s = core("spread", m, d, dp(8, 10));
			s.kinds = K(INIT, EVAL, DONE);
			s.statuses = {0, 2};
			s.use_classes = {0, 1};
			s.max_jobs = 6;
			s.key_runs = true;
			return s;
		});
		each([&](bool m, bool d) {
			Scenario s = core("spread3", m, d, dp(7, 9));
			s.prefix = {I(0, 0), I(1, 1), I(2, 0)};
			s.kinds = K(EVAL, DONE, EXPIRE, INIT, FREEZE, FEVAL, UNFREEZE);
			s.budget[FREEZE] = s.budget[UNFREEZE] = s.budget[FEVAL] = 1;
			s.budget[EXPIRE] = 1;
			s.statuses = {0};
			s.use_classes = {0, 3};
			s.max_jobs = 7;
			s.key_runs = true;
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = core("spread5", m, d, dp(7, 9));
			s.wvariants = {{0}, {1}, {0}, {2}, {1}};
			s.prefix = {I(0, 0), I(1, 1), I(2, 0), I(3, 2), I(4, 1)};
			s.kinds = K(EVAL, DONE);
			s.statuses = {0};
			s.use_classes = {0, 2};
			s.max_jobs = 12;
			s.key_runs = true;
			return s;
		}, false);
		for (int nk : {2, 3, 12, 13})
			each([&](bool m, bool d) { // longer runs, also on queues that are long already
				int n = nk % 10, len = nk > 10 ? 60 : 14;
				Scenario s = core(("spreadlong" + std::to_string(nk)).c_str(), m, d, nk > 10 ? dp(2, 4) : dp(4, 6));
				s.wvariants = {{0}, {1}, {0}};
				s.wvariants.resize((std::size_t) n);
				s.prefix = {I(0, 0), I(1, 1), I(2, 0)};
				s.prefix.resize((std::size_t) n);
				for (int i = 0; i < len; ++i) s.prefix.push_back(E(i % 5 == 4 && n == 3 ? 2 : 0, i));
				s.kinds = K(EVAL, DONE);
				s.use_classes = {0, 2};
				s.max_jobs = len + 6;
				s.key_runs = true;
				return s;
			}, false);
		each(quiet, false);
		break;
	case 14:
		each([&](bool m, bool d) {
			Scenario s = core("frozen", m, d, dp(7, 8));
			s.kinds |= K(FREEZE, UNFREEZE, FEVAL);
			s.budget[FREEZE] = s.budget[UNFREEZE] = s.budget[FEVAL] = 2;
			s.wvariants = {{0}, {1}};
			s.use_classes = {0, 1};
			s.statuses = {0, 2};
			return s;
		}, th);
		each([&](bool m, bool d) {
			Scenario s = busy("frozenbusy", m, d, dp(5, 7));
			s.F = 4;
			s.kinds |= K(FREEZE, UNFREEZE, FEVAL);
			s.budget[FREEZE] = s.budget[UNFREEZE] = s.budget[FEVAL] = 1;
			s.use_classes = {0, 3, 4};
			return s;
		}, false);
		break;
	case 15:
		each([&](bool m, bool d) {
			Scenario s = core("stats", m, d, dp(6, 8));
			s.kinds |= K(STATS, FREEZE, UNFREEZE, STALE);
			s.budget[STATS] = s.budget[FREEZE] = s.budget[UNFREEZE] = s.budget[STALE] = 1;
			s.wvariants = {{0}, {1}};
			s.use_classes = {0, 3};
			s.decl_foreign = true;
			s.key_stats = true;
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = busy("statsbusy", m, d, dp(5, 7));
			s.use_classes = {0, 1};
			s.key_stats = true;
			return s;
		}, false);
		each(many, false);
		each(retry3, false);
		each(longrun, false);
		each(quiet, false);
		break;
	case 16:
		each([&](bool m, bool d) {
			Scenario s = core("monitor", m, d, dp(6, 8));
			s.kinds |= K(PROGRESS, FREEZE, FEVAL);
			s.budget[PROGRESS] = s.budget[FREEZE] = s.budget[FEVAL] = 1;
			s.use_classes = {0, 1, 3};
			s.decl_foreign = true;
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = busy("monitor2", m, d, dp(5, 7));
			s.use_classes = {0, 1, 3};
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = busy("monitor3", m, d, dp(5, 7));
			s.F = 1;
			s.L = 1;
			s.use_classes = {0, 1};
			return s;
		}, false);
		each(many, false);
		each(retry3, false);
		each(quiet, false);
		break;
	case 17:
		each([&](bool m, bool d) {
			Scenario s = core("init", m, d, dp(6, 8));
			s.wvariants = {{0, 2, 3}, {1}};
			s.kinds |= K(PING);
			s.budget[PING] = 1;
			s.total_reinit = 2;
			s.decl_foreign = s.decl_held = true;
			s.use_classes = {0, 2};
			s.statuses = {0, 2};
			s.max_jobs = 3;
			return s;
		}, th);
		each([&](bool m, bool d) {
			Scenario s = busy("initbusy", m, d, dp(4, 6));
			s.wvariants = {{0, 2, 3}, {1, 0}};
			s.total_reinit = 3;
			s.decl_held = s.decl_foreign = true;
			s.use_classes = {0, 2};
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = core("declared", m, d, dp(6, 8));
			s.wvariants = {{0}, {1}};
			s.decl_foreign = s.decl_zombie = true;
			s.use_classes = {0, 1};
			s.total_reinit = 1;
			return s;
		}, false);
		each([&](bool m, bool d) { // announcements that differ in one detail
			Scenario s = core("details", m, d, dp(4, 6));
			s.variants = {
				{"g1", {"env=c", "threads=4"}},
				{"g1", {"threads=4", "env=c"}}, // the same
				{"g1", {"env=c", "threads=8"}},
				{"g1", {"env=c", "env=py", "threads=4"}},
				{"g1", {"env=c"}},
				{"g1", {"env=cc", "threads=4"}},
				{"g1", {"lang=c", "threads=4"}},
				{"g2", {"env=c", "threads=4"}},
				{"g1", {}},
				{"", {"env=c", "threads=4"}},
				{"gp", {"env=c", "env=py", "lang=c", "env=cc", "threads=64"}},
			};
			s.classes = {{{"env=c"}, {"x"}}, {{"threads=6"}, {}}, {{"hwgroup=g2|gp"}, {}}, {{"env=py"}, {}}, {{"lang=c"}, {}}, {{"env=cc", "threads=2"}, {}}};
			s.use_classes = {0, 1, 2, 3, 4, 5};
			s.wvariants = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {0}};
			s.kinds = K(INIT, EVAL, DONE);
			s.statuses = {0};
			s.total_reinit = 3;
			s.max_jobs = 2;
			return s;
		}, false);
		each([&](bool m, bool d) { // more identities
			Scenario s = core("ids", m, d, dp(5, 6));
			s.wvariants = {{0}, {1}, {3}, {0}, {1}};
			s.kinds |= K(PING, FREEZE);
			s.budget[PING] = s.budget[FREEZE] = 1;
			s.statuses = {0};
			s.use_classes = {0};
			s.max_jobs = 2;
			s.budget[EXPIRE] = 1;
			return s;
		}, false);
		each(quiet, false);
		break;
	case 26:
		each([&](bool m, bool d) {
			Scenario s = core("truth", m, d, dp(6, 8));
			s.decl_foreign = true;
			s.use_classes = {0, 1};
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = busy("truthbusy", m, d, dp(5, 7));
			s.kinds |= K(STALE);
			s.budget[STALE] = 1;
			s.use_classes = {0, 1};
			return s;
		}, false);
		each([&](bool m, bool d) {
			Scenario s = busy("truth1", m, d, dp(5, 7));
			s.F = 1;
			s.L = 1;
			return s;
		}, false);
		each(reuse, false);
		each(retry3, false);
		each(longfail, false);
		each(quiet, false);
		break;
	}
	return r;
}
