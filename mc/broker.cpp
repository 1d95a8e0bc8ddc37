// Explicit exploration of the real broker logic: every event sequence up to a depth, states merged by
// specification facts + behavioural fingerprint (the traces of three probe continuations).
#define VERIF_ARENA
#define VERIF_VCLOCK
#include "world.h"
#include "par.h"
#include "report.h"
#include "scenarios.h"
#include "twins.h"
#include <unordered_set>
#include <yaml-cpp/yaml.h>

static std::shared_ptr<broker_config> make_config(const Scenario &s)
{
	return std::make_shared<broker_config>(YAML::Load("workers:\n  max_liveness: " + std::to_string(s.L) +
		"\n  max_request_failures: " + std::to_string(s.F) + "\n  ping_interval: " + std::to_string(s.interval) + "\n"));
}

static int PROP = 1;
static std::shared_ptr<broker_config> CFG;

struct Run {
	std::uint64_t h1, h2;
	bool hard;
	std::vector<Violation> viol;
	std::string facts;
	std::vector<Ev> next;
};

static bool neutral(const Ev &e)
{
	return e.k == STALE || e.k == FEVAL || e.k == STATS || ((e.k == FREEZE || e.k == UNFREEZE) && PROP == 14);
}

// one execution of the real code: history, then one probe (or none)
static Run execute_here(const Scenario &s, const History &h, int probe, bool want_next, bool want_facts, std::string *log, int diff)
{
	Run r;
	vclock::reset();
	arena::begin(s.down);
	{
		World w(s, CFG);
		w.log = log;
		for (auto &e : s.prefix) {
			if (log) *log += show(e) + "\n";
			w.apply_counted(e);
		}
		w.reinit_count = 0;
		for (auto &e : h) {
			if (w.hard) break;
			if (log) *log += show(e) + "\n";
			w.hashing = diff && e.k != PING && !neutral(e);
			w.apply_counted(e);
		}
		w.hashing = false;
		if (!w.hard) {
			if (want_facts) {
				std::string f = w.facts();
				arena::S.active = false;
				r.facts = std::string(f.c_str(), f.size());
				arena::S.active = true;
			}
			if (want_next) {
				std::vector<Ev> n;
				w.enabled(h, n);
				arena::S.active = false;
				r.next = std::vector<Ev>(n.begin(), n.end());
				arena::S.active = true;
			}
			if (probe >= 0) {
				if (log) *log += "-- probe " + std::to_string(probe) + "\n";
				w.probe(probe, diff);
			}
		}
		r.h1 = w.h1;
		r.h2 = w.h2;
		r.hard = w.hard;
		if (!w.viol.empty()) {
			arena::S.active = false;
			for (auto &v : w.viol) r.viol.push_back({v.tags, std::string(v.text.c_str())});
			arena::S.active = true;
		}
	}
	arena::end();
	return r;
}

static Run execute(const Scenario &s, const History &h, int probe, bool want_next, bool want_facts, std::string *log = nullptr, int diff = 0)
{
	if (!par::isolate || log) return execute_here(s, h, probe, want_next, want_facts, log, diff);
	auto o = par::call([&] {
		Run r = execute_here(s, h, probe, want_next, want_facts, nullptr, diff);
		std::string q;
		auto num = [&](std::uint64_t v) { q.append((char *) &v, 8); };
		num(r.h1);
		num(r.h2);
		num(r.hard);
		num(r.facts.size());
		q += r.facts;
		num(r.next.size());
		q.append((char *) r.next.data(), r.next.size() * sizeof(Ev));
		num(r.viol.size());
		for (auto &v : r.viol) {
			num(v.tags);
			num(v.text.size());
			q += v.text;
		}
		return q;
	});
	std::size_t p = 0;
	auto num = [&]() {
		std::uint64_t v;
		std::memcpy(&v, o.data() + p, 8);
		p += 8;
		return v;
	};
	auto str = [&]() {
		std::size_t n = num();
		p += n;
		return o.substr(p - n, n);
	};
	Run r;
	r.h1 = num();
	r.h2 = num();
	r.hard = num();
	r.facts = str();
	r.next.resize(num());
	std::memcpy((void *) r.next.data(), o.data() + p, r.next.size() * sizeof(Ev));
	p += r.next.size() * sizeof(Ev);
	for (std::size_t n = num(); n; --n) {
		tagset t = (tagset) num();
		r.viol.push_back({t, str()});
	}
	return r;
}

static History strip(const Scenario &s, const History &h, const Ev &last)
{
	(void) s;
	History o;
	for (auto &e : h) {
		if (e.k == STALE) o.push_back({PING, e.a, 0, 0});
		else if (e.k == FEVAL || e.k == STATS) continue;
		else if ((e.k == FREEZE || e.k == UNFREEZE) && PROP == 14) continue;
		else o.push_back(e);
	}
	(void) last;
	return o;
}
// a violation of another property that does not happen if the broker is never frozen
static bool only_frozen(const Scenario &s, const History &h, int probe, const Run &r)
{
	if (PROP != 14 || r.viol.empty()) return false;
	bool froze = false;
	for (auto &e : h) froze = froze || e.k == FREEZE;
	return froze && execute(s, strip(s, h, h.back()), probe, false, false).viol.empty();
}
static bool relevant(const Violation &v) { return v.tags == T_ANY || (v.tags >> PROP & 1); }

struct Node { // compact history
	std::uint8_t n;
	Ev ev[15];
};

static std::string hist_str(const Scenario &s, const History &h)
{
	std::string r;
	for (auto &e : s.prefix) r += show(e) + " ";
	if (!s.prefix.empty()) r += "; ";
	for (auto &e : h) r += show(e) + " ";
	return r;
}

struct Rec {
	std::uint64_t k1, k2;
	std::uint32_t parent;
	Ev ev;
	std::uint8_t kind; // 0 node, 1 violation, 2 pruned, 3 counters
	std::uint8_t probe;
	std::uint16_t len;
};

struct Stats {
	std::uint64_t states = 0, transitions = 0, executions = 0, pruned = 0, merged = 0;
	int depth_done = 0;
	bool complete = true;
};

static std::string replay_text(const Scenario &s, const History &h, int probe, const std::string &text)
{
	std::string r = "harness broker\nproperty C" + std::string(PROP < 10 ? "0" : "") + std::to_string(PROP) + "\nscenario " + s.name + "\nprobe " +
		std::to_string(probe) + "\nevents";
	for (auto &e : h) {
		char b[32];
		std::snprintf(b, sizeof b, " %d.%d.%d.%d", e.k, e.a, e.b, e.c);
		r += b;
	}
	return r + "\nviolation " + text + "\n";
}

// confirm in a fresh process and collect the trace
static bool confirm(const Scenario &s, const History &h, int probe, std::string &text, std::string &trace)
{
	std::string out;
	int rc = par::isolated(
		[&](FILE *f) {
			std::string log;
			Run r;
			if (probe == 9) {
				log = "(differential run)\n";
			}
			r = execute(s, h, probe == 9 ? 0 : probe, false, false, &log);
			std::string t;
			for (auto &v : r.viol)
				if (relevant(v)) {
					t = v.text;
					break;
				}
			if (t.empty() && probe != 9 && only_frozen(s, h, probe, r)) t = "only when frozen: " + r.viol[0].text;
			if (probe == 9 && t.empty()) {
				History st = strip(s, h, h.back());
				for (int q = 0; q < 6 && t.empty(); ++q) {
					std::string l1, l2;
					int p = q % 3, diff = q / 3 + 1;
					Run a = execute(s, h, p, false, false, &l1, diff), b = execute(s, st, p, false, false, &l2, diff);
					if (a.h1 != b.h1 || a.h2 != b.h2)
						t = "an event that must have no effect changes what the broker does later (probe " + std::to_string(p) + ")",
						log += l1 + "== without it ==\n" + l2;
				}
			}
			std::fprintf(f, "%s\n%s", t.c_str(), log.c_str());
		},
		out, 30);
	if (rc != 0) {
		text = rc == -1 ? "the broker does not return from handling a message"
						: "the broker crashes (signal/exit " + std::to_string(rc) + ")";
		trace = out;
		return true;
	}
	auto p = out.find('\n');
	text = out.substr(0, p);
	trace = p == std::string::npos ? "" : out.substr(p + 1);
	return !text.empty();
}

static std::size_t keep = 1200; // nothing is merged at levels up to this size

static void explore(const Scenario &s, report::Result &res, double deadline)
{
	CFG = make_config(s);
	Stats st;
	double t0 = par::now();
	struct KeyHash {
		std::size_t operator()(const std::pair<std::uint64_t, std::uint64_t> &k) const { return k.first ^ (k.second * 31); }
	};
	std::unordered_set<std::pair<std::uint64_t, std::uint64_t>, KeyHash> seen;
	std::vector<History> frontier = {History()};
	std::vector<std::string> samples;
	std::map<std::string, std::uint64_t> kinds;

	auto eval_node = [&](const History &h, Rec &rec, std::string &vtext) {
		// returns via rec.kind
		std::uint64_t k1 = 1469598103934665603ull, k2 = 0x51ED270B7A4Full;
		for (int p = 0; p < 3; ++p) {
			par::sub((std::uint64_t) p);
			Run r = execute(s, h, p, false, p == 0);
			for (auto &v : r.viol) {
				if (relevant(v)) {
					rec.kind = 1;
					rec.probe = (std::uint8_t) p;
					vtext = v.text;
					return;
				}
			}
			if (only_frozen(s, h, p, r)) {
				rec.kind = 1;
				rec.probe = (std::uint8_t) p;
				vtext = r.viol[0].text;
				return;
			}
			if (p == 0 && r.facts.empty()) { // broken in a way another property is responsible for
				rec.kind = 2;
				return;
			}
			if (p == 0)
				for (unsigned char c : r.facts) {
					k1 = (k1 ^ c) * 1099511628211ull;
					k2 = (k2 + c) * 0x9E3779B97F4A7C15ull;
					k2 ^= k2 >> 31;
				}
			k1 = (k1 ^ r.h1) * 0xBF58476D1CE4E5B9ull;
			k2 = (k2 ^ r.h2) * 0x94D049BB133111EBull;
			k1 ^= k1 >> 32;
			k2 ^= k2 >> 29;
		}
		if (!h.empty() && neutral(h.back()) && (PROP == 8 || PROP == 14 || PROP == 15)) {
			History sth = strip(s, h, h.back());
			for (int q = 0; q < 6; ++q) {
				int p = q % 3, diff = q / 3 + 1;
				if (diff == 2 && PROP != 14) break;
				par::sub(10 + (std::uint64_t) q);
				Run a = execute(s, h, p, false, false, nullptr, diff), b = execute(s, sth, p, false, false, nullptr, diff);
				if (!a.hard && !b.hard && (a.h1 != b.h1 || a.h2 != b.h2)) {
					rec.kind = 1;
					rec.probe = 9;
					vtext = "differential";
					return;
				}
			}
		}
		rec.kind = 0;
		rec.k1 = k1;
		rec.k2 = k2;
	};

	{
		Rec r;
		std::string t;
		// the initial state itself
		std::string out;
		int rc = par::isolated(
			[&](FILE *f) {
				std::memset(&r, 0, sizeof r);
				eval_node(History(), r, t);
				std::fputc('0' + r.kind, f);
				std::fputc('0' + r.probe, f);
			},
			out, 60);
		if (rc != 0 || out.empty() || out[0] == '1') {
			std::string text, trace;
			int probe = rc == 0 && out.size() > 1 ? out[1] - '0' : 0;
			if (confirm(s, History(), probe, text, trace)) {
				res.violations.push_back({text, replay_text(s, History(), probe, text) + trace});
				return;
			}
			std::fprintf(stderr, "internal: initial state could not be evaluated\n");
			std::exit(3);
		}
	}

	for (int d = 0; d < s.depth && !frontier.empty(); ++d) {
		std::vector<par::Dead> dead;
		auto recs = par::run(
			frontier.size(), frontier.size() > 4000 ? 32 : 2,
			[&](std::uint64_t i, std::string &out) {
				const History &h = frontier[i];
				Run base = execute(s, h, -1, true, false);
				std::uint64_t ex = 1;
				for (auto &e : base.next) {
					History c = h;
					c.push_back(e);
					Rec rec;
					std::memset(&rec, 0, sizeof rec);
					rec.parent = (std::uint32_t) i;
					rec.ev = e;
					std::string t;
					if (par::self_shared) par::self_shared->slot[par::self_slot].sub = 0;
					eval_node(c, rec, t);
					ex += 3;
					out.append((const char *) &rec, sizeof rec);
					if (rec.kind == 1) {
						par::request_stop();
						return;
					}
					if (par::stopped()) return;
				}
				Rec rec;
				std::memset(&rec, 0, sizeof rec);
				rec.kind = 3;
				rec.k1 = ex;
				out.append((const char *) &rec, sizeof rec);
			},
			dead, deadline, 30);
		for (auto &dd : dead) {
			// find which child: re-run each in isolation
			Run base = execute(s, frontier[dd.index], -1, true, false);
			for (auto &e : base.next) {
				History c = frontier[dd.index];
				c.push_back(e);
				for (int p = 0; p < 3; ++p) {
					std::string text, trace;
					if (confirm(s, c, p, text, trace)) {
						res.violations.push_back({text, replay_text(s, c, p, text) + trace});
						return;
					}
				}
			}
			std::fprintf(stderr, "internal: an explorer process died (%d) and the cause did not reproduce\n", dd.sig);
			std::exit(3);
		}
		std::vector<Rec> all;
		std::uint64_t items = 0;
		for (auto &b : recs)
			for (std::size_t o = 0; o + sizeof(Rec) <= b.size(); o += sizeof(Rec)) {
				Rec r;
				std::memcpy(&r, b.data() + o, sizeof r);
				if (r.kind == 3) {
					st.executions += r.k1;
					++items;
				} else {
					all.push_back(r);
				}
			}
		std::sort(all.begin(), all.end(), [](const Rec &a, const Rec &b) {
			if (a.parent != b.parent) return a.parent < b.parent;
			return std::memcmp(&a.ev, &b.ev, 4) < 0;
		});
		for (auto &r : all) {
			if (r.kind != 1) continue;
			History c = frontier[r.parent];
			c.push_back(r.ev);
			std::string text, trace;
			if (!confirm(s, c, r.probe, text, trace) && par::isolate) text = "a violation that is not reproducible";
			if (text.empty()) {
				std::fprintf(stderr, "internal: violation did not reproduce: %s\n", hist_str(s, c).c_str());
				std::exit(3);
			}
			res.violations.push_back({text, replay_text(s, c, r.probe, text) + trace});
			return;
		}
		std::vector<History> nf;
		for (auto &r : all) {
			st.transitions++;
			if (r.kind == 2) {
				st.pruned++;
				continue;
			}
			bool fresh = seen.insert({r.k1, r.k2}).second;
			if (fresh) st.states++;
			if (fresh || d + 1 <= s.nomerge || all.size() <= keep) {
				History c = frontier[r.parent];
				c.push_back(r.ev);
				if (samples.size() < 2 && d + 1 == s.depth && nf.size() % 101 == 57) samples.push_back(hist_str(s, c));
				nf.push_back(c);
			} else {
				st.merged++;
			}
		}
		if (items < frontier.size()) {
			st.complete = false;
			break;
		}
		st.depth_done = d + 1;
		frontier.swap(nf);
		if (par::now() > deadline) {
			if (d + 1 < s.depth && !frontier.empty()) st.complete = false;
			break;
		}
	}
	if (samples.empty() && !frontier.empty()) samples.push_back(hist_str(s, frontier[frontier.size() / 2]));
	double dt = par::now() - t0;
	res.counts["states"] += st.states + 1;
	res.counts["transitions"] += st.transitions;
	res.counts["executions"] += st.executions;
	res.counts["pruned"] += st.pruned;
	if (!st.complete) res.exhaustive = false;
	for (auto &x : samples) res.samples.push_back(s.name + ": " + x);
	char b[400];
	std::snprintf(b, sizeof b,
		"{\"scenario\": \"%s\", \"depth\": %d, \"depth_bound\": %d, \"states\": %llu, \"transitions\": %llu, \"executions\": %llu, "
		"\"pruned\": %llu, \"complete\": %s, \"wall_s\": %.2f}",
		s.name.c_str(), st.depth_done, s.depth, (unsigned long long) st.states + 1, (unsigned long long) st.transitions,
		(unsigned long long) st.executions, (unsigned long long) st.pruned, st.complete ? "true" : "false", dt);
	res.parts.push_back(b);
	std::fprintf(stderr, "%s\n", b);
}

int main(int argc, char **argv)
{
	std::string tier = "quick", out, replay, only;
	double limit = 600;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(argv[++i]); };
		if (a == "--prop") PROP = std::atoi(val().c_str() + 1);
		else if (a == "--tier") tier = val();
		else if (a == "--out") out = val();
		else if (a == "--replay") replay = val();
		else if (a == "--only") only = val();
		else if (a == "--limit") limit = std::atof(val().c_str());
	}
	if (tier == "thorough") keep = 12000;
	vclock::active = true;
	if (!replay.empty()) {
		FILE *f = std::fopen(replay.c_str(), "r");
		if (!f) return 2;
		char line[1 << 16];
		std::string scn;
		int probe = 0;
		History h;
		while (std::fgets(line, sizeof line, f)) {
			std::string l = line;
			while (!l.empty() && (l.back() == '\n')) l.pop_back();
			if (l.compare(0, 9, "scenario ") == 0) scn = l.substr(9);
			if (l.compare(0, 9, "property ") == 0) PROP = std::atoi(l.c_str() + 10);
			if (l.compare(0, 6, "probe ") == 0) probe = std::atoi(l.c_str() + 6);
			if (l.compare(0, 6, "twins ") == 0) {
				for (bool th : {false, true})
					for (auto &t : twins::setups(th))
						if (t.name == scn) {
							std::string trace;
							auto o = twins::confirm(t, l.substr(6), trace);
							std::printf("%s\n%s\n", trace.c_str(), o.tags ? ("VIOLATED: " + o.text).c_str() : "no violation");
							return o.tags ? 1 : 0;
						}
				return 2;
			}
			if (l.compare(0, 6, "events") == 0) {
				std::stringstream ss(l.substr(6));
				std::string x;
				while (ss >> x) {
					int k, a, b, c;
					std::sscanf(x.c_str(), "%d.%d.%d.%d", &k, &a, &b, &c);
					h.push_back({(std::uint8_t) k, (std::uint8_t) a, (std::uint8_t) b, (std::uint8_t) c});
				}
				break;
			}
		}
		for (auto tr : {"quick", "thorough"})
			for (auto &s : scenarios_for(PROP, tr))
				if (s.name == scn) {
					CFG = make_config(s);
					std::string text, trace;
					bool v = confirm(s, h, probe, text, trace);
					std::printf("%s\n%s\n", trace.c_str(), v ? ("VIOLATED: " + text).c_str() : "no violation");
					return v ? 1 : 0;
				}
		std::fprintf(stderr, "scenario not found\n");
		return 2;
	}
	report::Result res;
	auto scs = scenarios_for(PROP, tier);
	double start = par::now();
	for (std::size_t i = 0; i < scs.size() && res.violations.empty(); ++i) {
		if (!only.empty() && scs[i].name != only) continue;
		// processes of their own are slow: every scenario gets its share then
		double end = start + limit, now = par::now();
		explore(scs[i], res, par::isolate ? now + (end - now) / (double) (scs.size() - i) : end);
	}
	static const std::set<int> with_twins = {1, 2, 4, 5, 7, 8, 10, 12, 16, 26};
	if (only.empty() && with_twins.count(PROP) && !par::isolate)
		for (auto &t : twins::setups(tier == "thorough"))
			if (res.violations.empty()) twins::explore(PROP, t, res, start + limit);
	if (!out.empty()) res.write(out);
	for (auto &v : res.violations) std::printf("VIOLATED: %s\n%s\n", v.first.c_str(), v.second.c_str());
	return res.violations.empty() ? 0 : 1;
}
