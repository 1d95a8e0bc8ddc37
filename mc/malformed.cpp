// C09: every message over an alphabet of frames, from every kind of sender, in every kind of broker state, on the real handler
// compiled with address and undefined behaviour sanitizers; afterwards the broker has to serve others as usual.
#include "par.h"
#include "report.h"
#include "broker_connect.h"
#include "config/broker_config.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "worker_registry.h"
#include <map>

namespace
{
	using Msg = std::vector<std::string>;
	struct Bad {
		std::string what;
	};
	std::string show(const std::string &s)
	{
		std::string r = "\"";
		for (std::size_t i = 0; i < s.size() && i < 40; ++i) {
			unsigned char c = s[i];
			if (c < 32 || c > 126) {
				char b[8];
				std::snprintf(b, sizeof b, "\\x%02x", c);
				r += b;
			} else r += c;
		}
		if (s.size() > 40) r += "...(" + std::to_string(s.size()) + ")";
		return r + "\"";
	}
	std::string show(const Msg &m)
	{
		std::string r = "[";
		for (auto &f : m) r += (r.size() > 1 ? " " : "") + show(f);
		return r + "]";
	}
	struct In {
		bool worker;
		std::string sender;
		Msg m;
	};
	std::string show(const In &i) { return (i.worker ? "worker " : "client ") + show(i.sender) + " sends " + show(i.m); }

	struct Rig {
		std::shared_ptr<worker_registry> registry = std::make_shared<worker_registry>();
		std::shared_ptr<queue_manager_interface> queue;
		std::shared_ptr<broker_config> config = std::make_shared<broker_config>();
		std::unique_ptr<broker_handler> b;
		std::vector<message_container> out;
		std::map<std::string, std::string> held; // by worker
		explicit Rig(bool multi)
		{
			if (multi) queue.reset(new multi_queue_manager());
			else queue.reset(new single_queue_manager<>());
			std::shared_ptr<spdlog::logger> logger; // everything or the default
			if (!multi) {
				logger = helpers::create_null_logger();
				logger->set_level(spdlog::level::trace);
			}
			b.reset(new broker_handler(config, registry, queue, logger));
		}
		void raw(const std::string &key, const std::string &id, const Msg &m)
		{
			out.clear();
			b->on_request(message_container(key, id, m), [this](const message_container &c) { out.push_back(c); });
			for (auto &c : out)
				if (c.key == broker_connect::KEY_WORKERS && c.data.size() >= 2 && c.data[0] == "eval") held[c.identity] = c.data[1];
		}
		void W(const std::string &id, const Msg &m) { raw(broker_connect::KEY_WORKERS, id, m); }
		void C(const std::string &id, const Msg &m) { raw(broker_connect::KEY_CLIENTS, id, m); }
		void T(int ms) { raw(broker_connect::KEY_TIMER, "", {std::to_string(ms)}); }
		bool has(const std::string &key, const std::string &id, const std::string &first)
		{
			for (auto &c : out)
				if (c.key == key && c.identity == id && !c.data.empty() && c.data[0] == first) return true;
			return false;
		}
		bool reported(const std::string &job, const std::string &status)
		{
			for (auto &c : out)
				if (c.key == broker_connect::KEY_STATUS_NOTIFIER) {
					bool j = false, s = false;
					for (auto &d : c.data) j |= d == job, s |= d == status;
					if (j && s) return true;
				}
			return false;
		}
		void setup(int st)
		{
			W("v", {"init", "gv", "env=v", "threads=4"});
			C("c", {"eval", "jv", "env=v", "hwgroup=gv", "", "data"});
			if (st == 0) return;
			W("w", {"init", "g", "env=a", "threads=4"});
			if (st == 1) return;
			if (st == 2) { // the worker holds a job
				C("c", {"eval", "j1", "env=a", "", "x"});
			} else if (st == 3) { // and others wait
				C("c", {"eval", "j1", "env=a", "", "x"});
				C("c", {"eval", "j2", "env=a", "", "x"});
				C("d", {"eval", "j3", "hwgroup=g|h", "", "x"});
			} else if (st == 4) { // declared its job
				for (int i = 0; i < 5; ++i) T(1100), W("v", {"ping"});
				W("w", {"init", "g", "env=a", "threads=4", "", "current_job=j1", "description=w one"});
			} else if (st == 5) { // frozen
				C("c", {"eval", "j1", "env=a", "", "x"});
				C("c", {"freeze"});
			} else if (st == 6) { // w has expired
				C("c", {"eval", "j1", "env=a", "", "x"});
				for (int i = 0; i < 5; ++i) T(1100), W("v", {"ping"});
			} else if (st == 7) { // one failure before the limit
				C("c", {"eval", "j1", "env=a", "", "x"});
				W("w", {"done", "j1", "INTERNAL_ERROR", "e"});
				W("w", {"done", "j1", "INTERNAL_ERROR", "e"});
			} else if (st == 8) { // a job without a name
				C("c", {"eval", "", "env=a", "", "x"});
				C("", {"eval", "j1", "env=a", "", ""});
			} else if (st == 9) { // workers without a name
				W("", {"init", ""});
				W(std::string("\x00\xff\x80\n", 4), {"init", "g", "env=a", "", "description="});
				C("", {"eval", "j1", "hwgroup=", "", ""});
				C("c", {"eval", "j2", "env=a", "", "x"});
				C("c", {"eval", "j3", "env=a", "", "x"});
			}
		}
		void serve()
		{
			T(10);
			C("probe", {"unfreeze"});
			if (!has(broker_connect::KEY_CLIENTS, "probe", "ack")) throw Bad{"'unfreeze' is not acknowledged any more"};
			W("v", {"ping"});
			if (!has(broker_connect::KEY_WORKERS, "v", "pong")) throw Bad{"a registered worker's ping is not answered any more"};
			W("v", {"done", "jv", "OK"});
			if (!reported("jv", "OK")) throw Bad{"the completion of another worker's job is not reported any more"};
			W("n", {"init", "gn", "env=zz"});
			W("n", {"ping"});
			if (!has(broker_connect::KEY_WORKERS, "n", "pong")) throw Bad{"a new worker cannot register any more"};
			C("probe", {"eval", "jn", "env=zz", "", "p"});
			if (!has(broker_connect::KEY_CLIENTS, "probe", "ack") || !has(broker_connect::KEY_CLIENTS, "probe", "accept")) throw Bad{"a new job for a new worker is not accepted any more"};
			for (int i = 0; i < 12 && held["n"] != "jn"; ++i) {
				std::string h = held["n"];
				held["n"] = "";
				W("n", {"done", h, "OK"});
			}
			if (held["n"] != "jn") throw Bad{"a new job is not dispatched to the new worker any more"};
			W("n", {"done", "jn", "OK"});
			if (!reported("jn", "OK")) throw Bad{"the completion of a new job is not reported any more"};
			C("probe", {"get-runtime-stats"});
			if (out.size() != 1 || out[0].data.size() % 2) throw Bad{"the runtime statistics are not a list of pairs any more"};
			T(1500);
			T(20000); // everybody expires
			T(20000);
			T(20000);
			T(20000);
			T(20000);
		}
	};
	constexpr int STATES = 10;
	std::string run_case(bool multi, int st, const std::vector<In> &ins)
	{
		try {
			Rig r(multi);
			r.setup(st);
			for (auto &i : ins) {
				try {
					if (i.worker) r.W(i.sender, i.m);
					else r.C(i.sender, i.m);
				} catch (const std::exception &e) {
					throw Bad{std::string("an error escapes: ") + e.what()};
				}
			}
			r.serve();
			return "";
		} catch (const Bad &b) {
			return b.what;
		} catch (const std::exception &e) {
			return std::string("an error escapes afterwards: ") + e.what();
		} catch (...) {
			return "an error of unknown type escapes";
		}
	}
	const char *STATE_NAMES[] = {"no such worker", "idle worker", "busy worker", "busy worker and a queue", "worker that declared its job", "frozen broker", "expired worker", "job before its retry limit", "job without a name", "workers without a name"};

	struct Space {
		std::vector<Msg> wm, cm; // messages of the worker and the client side
		std::vector<std::string> ws, cs;
		std::vector<In> red; // reduced set for sequences
		int seq; // length of sequences over red
		std::uint64_t singles, seqs;
	};
	void extend(std::vector<Msg> &to, const Msg &head, const std::vector<std::string> &alpha, int n)
	{
		to.push_back(head);
		if (!n) return;
		for (auto &a : alpha) {
			Msg m = head;
			m.push_back(a);
			extend(to, m, alpha, n - 1);
		}
	}
	Space space(bool th)
	{
		Space s;
		std::string big(5000, 'x'), bin("\x00\xff\x80\n", 4);
		std::vector<std::string> cmds = {"eval", "init", "done", "ping", "progress", "freeze", "unfreeze", "get-runtime-stats", "", "EVAL", bin, big, "done "};
		// worker side
		for (auto &c : cmds) extend(s.wm, {c}, {"", "j1", "env=a", bin}, 2);
		extend(s.wm, {"done"}, {"", "j1", "j2", "jv", "OK", "FAILED", "INTERNAL_ERROR", "ok", bin, big}, th ? 4 : 3);
		extend(s.wm, {"init"}, {"", "g", "env=a", "threads=4", "=", "env", "threads=", "threads=x", "threads=-1", "threads=99999999999999999999999", "current_job=j1", "current_job=", "current_job", "description=", bin}, th ? 4 : 3);
		if (!th) extend(s.wm, {"init", "g", "env=a"}, {"", "env", "threads=x", "threads=99999999999999999999999", "current_job=j1", "current_job=", "current_job", "description=", bin}, 3);
		extend(s.wm, {"progress"}, {"", "j1", "OK", bin, big, "env=a"}, th ? 4 : 3);
		s.wm.push_back({});
		// client side
		for (auto &c : cmds) extend(s.cm, {c}, {"", "j1", "env=a", bin}, 2);
		extend(s.cm, {"eval"}, {"", "j1", "j9", "env=a", "=", "env", "=a", "threads=", "threads=x", "threads=-1", "threads=99999999999999999999999", "hwgroup=", "hwgroup=|", "hwgroup=|g|", "meta.", "meta.x=1", "meta.=", bin, big}, th ? 4 : 3);
		if (!th) extend(s.cm, {"eval", "j9"}, {"", "env=a", "env", "threads=x", "threads=99999999999999999999999", "hwgroup=|", "meta.", bin}, 4);
		s.cm.push_back({});
		s.ws = {"w", "z", "", bin};
		s.cs = {"c", ""};
		auto w = [&](const Msg &m) { s.red.push_back({true, "w", m}); };
		auto z = [&](const Msg &m) { s.red.push_back({true, "z", m}); };
		auto c = [&](const Msg &m) { s.red.push_back({false, "c", m}); };
		for (auto f : {std::vector<std::string>{}, {""}, {"done"}, {"done", "j1"}, {"done", "j1", "OK"}, {"done", "j1", "FAILED"}, {"done", "j1", "FAILED", "m"}, {"done", "j1", "INTERNAL_ERROR"}, {"done", "j1", "INTERNAL_ERROR", "m"},
				 {"done", "j1", "x"}, {"done", "", "OK"}, {"done", "j2", "OK"}, {"done", "j9", "INTERNAL_ERROR", "m"}, {"init"}, {"init", ""}, {"init", "g", "env=a", "threads=4"}, {"init", "h", "env=a"}, {"init", "g", "threads=x"},
				 {"init", "g", "env=a", "", "current_job=j1"}, {"init", "g", "env=b", "", "current_job=j9"}, {"init", "g", "env=a", "threads=4", "", "current_job="}, {"init", "g", "="}, {"progress"}, {"progress", ""}, {"ping"}, {"ping", "x"}})
			w(f);
		for (auto f : {std::vector<std::string>{}, {"done", "j1", "OK"}, {"done", "j1", "INTERNAL_ERROR", "m"}, {"init", "g", "env=a"}, {"init", "g", "env=a", "", "current_job=j1"}, {"init"}, {"progress"}, {"ping"}}) z(f);
		for (auto f : {std::vector<std::string>{}, {""}, {"eval"}, {"eval", "j1"}, {"eval", "j1", ""}, {"eval", "j9", "env=a", ""}, {"eval", "j9", "env=a"}, {"eval", "", "", ""}, {"eval", "j9", "threads=x", ""}, {"eval", "j9", "threads=4", "", "a"},
				 {"eval", "j9", "hwgroup=|", ""}, {"freeze", "x"}, {"unfreeze"}, {"get-runtime-stats", ""}, {"done", "j1", "OK"}, {"init", "g"}})
			c(f);
		s.seq = th ? 3 : 2;
		s.singles = s.ws.size() * s.wm.size() + s.cs.size() * s.cm.size();
		s.seqs = 1;
		for (int i = 0; i < s.seq; ++i) s.seqs *= s.red.size();
		return s;
	}
	std::uint64_t total(const Space &s) { return (s.singles + s.seqs) * STATES * 2; }
	void decode(const Space &s, std::uint64_t i, bool &multi, int &st, std::vector<In> &ins)
	{
		multi = i % 2;
		i /= 2;
		st = i % STATES;
		i /= STATES;
		ins.clear();
		if (i < s.singles) {
			std::uint64_t nw = s.ws.size() * s.wm.size();
			if (i < nw) ins.push_back({true, s.ws[i % s.ws.size()], s.wm[i / s.ws.size()]});
			else {
				i -= nw;
				ins.push_back({false, s.cs[i % s.cs.size()], s.cm[i / s.cs.size()]});
			}
		} else {
			i -= s.singles;
			for (int k = 0; k < s.seq; ++k, i /= s.red.size()) ins.push_back(s.red[i % s.red.size()]);
		}
	}
	std::string describe(bool multi, int st, const std::vector<In> &ins)
	{
		std::string r = std::string(multi ? "multi" : "single") + " queue, " + STATE_NAMES[st] + ": ";
		for (auto &i : ins) r += (&i == &ins[0] ? "" : "; then ") + show(i);
		return r;
	}
	struct Rec {
		std::uint64_t bad, n;
	};
} // namespace

int main(int argc, char **argv)
{
	std::string tier = "quick", out, replay;
	double limit = 600;
	std::uint64_t rcase = 0;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--prop") ++i;
		else if (a == "--tier") tier = argv[++i];
		else if (a == "--out") out = argv[++i];
		else if (a == "--replay") replay = argv[++i];
		else if (a == "--limit") limit = std::atof(argv[++i]);
	}
	if (!replay.empty()) {
		FILE *f = std::fopen(replay.c_str(), "r");
		if (!f) return 2;
		char line[4096], tr[50];
		unsigned long long x;
		while (std::fgets(line, sizeof line, f))
			if (std::sscanf(line, "case %llu tier %49s", &x, tr) == 2) rcase = x, tier = tr;
	}
	Space s = space(tier == "thorough");
	bool multi;
	int st;
	std::vector<In> ins;
	if (!replay.empty()) {
		decode(s, rcase, multi, st, ins);
		std::printf("%s\n", describe(multi, st, ins).c_str());
		std::fflush(stdout);
		auto t = run_case(multi, st, ins);
		std::printf("%s\n", t.empty() ? "no violation" : ("VIOLATED: " + t).c_str());
		return t.empty() ? 0 : 1;
	}
	report::Result res;
	double start = par::now();
	std::vector<par::Dead> dead;
	std::uint64_t n = total(s);
	FILE *err = freopen("/dev/null", "w", stderr);
	(void) err;
	auto recs = par::run((n + 255) / 256, 1, [&](std::uint64_t blk, std::string &o) {
		std::vector<In> in;
		bool mu;
		int sta;
		std::uint64_t done = 0;
		for (std::uint64_t i = blk * 256; i < n && i < (blk + 1) * 256; ++i) {
			decode(s, i, mu, sta, in);
			par::sub(i);
			if (!par::call([&] { return run_case(mu, sta, in); }).empty()) {
				Rec r{i + 1, done};
				o.append((char *) &r, sizeof r);
				par::request_stop();
				return;
			}
			++done;
		}
		Rec r{0, done};
		o.append((char *) &r, sizeof r);
	}, dead, start + limit, 60);
	std::uint64_t evals = 0;
	std::int64_t bad = -1;
	for (auto &d : dead) bad = d.sub;
	for (auto &b : recs)
		for (std::size_t o = 0; o + sizeof(Rec) <= b.size(); o += sizeof(Rec)) {
			Rec r;
			std::memcpy(&r, b.data() + o, sizeof r);
			if (r.bad) bad = r.bad - 1;
			evals += r.n;
		}
	if (bad >= 0) {
		decode(s, bad, multi, st, ins);
		std::string text;
		int rc = par::isolated([&](FILE *f) { fputs(run_case(multi, st, ins).c_str(), f); }, text, 60);
		if (rc) text = rc == -1 ? "the broker hangs" : "the broker crashes (" + std::to_string(rc) + ")";
		if (text.empty() && par::isolate) text = "a violation that is not reproducible";
		if (text.empty()) return 3;
		text += " - " + describe(multi, st, ins);
		res.violations.push_back({text, "harness malformed\nproperty C09\ncase " + std::to_string(bad) + " tier " + tier + "\n# " + text + "\n"});
	}
	if (evals < n) res.exhaustive = false;
	// every case starts from its own state: states = initial states plus the state after each message
	res.counts["states"] = evals + STATES * 2;
	res.counts["transitions"] = s.singles * STATES * 2 + (evals > s.singles * STATES * 2 ? (evals - s.singles * STATES * 2) * s.seq : 0);
	res.counts["executions"] = evals;
	char b[400];
	std::snprintf(b, sizeof b, "{\"scenario\": \"all messages\", \"worker_messages\": %zu, \"client_messages\": %zu, \"senders\": %zu, \"broker_states\": %d, \"sequences_of\": %d, \"sequence_alphabet\": %zu, \"cases\": %llu, \"complete\": %s}",
		s.wm.size(), s.cm.size(), s.ws.size() + s.cs.size(), STATES * 2, s.seq, s.red.size(), (unsigned long long) evals, evals == n ? "true" : "false");
	res.parts.push_back(b);
	for (std::uint64_t i : {n / 7, n / 3, n / 2, n - n / 9}) {
		decode(s, i, multi, st, ins);
		res.samples.push_back(describe(multi, st, ins));
	}
	if (!out.empty()) res.write(out);
	for (auto &v : res.violations) std::printf("VIOLATED: %s\n%s\n", v.first.c_str(), v.second.c_str());
	if (out.empty()) std::printf("%s\n", b);
	return res.violations.empty() ? 0 : 1;
}
