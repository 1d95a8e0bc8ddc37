// C25: the assembled broker (broker_connect with the real reactor, wrappers, handlers and notifier) over models of libzmq and
// libcurl.  Oracle: what goes over the wires is what the broker logic, given the same messages and the same time directly,
// answers - at the right socket, peer and URL.
#define VERIF_VCLOCK
#define VERIF_SCHED
#define VERIF_FAKEZMQ
#define VERIF_FAKECURL
#define VERIF_ARENA
#include "arena.h"
#include "explore.h"
#include "fakecurl.h"
#include "broker_connect.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include <thread>

using explore::Scenario;
using sched::Violation;
using std::string;
using Strs = std::vector<string>;

namespace
{
	string show(const Strs &d)
	{
		string r = "[";
		for (auto &s : d) {
			r += r.size() > 1 ? "|" : "";
			for (unsigned char c : s) {
				char b[8];
				if (c < 32 || c > 126) std::snprintf(b, sizeof b, "\\x%02x", c), r += b;
				else r += c;
			}
		}
		return r + "]";
	}
	struct Config {
		const char *yaml, *clients, *workers, *monitor, *url, *user, *pass;
		long port;
	};
	const Config CONFIGS[] = {
		{"{clients: {address: \"*\", port: 9658}, workers: {address: \"*\", port: 9657, max_liveness: 2, ping_interval: 300, max_request_failures: 1}, "
		 "notifier: {address: \"https://frontend/api\", port: 443, username: u, password: p}, monitor: {address: \"127.0.0.1\", port: 7894}}",
			"tcp://*:9658", "tcp://*:9657", "tcp://127.0.0.1:7894", "https://frontend/api", "u", "p", 443},
		{"{clients: {address: \"10.0.0.1\", port: 1}, workers: {address: \"10.0.0.2\", port: 65535, max_liveness: 3, ping_interval: 200, max_request_failures: 2}, "
		 "notifier: {address: \"http://127.0.0.1\", port: 8080, username: a, password: \"b:c\"}, monitor: {address: mon.example.org, port: 40002}}",
			"tcp://10.0.0.1:1", "tcp://10.0.0.2:65535", "tcp://mon.example.org:40002", "http://127.0.0.1", "a", "b:c", 8080},
		{"{clients: {address: \"127.0.0.1\", port: 40001}, workers: {address: \"127.0.0.1\", port: 40002, max_liveness: 1, ping_interval: 100}, "
		 "notifier: {address: \"127.0.0.1\", port: 65535, username: \"\", password: x}, monitor: {address: \"127.0.0.1\", port: 65534}}",
			"tcp://127.0.0.1:40001", "tcp://127.0.0.1:40002", "tcp://127.0.0.1:65534", "127.0.0.1", "", "x", 65535},
	};
	std::shared_ptr<queue_manager_interface> manager(bool multi)
	{
		if (multi) return std::make_shared<multi_queue_manager>();
		return std::make_shared<single_queue_manager<>>();
	}
	struct Report {
		string url;
		std::multimap<string, string> fields;
		bool operator<(const Report &o) const { return std::tie(url, fields) < std::tie(o.url, o.fields); }
		bool operator==(const Report &o) const { return url == o.url && fields == o.fields; }
		string text() const
		{
			string s = url;
			for (auto &f : fields) s += " " + f.first + "=" + f.second;
			return s;
		}
	};
	std::multiset<Report> *accepted; // by the frontend
	const Config *current_config;
	bool faults;
	bool prompt; // transfers may be slow, which must not hold up anything else

	enum Event { EVAL, EVAL_OTHER, EVAL_BAD, STATS, FREEZE, UNFREEZE, INIT1, INIT2, PING1, DONE1, FAILED1, INTERNAL1, DONE2, PROGRESS1, TICK, LONG, EVENTS };
	const char *NAMES[] = {"eval from c1", "eval for b from c2", "impossible eval", "get-runtime-stats", "freeze", "unfreeze", "init of w1", "init of w2", "ping of w1", "w1 done", "w1 failed", "w1 internal error", "w2 done", "progress of w1", "100 ms", "1 s"};

	void session(int cfg, bool multi, int length, const std::vector<Event> &prefix, const std::vector<Event> &alphabet, bool with_faults, bool with_slow = false)
	{
		auto &C = CONFIGS[cfg];
		current_config = &C;
		faults = with_faults;
		prompt = with_slow;
		std::multiset<Report> got_reports, want_reports;
		accepted = &got_reports;
		auto config = std::make_shared<broker_config>(YAML::Load(C.yaml));
		auto ctx = std::make_shared<zmq::context_t>(1);
		// the reference: the broker logic alone
		auto ref_registry = std::make_shared<worker_registry>();
		broker_handler ref(config, ref_registry, manager(multi), nullptr);
		std::map<string, std::vector<Strs>> want, got; // by peer
		std::map<string, fz::Peer> peers;
		auto feed = [&](const message_container &m) {
			ref.on_request(m, [&](const message_container &r) {
				if (r.key == broker_connect::KEY_CLIENTS) want["c/" + r.identity].push_back(r.data);
				else if (r.key == broker_connect::KEY_WORKERS) want["w/" + r.identity].push_back(r.data);
				else if (r.key == broker_connect::KEY_MONITOR) want["m/" + r.identity].push_back(r.data);
				else if (r.key == broker_connect::KEY_STATUS_NOTIFIER) {
					Report p;
					string type, id;
					for (std::size_t i = 0; i + 1 < r.data.size(); i += 2) {
						if (r.data[i] == "type") type = r.data[i + 1];
						else if (r.data[i] == "id") id = r.data[i + 1];
						else p.fields.emplace(r.data[i], r.data[i + 1]);
					}
					p.url = C.url;
					if (!type.empty()) p.url += "/" + type;
					if (!id.empty()) p.url += "/" + id;
					want_reports.insert(p);
				}
			});
		};
		std::shared_ptr<spdlog::logger> logger;
		if (cfg) {
			logger = helpers::create_null_logger();
			logger->set_level(spdlog::level::trace);
		}
		std::vector<message_container> inflight;
		std::int64_t start = -1, reported = 0;
		bool over = false;
		fz::poll_fault = [&]() -> int {
			if (start < 0) start = vclock::mono_us;
			return over ? EINTR : 0;
		};
		fz::poll_done = [&]() {
			auto in = std::move(inflight);
			inflight.clear();
			for (auto &m : in) feed(m);
			std::int64_t t = (vclock::mono_us - start) / 1000;
			feed(message_container(broker_connect::KEY_TIMER, "", {std::to_string(t - reported)}));
			reported = t;
		};
		{
			broker_connect broker(config, ctx, std::make_shared<worker_registry>(), manager(multi), logger);
			auto *main = sched::current;
			auto *driver = sched::spawn("driver", [&]() {
				auto idle = [&]() {
					return main->done || over || (main->blocked && std::strcmp(main->where, "zmq_poll") == 0 && inflight.empty() && !main->ready());
				};
				auto settle = [&]() { sched::block("wait for the broker", idle); };
				auto compare = [&]() {
					for (auto &x : want) // what the monitor is called is a part of the protocol
						if (!peers.count(x.first) && !x.second.empty()) throw Violation{"messages for an unknown peer " + x.first};
					for (auto &p : peers) {
						fz::Msg m;
						while (p.second.recv(m)) got[p.first].push_back(m);
						if (got[p.first] != want[p.first]) {
							string s = "peer " + p.first + " should have got";
							for (auto &x : want[p.first]) s += " " + show(x);
							s += " but got";
							for (auto &x : got[p.first]) s += " " + show(x);
							throw Violation{s};
						}
					}
				};
				settle();
				std::set<string> eps{string("bind ") + C.clients, string("bind ") + C.workers, string("connect ") + C.monitor};
				if (fz::tcp_endpoints_used != eps) {
					string s = "endpoints:";
					for (auto &e : fz::tcp_endpoints_used) s += " " + e;
					throw Violation{s};
				}
				for (auto *id : {"c1", "c2"}) peers[string("c/") + id] = fz::peer_connect(C.clients, id);
				for (auto *id : {"w1", "w2"}) peers[string("w/") + id] = fz::peer_connect(C.workers, id);
				if (!fz::peer_accept(C.monitor, "recodex-monitor", peers["m/recodex-monitor"])) throw Violation{"the monitor is not contacted"};
				sched::block("wait for the connections", [&]() {
					for (auto &p : peers)
						if (!p.second.connected()) return false;
					return true;
				});
				int job = 0;
				auto send = [&](const string &peer, const Strs &m) {
					auto before = vclock::mono_us;
					settle();
					sched::note("-> " + peer + " " + show(m));
					peers[peer].send(m);
					inflight.push_back({peer[0] == 'c' ? broker_connect::KEY_CLIENTS : broker_connect::KEY_WORKERS, peer.substr(2), m});
					settle();
					compare();
					if (prompt && vclock::mono_us - before > 300000)
						throw Violation{"the broker did not answer for " + std::to_string((vclock::mono_us - before) / 1000) + " ms"};
				};
				auto job_of = [&](const string &w) -> string { // the job the worker was given last
					auto &l = want["w/" + w];
					for (auto it = l.rbegin(); it != l.rend(); ++it)
						if (it->size() > 1 && it->at(0) == "eval") return it->at(1);
					return "unknown";
				};
				for (int i = 0; i < (int) prefix.size() + length; ++i) {
					Event e = i < (int) prefix.size() ? prefix[i] : alphabet[sched::choose((int) alphabet.size(), true)];
					sched::note(NAMES[e]);
					auto id = [&]() { return "job" + std::to_string(++job); };
					switch (e) {
					case EVAL: send("c/c1", {"eval", id(), "env=a", "", "url", "result"}); break;
					case EVAL_OTHER: send("c/c2", {"eval", id(), "env=b", "meta.x=1", "", string("bin\0ary", 7), ""}); break;
					case EVAL_BAD: send("c/c1", {"eval", id(), "env=nothing", "", "url"}); break;
					case STATS: send("c/c2", {"get-runtime-stats"}); break;
					case FREEZE: send("c/c1", {"freeze"}); break;
					case UNFREEZE: send("c/c2", {"unfreeze"}); break;
					case INIT1: send("w/w1", {"init", "group", "env=a", "threads=2"}); break;
					case INIT2: send("w/w2", {"init", "group", "env=a", "env=b", "", "description=second"}); break;
					case PING1: send("w/w1", {"ping"}); break;
					case DONE1: send("w/w1", {"done", job_of("w1"), "OK"}); break;
					case FAILED1: send("w/w1", {"done", job_of("w1"), "FAILED", "broken & = bad"}); break;
					case INTERNAL1: send("w/w1", {"done", job_of("w1"), "INTERNAL_ERROR", "try again"}); break;
					case DONE2: send("w/w2", {"done", job_of("w2"), "OK"}); break;
					case PROGRESS1: send("w/w1", {"progress", job_of("w1"), "TASK", "", "COMPLETED"}); break;
					case TICK:
					case LONG:
						std::this_thread::sleep_for(std::chrono::milliseconds(e == TICK ? 101 : 1001));
						settle();
						compare();
						break;
					default: break;
					}
				}
				settle();
				compare();
				// the frontend hears of everything in the end
				sched::block("wait for the reports", [&]() { return got_reports.size() >= want_reports.size() || main->done; });
				settle();
				compare();
				if (got_reports != want_reports) {
					string s = "the frontend should have got";
					for (auto &r : want_reports) s += " {" + r.text() + "}";
					s += " but got";
					for (auto &r : got_reports) s += " {" + r.text() + "}";
					throw Violation{s};
				}
				over = true;
			});
			try {
				broker.start_brokering();
			} catch (const zmq::error_t &) {
			}
			if (!over) throw Violation{"the broker stopped"};
			sched::block("join of the driver", [driver]() { return driver->done; });
			fz::poll_fault = nullptr;
			fz::poll_done = nullptr;
		}
	}
	void setup()
	{
		fakecurl::live = 0;
		fakecurl::choose = []() {
			sched::yield("http");
			fakecurl::Outcome o;
			if (faults) {
				int c = sched::choose(prompt ? 4 : 3, false);
				if (c == 3) std::this_thread::sleep_for(std::chrono::seconds(20));
				if (c == 1) o.code = CURLE_COULDNT_CONNECT;
				if (c == 2) o.http = 500;
			}
			return o;
		};
		fakecurl::done = [](const fakecurl::Transfer &t) {
			sched::note("http " + t.url + " " + t.body + (t.ok ? " accepted" : " failed"));
			if (!t.ok) return;
			Report r;
			r.url = t.url;
			if (!t.post || !fakecurl::form_decode(t.body, r.fields)) r.url = "unreadable request " + t.url + " " + t.body;
			if (t.port != current_config->port || t.user != current_config->user || t.pass != current_config->pass || !t.has_user) r.url += " with wrong port or credentials";
			accepted->insert(r);
		};
	}
	std::vector<Scenario> scenarios(const string &prop, bool th)
	{
		std::vector<Scenario> v;
		auto add = [&](const string &name, int dev, bool timeouts, std::function<void()> body) {
			Scenario s;
			s.name = name;
			s.dev = dev;
			s.body = body;
			// the order of worker objects in memory is observable; it is the same for the reference
			bool down = v.size() % 2;
			s.before = [down]() {
				setup();
				arena::begin(down);
			};
			s.after = []() { arena::end(); };
			s.timeouts = timeouts;
			s.max_steps = 20000;
			v.push_back(s);
		};
		std::vector<Event> all;
		for (int i = 0; i < EVENTS; ++i) all.push_back((Event) i);
		const std::vector<Event> busy = {INIT1, EVAL}, two = {INIT1, INIT2, EVAL, EVAL, EVAL}, core = {EVAL, STATS, INIT1, DONE1, INTERNAL1, PROGRESS1, LONG};
		for (int cfg = 0; cfg < 2; ++cfg)
			for (int multi = 0; multi < 2; ++multi) {
				string n = string(multi ? "multi" : "single") + "-" + std::to_string(cfg);
				add("sequences-" + n, 0, false, [=]() { session(cfg, multi, th ? 5 : 4, {}, all, false); });
				add("busy-" + n, 0, false, [=]() { session(cfg, multi, th ? 5 : 4, busy, all, false); });
				add("two-" + n, 0, false, [=]() { session(cfg, multi, th ? 5 : 4, two, all, false); });
				add("schedules-" + n, th ? 3 : 2, true, [=]() { session(cfg, multi, 2, busy, core, true); });
				add("faults-" + n, 3, false, [=]() { session(cfg, multi, th ? 3 : 2, busy, {EVAL_BAD, FAILED1, LONG}, true); });
				add("slow-" + n, th ? 3 : 2, false, [=]() { session(cfg, multi, th ? 4 : 3, {INIT1, EVAL, FAILED1, EVAL}, {EVAL, FAILED1, DONE1, PING1, STATS, INIT2}, true, true); });
			}
		for (int multi = 0; multi < 2; ++multi)
			add("same-address-" + std::to_string(multi), 0, false, [=]() { session(2, multi, th ? 4 : 3, busy, all, false); });
		return v;
	}
} // namespace

int main(int argc, char **argv) { return explore::main_loop(argc, argv, "system", scenarios); }
