// C19-C22: the real reactor, its handler wrappers and socket wrappers over a controlled scheduler and a model of libzmq.
#define VERIF_VCLOCK
#define VERIF_SCHED
#define VERIF_FAKEZMQ
#include "explore.h"
#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"
#include <thread>

using explore::Scenario;
using sched::Violation;
using std::string;
using Strs = std::vector<string>;

namespace
{
	struct Handler : handler_interface {
		using Fn = std::function<void(const message_container &, const response_cb &)>;
		Fn fn;
		int *alive;
		Handler(Fn f, int *a) : fn(std::move(f)), alive(a) { ++*alive; }
		~Handler() override { --*alive; }
		void on_request(const message_container &m, const response_cb &r) override { fn(m, r); }
	};
	string show(const string &s)
	{
		string r;
		if (s.size() > 400) return "<" + std::to_string(s.size()) + " bytes, hash " + std::to_string(std::hash<string>()(s) % 1000000) + ">";
		for (unsigned char c : s) {
			char b[8];
			if (c < 32 || c > 126) std::snprintf(b, sizeof b, "\\x%02x", c), r += b;
			else r += c;
		}
		return r;
	}
	string show(const Strs &d)
	{
		string r = "[";
		for (auto &s : d) r += (r.size() > 1 ? "|" : "") + show(s);
		return r + "]";
	}
	string show(const message_container &m) { return show(m.key) + "/" + show(m.identity) + show(m.data); }
	using Log = std::vector<message_container>;
	string show(const Log &l)
	{
		string r;
		for (auto &m : l) r += show(m) + " ";
		return r;
	}
	void same(const char *what, const Log &got, const Log &want)
	{
		if (!(got == want)) throw Violation{string(what) + ": expected " + show(want) + "but got " + show(got)};
	}
	int pick(int n) { return sched::choose(n, true); }
	void join(sched::Fiber *f)
	{
		sched::block("join of the environment", [f]() { return f->done; });
	}
	// frames that go through unchanged
	const std::vector<Strs> FRAMES = {{"x"}, {"", ""}, {"a", "", string("\0\xff", 2)}, {""}, {"TERMINATE"}, {}, {string(70000, 'z')}, Strs(40, "f"), {"a", "b", ""}};
	Log only(const Log &l, const string &key)
	{
		Log r;
		for (auto &m : l)
			if (m.key == key) r.push_back(m);
		return r;
	}
	bool is_prefix(const Log &a, const Log &b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

	const string E1 = "tcp://h:1", E2 = "tcp://h:2", EM = "tcp://m:3";

	// ---------------------------------------------------------------- C19
	// messages right after the handlers were added, termination at any time
	void start_up(int messages, int handlers, bool frames)
	{
		int alive = 0;
		Log a, b, sent_a, sent_b, timers, a_timers;
		auto ctx = std::make_shared<zmq::context_t>(1);
		{
			reactor r(ctx);
			r.add_async_handler({"a", reactor::KEY_TIMER}, std::make_shared<Handler>([&](auto &m, auto &) {
				sched::note("A gets " + show(m));
				(m.key == reactor::KEY_TIMER ? a_timers : a).push_back(m);
			}, &alive));
			if (handlers > 1) r.add_async_handler({"b"}, std::make_shared<Handler>([&](auto &m, auto &) {
				sched::note("B gets " + show(m));
				b.push_back(m);
			}, &alive));
			r.add_handler({reactor::KEY_TIMER}, std::make_shared<Handler>([&](auto &m, auto &) { timers.push_back(m); }, &alive));
			int n = messages ? 1 + pick(messages) : 0;
			for (int i = 0; i < n; ++i) {
				bool to_b = handlers > 1 && pick(2);
				Strs d = frames ? FRAMES[pick((int) FRAMES.size())] : Strs{"m" + std::to_string(i)};
				// identities may contain any bytes
				message_container m(to_b ? "b" : "a", frames && i ? string("\0id", 3) : "id" + std::to_string(i), d);
				(to_b ? sent_b : sent_a).push_back(m);
				sched::note("dispatch " + show(m));
				r.process_message(m);
			}
			auto *t = sched::spawn("terminator", [&]() {
				sched::yield("terminate");
				sched::note("terminate");
				r.terminate();
			});
			r.start_loop();
			join(t);
		}
		same("handler A", a, sent_a);
		same("handler B", b, sent_b);
		same("timer messages of handler A", a_timers, timers);
		if (alive) throw Violation{"a handler was not destroyed"};
	}
	// requests through a socket, forwarded to asynchronous handlers, which answer to the socket and to each other
	void forwarding(int messages, bool any_time, bool slow)
	{
		int alive = 0;
		Log a, b, fwd_a, fwd_b, replies; // fwd: handed to the reactor by a synchronous handler
		Log ba; // handed to the reactor by B for A
		Log to_peer; // handed to the reactor by A for the peer
		std::vector<int> kinds;
		int n = 1 + pick(messages);
		for (int i = 0; i < n; ++i) kinds.push_back(pick(3));
		Log want;
		auto ctx = std::make_shared<zmq::context_t>(1);
		{
			reactor r(ctx);
			r.add_socket("s", std::make_shared<router_socket_wrapper>(ctx, E1, true));
			r.add_handler({"s"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				auto k = m.data.at(0);
				message_container f(k == "both" ? "a" : k, m.identity, {m.data.at(1)});
				sched::note("forward " + show(m));
				(f.key == "a" ? fwd_a : fwd_b).push_back(f);
				respond(f);
				if (k == "both") {
					f.key = "b";
					fwd_b.push_back(f);
					respond(f);
				}
			}, &alive));
			r.add_async_handler({"a"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				sched::note("A gets " + show(m));
				a.push_back(m);
				if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(250));
				message_container x("s", m.identity, m.data);
				x.data.push_back("");
				to_peer.push_back(x);
				respond(x);
			}, &alive));
			r.add_async_handler({"b"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				sched::note("B gets " + show(m));
				b.push_back(m);
				message_container x("a", m.identity, {m.data.at(0), "via b"});
				ba.push_back(x);
				respond(x);
			}, &alive));
			std::size_t expected = 0;
			auto *d = sched::spawn("peer", [&]() {
				auto p = fz::peer_connect(E1, "peer");
				for (int i = 0; i < n; ++i) {
					const char *k[] = {"a", "b", "both"};
					p.send({k[kinds[i]], std::to_string(i)});
					expected += kinds[i] == 2 ? 2 : 1;
					sched::yield("peer");
				}
				fz::Msg m;
				auto read = [&]() {
					while (p.recv(m)) replies.push_back({"s", "peer", m});
				};
				if (!any_time) sched::block("wait for the answers", [&]() {
					read();
					return replies.size() >= expected;
				});
				sched::note("terminate");
				r.terminate();
			});
			r.start_loop();
			join(d);
		}
		// everything handed to the reactor by the synchronous handler has been processed
		Log direct, via;
		for (auto &m : a) (m.data.size() == 1 ? direct : via).push_back(m);
		same("handler A (forwarded messages)", direct, fwd_a);
		same("handler B", b, fwd_b);
		if (!is_prefix(via, ba)) throw Violation{"handler A got from B " + show(via) + "but B sent " + show(ba)};
		if (!any_time) {
			same("handler A (messages of B)", via, ba);
			same("answers at the peer", replies, to_peer);
		}
		if (a.size() != direct.size() + via.size()) throw Violation{"handler A got unexpected messages " + show(a)};
		if (alive) throw Violation{"a handler was not destroyed"};
	}
	// more messages than the default queue limits hold
	void flood(int messages, bool answers, bool slow)
	{
		fz::default_hwm = 1;
		int alive = 0;
		Log a, sent, got, answered;
		auto ctx = std::make_shared<zmq::context_t>(1);
		{
			reactor r(ctx);
			r.add_async_handler({"a"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				a.push_back(m);
				sched::note("A gets " + show(m));
				if (slow) std::this_thread::sleep_for(std::chrono::seconds(1));
				if (answers)
					for (int i = 0; i < 2; ++i) {
						message_container x("log", "", {m.data.at(0), std::to_string(i)});
						answered.push_back(x);
						respond(x);
					}
			}, &alive));
			r.add_handler({"log"}, std::make_shared<Handler>([&](auto &m, auto &) {
				sched::note("log gets " + show(m));
				got.push_back(m);
			}, &alive));
			for (int i = 0; i < messages; ++i) {
				message_container m("a", "", {std::to_string(i)});
				sent.push_back(m);
				r.process_message(m);
			}
			auto *t = sched::spawn("terminator", [&]() {
				if (answers) sched::block("wait for the answers", [&]() { return got.size() >= 2u * messages; });
				r.terminate();
			});
			r.start_loop();
			join(t);
		}
		same("handler A", a, sent);
		same("answers", got, answered);
		if (alive) throw Violation{"a handler was not destroyed"};
	}
	// several handlers, synchronous and not, for the same origin; answers in any form
	void sharing(int messages, bool any_time)
	{
		int alive = 0;
		Log a, b, c, sent, extra, got, answered;
		int n = 1 + pick(messages);
		std::vector<int> form;
		for (int i = 0; i < n; ++i) form.push_back(pick((int) FRAMES.size()));
		auto ctx = std::make_shared<zmq::context_t>(1);
		{
			reactor r(ctx);
			r.add_async_handler({"k"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				a.push_back(m);
				message_container x("log", m.identity, m.data);
				answered.push_back(x);
				respond(x);
			}, &alive));
			r.add_handler({"k"}, std::make_shared<Handler>([&](auto &m, auto &) { b.push_back(m); }, &alive));
			r.add_async_handler({"k", "TERMINATED", ""}, std::make_shared<Handler>([&](auto &m, auto &) { c.push_back(m); }, &alive));
			r.add_handler({"log"}, std::make_shared<Handler>([&](auto &m, auto &) { got.push_back(m); }, &alive));
			for (int i = 0; i < n; ++i) {
				message_container m("k", i ? string("i\0\xff", 3) : "", FRAMES[form[i]]);
				sent.push_back(m);
				r.process_message(m);
			}
			if (any_time) // origins may have any name
				for (auto *k : {"TERMINATED", ""}) {
					extra.push_back({k, "", {"x"}});
					r.process_message(extra.back());
				}
			auto *t = sched::spawn("terminator", [&]() {
				if (!any_time) sched::block("wait for the answers", [&]() { return (int) got.size() >= n; });
				else sched::yield("terminate");
				r.terminate();
			});
			r.start_loop();
			join(t);
		}
		same("first asynchronous handler", a, sent);
		same("synchronous handler", b, sent);
		Log both = sent;
		both.insert(both.end(), extra.begin(), extra.end());
		same("second asynchronous handler", c, both);
		if (any_time ? !is_prefix(got, answered) : !(got == answered)) throw Violation{"answers: expected " + show(answered) + "but got " + show(got)};
		if (alive) throw Violation{"a handler was not destroyed"};
	}

	// ---------------------------------------------------------------- C20
	struct Net {
		std::map<string, fz::Peer> peers;
		std::map<string, std::vector<Strs>> want, got; // at the peers
		std::map<string, int> lenient; // zero-frame messages sent to the peer: may arrive as one empty frame
		void collect()
		{
			for (auto &p : peers) {
				fz::Msg m;
				while (p.second.recv(m)) got[p.first].push_back(m);
			}
		}
		void check()
		{
			for (auto &p : peers) {
				auto g = got[p.first], w = want[p.first];
				if (g == w) continue;
				// [""] in place of messages without data
				std::vector<Strs> h;
				for (auto &m : w)
					if (!m.empty()) h.push_back(m);
				if (g == h) continue;
				h = w;
				for (auto &m : h)
					if (m.empty()) m.push_back("");
				if (g == h) continue;
				string s = "peer " + p.first + ": expected";
				for (auto &m : w) s += " " + show(m);
				s += " but got";
				for (auto &m : g) s += " " + show(m);
				throw Violation{s};
			}
		}
	};
	const std::vector<Strs> SOCKFRAMES = {{"x"}, {"", ""}, {"a", "", string("\0\xff", 2)}, {""}, {string(300, 'q'), "b"}, {"a", "b", ""}, Strs(40, "f"), {string(70000, 'z')}};
	// one message at a time; responses of every kind
	void routing(int messages, int responses)
	{
		int alive = 0;
		Log h1, h2, a, w1, w2, wa;
		Net net;
		auto ctx = std::make_shared<zmq::context_t>(1);
		{
			reactor r(ctx);
			r.add_socket("s1", std::make_shared<router_socket_wrapper>(ctx, E1, true));
			r.add_socket("s2", std::make_shared<router_socket_wrapper>(ctx, E2, true));
			r.add_socket("m", std::make_shared<router_socket_wrapper>(ctx, EM, false));
			Log key;
			Log wkey;
			struct Target {
				const char *key, *id, *peer;
			};
			// identities may contain any bytes (those that libzmq makes up begin with a zero byte)
			auto ident = [](const string &n) { return n == "p2" ? string("p1\0\xff", 4) : n; };
			const Target targets[] = {{"s1", "p1", "s1/p1"}, {"s1", "p2", "s1/p2"}, {"s1", "nobody", ""}, {"s1", "", ""}, {"s2", "p1", "s2/p1"}, {"m", "mon", "m/mon"},
				{"m", "p1", ""}, {"k", "", ""}, {"nowhere", "p1", ""}};
			const std::vector<Strs> data = {{"r"}, {}, {"", string("\0", 1), string(messages > 1 ? 0 : 70000, 'z')}};
			auto answer = [&](const handler_interface::response_cb &respond) {
				int n = pick(responses + 1);
				for (int i = 0; i < n; ++i) {
					auto &t = targets[pick(9)];
					message_container x(t.key, ident(t.id), data[pick(3)]);
					sched::note("answer " + show(x));
					if (*t.peer) net.want[t.peer].push_back(x.data);
					if (x.key == "k") wkey.push_back(x);
					respond(x);
				}
			};
			r.add_handler({"s1"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				h1.push_back(m);
				answer(respond);
			}, &alive));
			r.add_handler({"s1", "s2"}, std::make_shared<Handler>([&](auto &m, auto &) { h2.push_back(m); }, &alive));
			r.add_handler({"k"}, std::make_shared<Handler>([&](auto &m, auto &) { key.push_back(m); }, &alive));
			r.add_async_handler({"s2", "m"}, std::make_shared<Handler>([&](auto &m, auto &) { a.push_back(m); }, &alive));
			auto *d = sched::spawn("peers", [&]() {
				sched::block("wait for the sockets", [&]() { return fz::tcp_endpoints_used.size() == 3; });
				net.peers["s1/p1"] = fz::peer_connect(E1, "p1");
				net.peers["s1/p2"] = fz::peer_connect(E1, ident("p2"));
				net.peers["s2/p1"] = fz::peer_connect(E2, "p1");
				if (!fz::peer_accept(EM, "mon", net.peers["m/mon"])) throw Violation{"no connection to the monitor"};
				sched::block("wait for the connections", [&]() {
					for (auto &p : net.peers)
						if (!p.second.connected()) return false;
					return true;
				});
				for (int i = 0; i < messages; ++i) {
					const char *from[] = {"s1/p1", "s1/p2", "s2/p1", "m/mon"};
					string f = from[pick(4)];
					auto &fr = SOCKFRAMES[pick((int) SOCKFRAMES.size() - (messages > 1))];
					auto slash = f.find('/');
					message_container m(f.substr(0, slash), ident(f.substr(slash + 1)), fr);
					if (m.key == "s1") w1.push_back(m);
					if (m.key != "m") w2.push_back(m);
					if (m.key != "s1") wa.push_back(m);
					sched::note("peer " + f + " sends " + show(fr));
					net.peers[f].send(fr);
					sched::block("wait for the handlers", [&]() { return h1.size() >= w1.size() && h2.size() >= w2.size() && a.size() >= wa.size(); });
				}
				r.terminate();
			});
			r.start_loop();
			join(d);
			net.collect();
			same("handler of key k", key, wkey);
		}
		same("handler of s1", h1, w1);
		same("handler of s1 and s2", h2, w2);
		same("asynchronous handler of s2 and m", a, wa);
		net.check();
		if (alive) throw Violation{"a handler was not destroyed"};
	}
	// many messages at once from several peers: order per peer
	void burst(int messages)
	{
		int alive = 0;
		Log h, a;
		std::map<string, Log> want;
		Net net;
		auto ctx = std::make_shared<zmq::context_t>(1);
		{
			reactor r(ctx);
			r.add_socket("s1", std::make_shared<router_socket_wrapper>(ctx, E1, true));
			r.add_socket("s2", std::make_shared<router_socket_wrapper>(ctx, E2, true));
			r.add_handler({"s1", "s2"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				h.push_back(m);
				respond(m); // back to the sender
			}, &alive));
			r.add_async_handler({"s1"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				a.push_back(m);
				auto x = m;
				x.key = "s2";
				x.identity = "sink";
				respond(x);
			}, &alive));
			auto *d = sched::spawn("peers", [&]() {
				sched::block("wait for the sockets", [&]() { return fz::tcp_endpoints_used.size() == 2; });
				net.peers["s1/p1"] = fz::peer_connect(E1, "p1");
				net.peers["s1/p2"] = fz::peer_connect(E1, "p2");
				net.peers["s2/p1"] = fz::peer_connect(E2, "p1");
				net.peers["s2/sink"] = fz::peer_connect(E2, "sink");
				std::size_t s1 = 0;
				for (int i = 0; i < messages; ++i) {
					const char *from[] = {"s1/p1", "s1/p2", "s2/p1"};
					string f = from[pick(3)];
					Strs fr = {std::to_string(i), ""};
					auto slash = f.find('/');
					want[f].push_back({f.substr(0, slash), f.substr(slash + 1), fr});
					net.want[f].push_back(fr);
					net.peers[f].send(fr);
					if (f[1] == '1') ++s1;
					sched::yield("peers");
				}
				sched::block("wait for the answers", [&]() {
					net.collect();
					return (int) h.size() >= messages && net.got["s2/sink"].size() >= s1;
				});
				r.terminate();
			});
			r.start_loop();
			join(d);
			net.collect();
		}
		Log seen;
		for (auto &w : want) {
			auto slash = w.first.find('/');
			Log mine;
			for (auto &m : h)
				if (m.key == w.first.substr(0, slash) && m.identity == w.first.substr(slash + 1)) mine.push_back(m);
			same(("messages of " + w.first).c_str(), mine, w.second);
		}
		if ((int) h.size() != messages) throw Violation{"handler: unexpected messages " + show(h)};
		same("asynchronous handler", a, only(h, "s1"));
		for (auto &m : a) net.want["s2/sink"].push_back(m.data);
		net.check();
		if (alive) throw Violation{"a handler was not destroyed"};
	}

	// ---------------------------------------------------------------- C21
	struct Boom {};
	// kind of end: terminate() before the loop, from another thread at any time, twice, from a handler, from an asynchronous
	// handler, exception in a handler, failing poll, no loop at all
	void ending(int handlers, bool traffic)
	{
		enum { THREAD, BEFORE, TWICE, SYNC, ASYNC, THROW, FAULT, NONE, SHUTDOWN, ENDS };
		int alive = 0, after_polls = 0, after_timers = 0;
		bool asked = false, finished = false;
		int how = pick(ENDS), at = how == SYNC || how == THROW || how == FAULT ? pick(3) : 0, polls = 0, timers = 0;
		Log a, wa;
		{
			std::weak_ptr<zmq::context_t> watch;
			bool keep = pick(2); // does somebody else own the context?
			auto ctx = std::make_shared<zmq::context_t>(1);
			reactor r(ctx);
			auto own = ctx;
			if (!keep) ctx = nullptr;
			r.add_socket("s", std::make_shared<router_socket_wrapper>(own, E1, true));
			auto askto = [&]() {
				r.terminate();
				if (!asked) after_polls = after_timers = 0;
				asked = true;
			};
			r.add_handler({reactor::KEY_TIMER}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				if (asked && ++after_timers > 1) throw Violation{"the loop goes on after terminate()"};
				int t = timers++;
				if (handlers) {
					wa.push_back({"a", "", {"tick"}});
					respond(wa.back());
				}
				if (t == at && how == SYNC) askto();
				if (t == at && how == THROW) throw Boom();
			}, &alive));
			if (handlers > 0) r.add_async_handler({"a"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				a.push_back(m);
				if (handlers > 1) respond(message_container("b", "", {"tock"}));
				respond(message_container("s", "p", {"tock"}));
				if (how == ASYNC) askto();
			}, &alive));
			if (handlers > 1) r.add_async_handler({"b"}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				std::this_thread::sleep_for(std::chrono::milliseconds(150));
				respond(message_container("nobody", "", {}));
			}, &alive));
			r.add_async_handler({}, std::make_shared<Handler>([&](auto &m, auto &) { throw Violation{"a handler without origins was called"}; }, &alive));
			own = nullptr;
			fz::poll_fault = [&]() -> int {
				if (asked && ++after_polls > 1) throw Violation{"the loop goes on after terminate()"};
				return how == FAULT && polls++ == at ? EINTR : 0;
			};
			bool thread = how == THREAD || how == TWICE || (how == ASYNC && !handlers);
			sched::Fiber *d = nullptr, *p = nullptr;
			if (traffic && how != NONE) p = sched::spawn("peer", [&]() {
				auto x = fz::peer_connect(E1, "p");
				x.c->stalled = true; // it does not read
				for (int i = 0; i < 2; ++i) {
					x.send({"hello"});
					sched::yield("peer");
				}
			});
			if (how == BEFORE) askto();
			if (thread) d = sched::spawn("terminator", [&]() {
				sched::yield("terminate");
				askto();
				sched::note("terminate");
				if (how == TWICE) {
					sched::yield("terminate");
					r.terminate();
				}
			});
			if (how == SHUTDOWN) d = sched::spawn("terminator", [&]() {
				sched::yield("shutdown");
				sched::note("shutdown of the context");
				fz::ctx_shutdown(fz::only_ctx());
			});
			bool threw = false;
			if (how != NONE) {
				try {
					r.start_loop();
				} catch (const Boom &) {
					threw = true;
				} catch (const zmq::error_t &) {
					threw = true;
				}
				if (how == THROW && !threw) throw Violation{"the loop swallowed an exception of a handler"};
				if (!threw) {
					if (how != FAULT && !asked) throw Violation{"the loop ended by itself"};
					if (how != FAULT && alive) throw Violation{"a handler was not destroyed at the end of the loop"};
				}
				if ((how == FAULT || how == SHUTDOWN) && !threw) throw Violation{"the loop ended without an exception"};
			}
			if (d) join(d);
			if (p) join(p);
			fz::poll_fault = nullptr;
		}
		if (alive) throw Violation{"a handler was not destroyed"};
		if (how != SHUTDOWN) same("asynchronous handler", a, wa);
		for (auto &f : sched::fibers)
			if (!f->done && f.get() != sched::current) throw Violation{"thread " + f->name + " still runs"};
	}
	// handlers blocked by full queues or long work at the end
	void ending_busy(int messages)
	{
		fz::default_hwm = 1;
		int alive = 0, done = 0;
		bool loop = pick(2);
		auto ctx = std::make_shared<zmq::context_t>(1);
		{
			reactor r(ctx);
			auto work = [&](auto &m, auto &respond) {
				for (int i = 0; i < 4; ++i) respond(message_container("b", "", {"x"}));
				if (m.key == "b") std::this_thread::sleep_for(std::chrono::seconds(15));
				++done;
			};
			r.add_async_handler({"a"}, std::make_shared<Handler>(work, &alive));
			r.add_async_handler({"b"}, std::make_shared<Handler>([&](auto &m, auto &) {
				std::this_thread::sleep_for(std::chrono::seconds(15));
				++done;
			}, &alive));
			for (int i = 0; i < messages; ++i) r.process_message({"a", "", {"m"}});
			if (loop) {
				auto *t = sched::spawn("terminator", [&]() {
					sched::yield("terminate");
					r.terminate();
				});
				r.start_loop();
				join(t);
			}
		}
		if (alive) throw Violation{"a handler was not destroyed"};
		if (done < messages) throw Violation{"messages were dropped"};
	}

	// ---------------------------------------------------------------- C22
	void timer(int rounds, bool steps, bool small)
	{
		int alive = 0, polls = 0, timers = 0, handled = 0;
		std::int64_t reported_ms = 0, start = 0, round_start = 0, prev_round = 0;
		auto ctx = std::make_shared<zmq::context_t>(1);
		{
			reactor r(ctx);
			r.add_socket("s", std::make_shared<router_socket_wrapper>(ctx, E1, true));
			fz::Peer peer;
			r.add_handler({reactor::KEY_TIMER}, std::make_shared<Handler>([&](auto &m, auto &) {
				if (m.data.size() != 1 || m.data[0].empty() || m.data[0].find_first_not_of("0123456789") != string::npos) throw Violation{"timer message " + show(m)};
				reported_ms += std::stoll(m.data[0]);
				++timers;
				if (timers != polls) throw Violation{std::to_string(polls) + " rounds, but " + std::to_string(timers) + " timer messages"};
				std::int64_t passed = vclock::mono_us - start, round = vclock::mono_us - round_start;
				sched::note("timer " + m.data[0] + " ms, sum " + std::to_string(reported_ms) + " ms, passed " + std::to_string(passed) + " us");
				if (reported_ms * 1000 > passed + 1000 || reported_ms * 1000 < passed - round - 1000)
					throw Violation{"timer messages add up to " + std::to_string(reported_ms) + " ms after " + std::to_string(passed) + " us (this round took " + std::to_string(round) + " us)"};
				if (timers == rounds) r.terminate();
				// some handlers take long even for timer messages
				const std::int64_t t[] = {0, 30500, 61000000, 2592000000000ll};
				if (!small && timers == 2) vclock::advance(t[pick(4)]);
			}, &alive));
			r.add_handler({"s"}, std::make_shared<Handler>([&](auto &, auto &) {
				++handled;
				const std::int64_t e[] = {0, 600, 45000};
				vclock::advance(e[pick(small ? 2 : 3)]);
			}, &alive));
			fz::poll_fault = [&]() -> int {
				if (!polls) {
					start = vclock::mono_us;
					peer = fz::peer_connect(E1, "p");
				}
				prev_round = vclock::mono_us - round_start;
				round_start = vclock::mono_us;
				++polls;
				// a message ends the wait early
				const std::int64_t d[] = {-1, 300, 999, 1700, 60500};
				const std::int64_t d2[] = {-1, 400, 999};
				std::int64_t w = small ? d2[pick(3)] : d[pick(5)];
				if (steps && polls < 4) {
					const std::int64_t s[] = {0, -3600000000ll, 3600000000ll};
					vclock::wall_us += s[pick(3)];
				}
				if (w >= 0) {
					peer.send({"hello"});
					vclock::advance(w);
				}
				return 0;
			};
			start = vclock::mono_us;
			r.start_loop();
			fz::poll_fault = nullptr;
		}
		if (timers != rounds || polls != rounds) throw Violation{std::to_string(polls) + " rounds, but " + std::to_string(timers) + " timer messages"};
	}
	// timers of synchronous and asynchronous handlers agree
	void timer_async(int rounds)
	{
		int alive = 0;
		Log a, b;
		std::int64_t start = 0, sum = 0;
		auto ctx = std::make_shared<zmq::context_t>(1);
		{
			reactor r(ctx);
			r.add_async_handler({reactor::KEY_TIMER}, std::make_shared<Handler>([&](auto &m, auto &respond) {
				a.push_back(m);
				respond(message_container("x", "", {"wake up"}));
			}, &alive));
			r.add_handler({reactor::KEY_TIMER}, std::make_shared<Handler>([&](auto &m, auto &) {
				b.push_back(m);
				sum += std::stoll(m.data.at(0));
				std::int64_t passed = vclock::mono_us - start;
				if (sum * 1000 > passed + 1000 || sum * 1000 < passed - 101000) throw Violation{"timer messages add up to " + std::to_string(sum) + " ms after " + std::to_string(passed) + " us"};
				if ((int) b.size() == rounds) r.terminate();
			}, &alive));
			start = vclock::mono_us;
			r.start_loop();
		}
		same("asynchronous timer handler", a, b);
	}

	std::vector<Scenario> scenarios(const string &prop, bool th)
	{
		std::vector<Scenario> v;
		auto add = [&](const string &name, int dev, std::function<void()> body, bool timeouts = true) {
			Scenario s;
			s.name = name;
			s.dev = dev;
			s.body = body;
			s.timeouts = timeouts;
			v.push_back(s);
		};
		if (prop == "C19") {
			add("startup", th ? 6 : 4, []() { start_up(2, 2, false); });
			add("startup-frames", th ? 3 : 2, []() { start_up(2, 2, true); });
			add("startup-many", th ? 4 : 3, []() { start_up(3, 2, false); });
			add("forwarding", th ? 4 : 3, []() { forwarding(2, false, false); });
			add("forwarding-3", th ? 3 : 2, []() { forwarding(3, false, false); });
			add("forwarding-end", th ? 5 : 4, []() { forwarding(2, true, false); });
			add("forwarding-slow", th ? 4 : 3, []() { forwarding(2, false, true); });
			add("flood", th ? 7 : 5, []() { flood(5, false, true); });
			add("flood-answers", th ? 6 : 4, []() { flood(4, true, false); });
			add("sharing", th ? 3 : 2, []() { sharing(2, false); });
			add("sharing-end", th ? 5 : 3, []() { sharing(1, true); });
		} else if (prop == "C20") {
			add("routing", th ? 2 : 1, []() { routing(1, 2); });
			add("routing-2", 0, [th]() { routing(2, th ? 2 : 1); });
			add("routing-2x", th ? 2 : 1, []() { routing(2, 1); });
			add("routing-3", th ? 2 : 1, []() { routing(3, 0); });
			add("burst", th ? 5 : 3, []() { burst(2); });
			add("burst-4", th ? 4 : 2, []() { burst(4); });
		} else if (prop == "C21") {
			add("ending-0", th ? 9 : 7, []() { ending(0, false); });
			add("ending-1", th ? 6 : 4, []() { ending(1, false); });
			add("ending-2", th ? 5 : 3, []() { ending(2, false); });
			add("ending-traffic", th ? 5 : 4, []() { ending(1, true); });
			add("ending-busy", th ? 5 : 4, []() { ending_busy(3); });
		} else if (prop == "C22") {
			add("rounds", 0, [th]() { timer(th ? 6 : 5, false, false); });
			add("clock-steps", 0, [th]() { timer(th ? 5 : 4, true, false); });
			add("many-short", 0, [th]() { timer(th ? 11 : 9, false, true); });
			add("async", th ? 6 : 4, []() { timer_async(4); });
		}
		return v;
	}
} // namespace

int main(int argc, char **argv) { return explore::main_loop(argc, argv, "react", scenarios); }
