// Binds the model of libzmq (fakezmq.h) to the real library: every sequence of operations on a ROUTER and two DEALERs over
// inproc up to a length is executed on both, and every observable result must be one the model allows.
#define VERIF_VCLOCK
#define VERIF_SCHED_CHOICES_ONLY
#include "fakezmq.h"
#include "par.h"
#include "report.h"

extern "C" void sched::sched_switch(void **, void *) { std::abort(); }

namespace
{
	const char *OPS[] = {"connect A", "connect B", "A sends [1]", "A sends [2|]", "B sends [3]", "router sends A [4]", "router sends A [5||6]", "router sends B [7]", "router sends nobody [8]", "router sends A nothing, B [9]",
		"router receives", "A receives", "B receives", "poll", "close A", "send without peek"};
	constexpr int NOPS = 15;
	struct Api {
		void *(*socket)(void *, int);
		int (*bind)(void *, const char *);
		int (*connect)(void *, const char *);
		int (*setopt)(void *, int, const void *, size_t);
		int (*getopt)(void *, int, void *, size_t *);
		int (*close)(void *);
		std::function<int(void *, const std::string &, int)> send;
		std::function<int(void *, std::string &, bool &)> recv;
		std::function<int(zmq_pollitem_t *, int)> poll;
	};
	unsigned close_us = 3000;
	Api fake_api()
	{
		Api a;
		a.socket = fz::socket;
		a.bind = fz::bind;
		a.connect = fz::connect;
		a.setopt = fz::setsockopt;
		a.getopt = fz::getsockopt;
		a.close = fz::close;
		a.send = [](void *s, const std::string &p, int f) { return fz::send_part(s, p, f); };
		a.recv = [](void *s, std::string &p, bool &m) { return fz::recv_part(s, p, m, ZMQ_DONTWAIT); };
		a.poll = [](zmq_pollitem_t *i, int n) { return fz::poll(i, n, 0); };
		return a;
	}
	Api real_api()
	{
		Api a;
		a.socket = zmq_socket;
		a.bind = zmq_bind;
		a.connect = zmq_connect;
		a.setopt = zmq_setsockopt;
		a.getopt = zmq_getsockopt;
		a.close = zmq_close;
		a.send = [](void *s, const std::string &p, int f) { return zmq_send(s, p.data(), p.size(), f) < 0 ? -1 : 0; };
		a.recv = [](void *s, std::string &p, bool &m) {
			zmq_msg_t g;
			zmq_msg_init(&g);
			if (zmq_msg_recv(&g, s, ZMQ_DONTWAIT) < 0) {
				zmq_msg_close(&g);
				return -1;
			}
			p.assign((char *) zmq_msg_data(&g), zmq_msg_size(&g));
			m = zmq_msg_more(&g);
			zmq_msg_close(&g);
			return 0;
		};
		a.poll = [](zmq_pollitem_t *i, int n) { return zmq_poll(i, n, 0); };
		return a;
	}
	// what can be observed; flush: look at the events after each step, so nothing depends on the throttling of commands
	std::string perform(const Api &a, void *ctx, const std::vector<int> &ops, int hwm, bool flush, const std::string &addr, bool is_real)
	{
		std::string o;
		auto num = [&](int i) { o += std::to_string(i) + " "; };
		void *r = a.socket(ctx, ZMQ_ROUTER), *d[2] = {a.socket(ctx, ZMQ_DEALER), a.socket(ctx, ZMQ_DEALER)};
		int zero = 0;
		for (void *s : {r, d[0], d[1]}) {
			a.setopt(s, ZMQ_SNDHWM, &hwm, sizeof hwm);
			a.setopt(s, ZMQ_RCVHWM, &hwm, sizeof hwm);
			a.setopt(s, ZMQ_LINGER, &zero, sizeof zero);
		}
		a.setopt(d[0], ZMQ_IDENTITY, "A", 1);
		a.setopt(d[1], ZMQ_IDENTITY, "B", 1);
		if (!r || !d[0] || !d[1]) {
			std::fprintf(stderr, "internal: no sockets left\n");
			_exit(9);
		}
		num(a.bind(r, addr.c_str()));
		bool connected[2] = {false, false};
		auto send = [&](void *s, const std::vector<std::string> &m) {
			for (std::size_t i = 0; i < m.size(); ++i) {
				int rc = a.send(s, m[i], (i + 1 < m.size() ? ZMQ_SNDMORE : 0) | ZMQ_DONTWAIT);
				if (rc) {
					o += "E" + std::to_string(errno) + " ";
					return;
				}
			}
			o += "ok ";
		};
		auto recv = [&](void *s) {
			std::string p;
			bool more = true;
			o += "[";
			while (more) {
				if (a.recv(s, p, more)) {
					o += "E" + std::to_string(errno);
					break;
				}
				o += p + (more ? "|" : "");
			}
			o += "] ";
		};
		for (int op : ops) {
			switch (op) {
			case 0:
			case 1:
				if (!d[op] || connected[op]) break;
				connected[op] = true;
				num(a.connect(d[op], addr.c_str()));
				break;
			case 2:
				if (d[0] && connected[0]) send(d[0], {"1"});
				break;
			case 3:
				if (d[0] && connected[0]) send(d[0], {"2", ""});
				break;
			case 4:
				if (connected[1]) send(d[1], {"3"});
				break;
			case 5: send(r, {"A", "4"}); break;
			case 6: send(r, {"A", "5", "", "6"}); break;
			case 7: send(r, {"B", "7"}); break;
			case 8: send(r, {"nobody", "8"}); break;
			case 9: // an identity without a message swallows the next one
				a.send(r, "A", ZMQ_SNDMORE);
				send(r, {"B", "9"});
				break;
			case 10: recv(r); break;
			case 11:
				if (d[0]) recv(d[0]);
				break;
			case 12: recv(d[1]); break;
			case 13: {
				zmq_pollitem_t it[3] = {{r, 0, ZMQ_POLLIN | ZMQ_POLLOUT, 0}, {d[1], 0, ZMQ_POLLIN | ZMQ_POLLOUT, 0}, {d[0], 0, ZMQ_POLLIN | ZMQ_POLLOUT, 0}};
				num(a.poll(it, d[0] ? 3 : 2));
				for (int i = 0; i < (d[0] ? 3 : 2); ++i) num(it[i].revents);
				break;
			}
			case 14:
				if (!d[0]) break;
				num(a.close(d[0]));
				d[0] = nullptr;
				if (is_real) usleep(close_us); // the library closes in the background
				break;
			}
			if (flush) {
				for (void *s : {r, d[0], d[1]}) {
					if (!s) continue;
					int e = 0;
					std::size_t n = sizeof e;
					a.getopt(s, ZMQ_EVENTS, &e, &n);
					num(e);
				}
			}
			o += "; ";
		}
		for (void *s : {r, d[0], d[1]})
			if (s) a.close(s);
		return o;
	}
	std::set<std::string> model(const std::vector<int> &ops, int hwm, bool flush)
	{
		std::set<std::string> res;
		std::vector<std::vector<std::uint16_t>> todo{{}};
		auto api = fake_api();
		while (!todo.empty()) {
			auto s = todo.back();
			todo.pop_back();
			fz::reset();
			fz::scheduling = false;
			fz::throttle_choices = !flush;
			sched::script = s;
			sched::trace.clear();
			void *c = fz::ctx_new();
			res.insert(perform(api, c, ops, hwm, flush, "inproc://x", false));
			auto p = s;
			for (std::size_t j = s.size(); j < sched::trace.size(); ++j) {
				for (std::uint16_t k = 1; k < sched::trace[j].n; ++k) {
					todo.push_back(p);
					todo.back().push_back(k);
				}
				p.push_back(0);
			}
		}
		return res;
	}
	std::vector<int> decode(std::uint64_t i, int depth)
	{
		std::vector<int> v;
		for (int k = 0; k < depth; ++k) {
			v.push_back(i % NOPS);
			i /= NOPS;
		}
		return v;
	}
	// operations that do nothing here need not be repeated: skip sequences with useless steps
	bool useful(const std::vector<int> &v)
	{
		bool c[2] = {false, false}, closed = false;
		for (int o : v) {
			if (o < 2) {
				if (c[o] || (o == 0 && closed)) return false;
				c[o] = true;
			}
			if ((o == 2 || o == 3 || o == 11) && (!c[0] || closed)) return false;
			if ((o == 4 || o == 12) && !c[1]) return false;
			if (o == 14) {
				if (closed) return false;
				closed = true;
			}
		}
		return true;
	}
	std::string text(const std::vector<int> &v)
	{
		std::string s;
		for (int o : v) s += (s.empty() ? "" : ", ") + std::string(OPS[o]);
		return s;
	}
} // namespace

int main(int argc, char **argv)
{
	std::string tier = "quick", out;
	double limit = 600;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--tier") tier = argv[++i];
		else if (a == "--out") out = argv[++i];
		else if (a == "--limit") limit = std::atof(argv[++i]);
	}
	report::Result res;
	int depth = tier == "thorough" ? 5 : 3;
	double t0 = par::now();
	// prefixes: connections there from the start or not
	const std::vector<std::vector<int>> prefixes = {{}, {0}, {0, 1}, {0, 2, 2}, {0, 1, 5, 5}};
	std::uint64_t per = 1;
	for (int k = 0; k < depth; ++k) per *= NOPS;
	struct Variant {
		int hwm;
		bool flush;
	};
	const Variant variants[] = {{1000, true}, {1, true}, {1, false}, {0, false}};
	std::uint64_t n = per * prefixes.size() * 4;
	std::vector<par::Dead> dead;
	auto recs = par::run(n, 2048, [&](std::uint64_t i, std::string &o) {
		static void *ctx = nullptr;
		static std::uint64_t serial = 0, used = 0;
		static Api api = real_api();
		auto ops = decode(i % per, depth);
		auto full = prefixes[i / per % prefixes.size()];
		auto v = variants[i / per / prefixes.size()];
		full.insert(full.end(), ops.begin(), ops.end());
		if (!useful(full)) return;
		if (ctx && ++used >= 500) { // let the library finish closing
			zmq_ctx_term(ctx);
			ctx = nullptr;
			used = 0;
		}
		if (!ctx) {
			ctx = zmq_ctx_new();
			zmq_ctx_set(ctx, ZMQ_MAX_SOCKETS, 60000);
		}
		auto want = model(full, v.hwm, v.flush);
		auto got = perform(api, ctx, full, v.hwm, v.flush, "inproc://x" + std::to_string(serial++), true);
		// the library finishes closing in a thread of its own: give it more time if that could be the reason
		for (int k = 0; k < 4 && !want.count(got); ++k) {
			close_us = 30000 << k;
			got = perform(api, ctx, full, v.hwm, v.flush, "inproc://x" + std::to_string(serial++), true);
			close_us = 3000;
		}
		if (!want.count(got)) {
			o += "V" + text(full) + " (hwm " + std::to_string(v.hwm) + (v.flush ? ", flushed" : "") + "): the library gives " + got + " the model";
			for (auto &w : want) o += " / " + w;
			o += "\n";
			par::request_stop();
		} else {
			o += "k\n";
		}
	}, dead, t0 + limit, 60);
	std::uint64_t done = 0;
	std::string first;
	for (auto &r : recs)
		for (std::size_t p = 0; p < r.size();) {
			auto e = r.find('\n', p);
			if (r[p] == 'V' && first.empty()) first = r.substr(p + 1, e - p - 1);
			if (r[p] == 'k') ++done;
			p = e + 1;
		}
	if (!dead.empty() || !first.empty()) { // the model is wrong, not the broker: no answer
		std::fprintf(stderr, "the model of libzmq does not match the library: %s\n", first.c_str());
		return 4;
	}
	res.counts["zmq_model_sequences_validated_against_libzmq"] = done;
	char b[200];
	std::snprintf(b, sizeof b, "{\"scenario\": \"libzmq conformance\", \"sequences\": %llu, \"depth\": %d, \"wall_s\": %.2f}", (unsigned long long) done, depth, par::now() - t0);
	res.parts.push_back(b);
	std::fprintf(stderr, "%s\n", b);
	if (!out.empty()) res.write(out);
	return 0;
}
