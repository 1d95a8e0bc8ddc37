// A model of the part of libzmq the broker uses: contexts, ROUTER/DEALER/PAIR sockets over inproc and (simulated) tcp, polling.
// Atomic multipart messages, ROUTER identities and silent drops, asynchronous attachment of new peers, high water marks,
// ETERM.  Bound to the real library by the conformance harness (zmqconf.cpp), which runs both on the same operations.
#pragma once
#include "fibers.h"
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <zmq.h>

namespace fz
{
	using Msg = std::vector<std::string>;
	struct Socket;
	struct Ctx;
	struct Conn { // a connection; side 0 connected, side 1 accepted it
		Socket *s[2] = {nullptr, nullptr}; // null: closed or an outside peer
		bool outside[2] = {false, false};
		std::deque<Msg> q[2]; // to be read by this side
		// for the limits: messages put into q, completely read from q, and how many of those the writer knows of
		std::uint64_t written[2] = {0, 0}, read[2] = {0, 0}, known[2] = {0, 0};
		void learn(int k) // the writer is told now and then
		{
			known[k] = told(k);
		}
		std::uint64_t told(int k) const
		{
			if (!hwm[k]) return 0;
			std::uint64_t lwm = (hwm[k] + 1) / 2;
			return read[k] / lwm * lwm;
		}
		std::string id[2]; // identity this side presents to the other
		bool attached[2] = {false, false};
		bool ignored[2] = {false, false}; // this side refuses the connection (identity in use)
		int hwm[2] = {0, 0}; // capacity of q
		bool stalled = false; // an outside peer that takes no more data
		std::string endpoint;
	};
	using ConnP = std::shared_ptr<Conn>;
	struct Socket {
		Ctx *ctx;
		int type;
		int number;
		std::string identity;
		int sndhwm, rcvhwm;
		int linger = -1, rcvtimeo = -1, sndtimeo = -1;
		bool mandatory = false;
		std::vector<std::pair<ConnP, int>> conns; // with own side; fair queueing as in libzmq: the active ones come first
		std::size_t active = 0, turn = 0;
		std::vector<std::pair<ConnP, int>> pending; // commands not processed yet: new connections, messages on inactive ones
		std::deque<std::string> in; // rest of the message being received
		bool in_active = false;
		ConnP in_conn;
		int in_side = 0;
		bool more_out = false;
		ConnP out;
		int out_side = 0;
		Msg out_parts;
		std::vector<std::string> bound;
		bool sent_before = false;
		std::uint64_t auto_id = 1;
		sched::Fiber *user = nullptr; // the thread inside of an operation on this socket
	};
	struct Ctx {
		std::set<Socket *> sockets;
		std::map<std::string, Socket *> bound;
		std::vector<ConnP> waiting; // connections to endpoints nobody is bound to
		bool terminating = false;
		std::vector<std::pair<ConnP, std::int64_t>> lingering; // closed, but with undelivered messages until a deadline (-1 none)
		int numbers = 0;
	};
	inline std::set<Ctx *> contexts;
	inline std::set<Socket *> all;
	inline int default_hwm = 1000;
	inline bool scheduling = false; // operations are scheduling points and may block
	inline bool throttle_choices = false; // send may overlook new peers
	inline std::function<int()> poll_fault; // errno for zmq_poll or 0
	inline std::function<void()> poll_done; // called when zmq_poll is about to return normally
	inline std::function<std::int64_t(int, std::int64_t)> poll_time; // time a poll takes: (ready, timeout in us) -> us
	inline std::set<std::string> tcp_endpoints_used;
	inline std::uint64_t opened = 0;

	inline void reset()
	{
		for (auto *s : all) delete s;
		all.clear();
		for (auto *c : contexts) delete c;
		contexts.clear();
		tcp_endpoints_used.clear();
		opened = 0;
	}
	inline int err(int e)
	{
		errno = e;
		return -1;
	}
	// sockets must not be used by two threads at the same time
	struct Use {
		Socket *s[16];
		int n = 0;
		Use(std::initializer_list<Socket *> l) { for (auto *x : l) add(x); }
		Use() {}
		void add(Socket *x)
		{
			if (!x || !scheduling || !sched::active || !sched::current) return;
			if (x->user == sched::current || n >= 16) return;
			if (x->user) {
				sched::fail("a socket is used by two threads at the same time: " + sched::current->name + " while " + x->user->name + " is in " + x->user->where);
				sched::abandon();
			}
			x->user = sched::current;
			if (n < 16) s[n++] = x;
		}
		~Use()
		{
			for (int i = 0; i < n; ++i)
				if (all.count(s[i]) && s[i]->user == sched::current) s[i]->user = nullptr;
		}
	};
	inline Socket *sock(void *p) { return all.count((Socket *) p) ? (Socket *) p : nullptr; }
	inline void activate(Socket *s, std::size_t i)
	{
		if (i < s->active) return;
		std::swap(s->conns[i], s->conns[s->active]);
		++s->active;
	}
	// the connection whose message is next, or -1
	inline int next_conn(Socket *s)
	{
		while (s->active) {
			auto &c = s->conns[s->turn];
			if (!c.first->q[c.second].empty()) return (int) s->turn;
			--s->active;
			std::swap(s->conns[s->turn], s->conns[s->active]);
			if (s->turn == s->active) s->turn = 0;
		}
		return -1;
	}
	inline bool fetch(Socket *s) // take the next message
	{
		int i = next_conn(s);
		if (i < 0) return false;
		auto &c = s->conns[i];
		auto &q = c.first->q[c.second];
		if (s->type == ZMQ_ROUTER) s->in.push_back(c.first->id[1 - c.second]);
		for (auto &x : q.front()) s->in.push_back(x);
		if (q.front().size() > 1) {
			s->in_conn = c.first;
			s->in_side = c.second;
		} else {
			c.first->read[c.second]++;
			s->turn = (s->turn + 1) % s->active;
		}
		q.pop_front();
		return true;
	}
	inline void attach(Socket *s, ConnP c, int side)
	{
		c->attached[side] = true;
		if (s->type == ZMQ_ROUTER) {
			std::string &id = c->id[1 - side];
			if (id.empty()) {
				id = std::string("\0", 1) + std::string("auto") + std::to_string(s->auto_id++);
			}
			for (auto &o : s->conns)
				if (o.first->id[1 - o.second] == id && (o.first->s[1 - o.second] || o.first->outside[1 - o.second])) {
					c->ignored[side] = true; // identity already in use
					return;
				}
		}
		if (s->type == ZMQ_PAIR && !s->conns.empty()) {
			c->ignored[side] = true;
			return;
		}
		s->conns.push_back({c, side});
		activate(s, s->conns.size() - 1);
	}
	inline void drop(Socket *s, std::size_t i) // forget a connection
	{
		if (i < s->active) {
			--s->active;
			std::swap(s->conns[i], s->conns[s->active]);
			if (s->turn == s->active) s->turn = 0;
			i = s->active;
		}
		s->conns.erase(s->conns.begin() + i);
	}
	inline void arrived(const ConnP &c, int side) // a message was put into q[side]
	{
		if (c->s[side] && c->attached[side]) c->s[side]->pending.push_back({c, side});
	}
	inline void process_commands(Socket *s)
	{
		auto p = std::move(s->pending);
		s->pending.clear();
		for (auto &x : p) {
			if (!x.first->attached[x.second]) {
				attach(s, x.first, x.second);
				continue;
			}
			for (std::size_t i = s->active; i < s->conns.size(); ++i)
				if (s->conns[i].first == x.first) {
					activate(s, i);
					break;
				}
		}
		for (auto &x : s->conns) x.first->learn(1 - x.second);
		// connections whose other side is gone and which have been read out disappear
		for (std::size_t i = 0; i < s->conns.size();) {
			auto &c = s->conns[i];
			if (!c.first->s[1 - c.second] && !c.first->outside[1 - c.second] && c.first->q[c.second].empty()) {
				drop(s, i);
				i = 0;
			} else ++i;
		}
	}
	inline bool readable(Socket *s)
	{
		if (!s->in.empty()) return true;
		if (s->type == ZMQ_ROUTER) return fetch(s); // a ROUTER takes the message when asked whether there is one
		return next_conn(s) >= 0;
	}
	inline bool peer_alive(const ConnP &c, int side) { return c->s[1 - side] || c->outside[1 - side]; }
	inline bool room(const ConnP &c, int side) { return c->hwm[1 - side] == 0 || c->written[1 - side] - c->known[1 - side] < (std::uint64_t) c->hwm[1 - side]; }
	inline bool writable(Socket *s)
	{
		if (s->more_out || s->type == ZMQ_ROUTER) return true;
		for (auto &c : s->conns)
			if (peer_alive(c.first, c.second) && room(c.first, c.second)) return true;
		return false;
	}
	inline void set_hwm(Conn &c, int snd0, int rcv0, int snd1, int rcv1)
	{
		c.hwm[1] = snd0 == 0 || rcv1 == 0 ? 0 : snd0 + rcv1;
		c.hwm[0] = snd1 == 0 || rcv0 == 0 ? 0 : snd1 + rcv0;
	}
	inline void link(Socket *binder, ConnP c) // an inproc or tcp connection reaches a bound socket
	{
		c->s[1] = binder;
		c->id[1] = binder->identity;
		if (c->s[0]) set_hwm(*c, c->s[0]->sndhwm, c->s[0]->rcvhwm, binder->sndhwm, binder->rcvhwm);
		binder->pending.push_back({c, 1});
	}
	// --- the API ---
	inline void *ctx_new()
	{
		auto *c = new Ctx();
		contexts.insert(c);
		return c;
	}
	inline int ctx_shutdown(void *p)
	{
		if (!contexts.count((Ctx *) p)) return err(EFAULT);
		((Ctx *) p)->terminating = true;
		return 0;
	}
	inline int ctx_term(void *p)
	{
		auto *c = (Ctx *) p;
		if (!contexts.count(c)) return err(EFAULT);
		c->terminating = true;
		if (scheduling) {
			sched::block("context termination", [c]() { return c->sockets.empty(); });
			// undelivered messages of closed sockets hold the context back
			for (auto &l : c->lingering) {
				ConnP k = l.first;
				if (l.second < 0 || l.second > vclock::mono_us)
					sched::block("context termination (undelivered messages)", [k]() { return !k->outside[0] && !k->outside[1]; }, l.second < 0 ? -1 : l.second - vclock::mono_us);
			}
		}
		contexts.erase(c);
		delete c;
		return 0;
	}
	inline void *socket(void *p, int type)
	{
		auto *c = (Ctx *) p;
		if (!contexts.count(c)) {
			errno = EFAULT;
			return nullptr;
		}
		if (c->terminating) {
			errno = ETERM;
			return nullptr;
		}
		if (type != ZMQ_ROUTER && type != ZMQ_DEALER && type != ZMQ_PAIR) {
			std::fprintf(stderr, "internal: socket type %d is not modelled\n", type);
			_exit(9);
		}
		auto *s = new Socket();
		s->ctx = c;
		s->type = type;
		s->number = c->numbers++;
		s->sndhwm = s->rcvhwm = default_hwm;
		c->sockets.insert(s);
		all.insert(s);
		++opened;
		return s;
	}
	inline int close(void *p)
	{
		auto *s = sock(p);
		if (!s) return err(ENOTSOCK);
		Use use{s};
		if (scheduling) sched::yield("zmq_close");
		process_commands(s);
		if (s->linger != 0)
			for (auto &c : s->conns)
				if (c.first->stalled && c.first->outside[1 - c.second] && !c.first->q[1 - c.second].empty())
					s->ctx->lingering.push_back({c.first, s->linger < 0 ? -1 : vclock::mono_us + s->linger * 1000ll});
		for (auto &c : s->conns) c.first->s[c.second] = nullptr;
		for (auto &c : s->pending) c.first->s[c.second] = nullptr;
		for (auto &e : s->bound) s->ctx->bound.erase(e);
		auto &w = s->ctx->waiting;
		w.erase(std::remove_if(w.begin(), w.end(), [s](const ConnP &c) { return c->s[0] == s; }), w.end());
		for (auto *o : s->ctx->sockets)
			for (auto &c : o->conns)
				for (int k = 0; k < 2; ++k)
					if (c.first->s[k] == s) c.first->s[k] = nullptr;
		s->ctx->sockets.erase(s);
		all.erase(s);
		delete s;
		return 0;
	}
	inline int bind(void *p, const char *addr)
	{
		auto *s = sock(p);
		if (!s) return err(ENOTSOCK);
		if (s->ctx->terminating) return err(ETERM);
		std::string a = addr;
		if (a.compare(0, 9, "inproc://") != 0 && a.compare(0, 6, "tcp://") != 0) return err(EINVAL);
		if (scheduling) sched::yield("zmq_bind");
		if (s->ctx->bound.count(a)) return err(EADDRINUSE);
		s->ctx->bound[a] = s;
		s->bound.push_back(a);
		if (a[0] == 't') tcp_endpoints_used.insert("bind " + a);
		auto w = std::move(s->ctx->waiting);
		s->ctx->waiting.clear();
		for (auto &c : w) {
			if (c->endpoint == a) link(s, c);
			else s->ctx->waiting.push_back(c);
		}
		return 0;
	}
	inline int connect(void *p, const char *addr)
	{
		auto *s = sock(p);
		if (!s) return err(ENOTSOCK);
		if (s->ctx->terminating) return err(ETERM);
		std::string a = addr;
		if (a.compare(0, 9, "inproc://") != 0 && a.compare(0, 6, "tcp://") != 0) return err(EINVAL);
		if (scheduling) sched::yield("zmq_connect");
		auto c = std::make_shared<Conn>();
		c->endpoint = a;
		c->s[0] = s;
		c->id[0] = s->identity;
		if (a[0] == 't') tcp_endpoints_used.insert("connect " + a);
		set_hwm(*c, s->sndhwm, s->rcvhwm, s->sndhwm, s->rcvhwm);
		auto it = s->ctx->bound.find(a);
		bool inproc = a[0] == 'i';
		if (it != s->ctx->bound.end()) link(it->second, c);
		else s->ctx->waiting.push_back(c);
		// a ROUTER learns the identity of the other side only when that side is there
		if (s->type == ZMQ_ROUTER) {
			if (it != s->ctx->bound.end()) {
				if (inproc) attach(s, c, 0);
				else s->pending.push_back({c, 0});
			}
		} else {
			attach(s, c, 0);
		}
		return 0;
	}
	inline int unbind(void *p, const char *addr)
	{
		auto *s = sock(p);
		if (!s) return err(ENOTSOCK);
		auto it = std::find(s->bound.begin(), s->bound.end(), addr);
		if (it == s->bound.end()) return err(ENOENT);
		s->bound.erase(it);
		s->ctx->bound.erase(addr);
		return 0;
	}
	inline int disconnect(void *p, const char *addr)
	{
		auto *s = sock(p);
		if (!s) return err(ENOTSOCK);
		for (std::size_t i = 0; i < s->conns.size(); ++i)
			if (s->conns[i].second == 0 && s->conns[i].first->endpoint == addr) {
				s->conns[i].first->s[0] = nullptr;
				drop(s, i);
				return 0;
			}
		return err(ENOENT);
	}
	inline int setsockopt(void *p, int o, const void *v, std::size_t n)
	{
		auto *s = sock(p);
		if (!s) return err(ENOTSOCK);
		int i = n == sizeof(int) ? *(const int *) v : 0;
		switch (o) {
		case ZMQ_ROUTING_ID:
			if (n < 1 || n > 255) return err(EINVAL);
			s->identity.assign((const char *) v, n);
			break;
		case ZMQ_SNDHWM: s->sndhwm = i; break;
		case ZMQ_RCVHWM: s->rcvhwm = i; break;
		case ZMQ_LINGER: s->linger = i; break;
		case ZMQ_RCVTIMEO: s->rcvtimeo = i; break;
		case ZMQ_SNDTIMEO: s->sndtimeo = i; break;
		case ZMQ_ROUTER_MANDATORY: s->mandatory = i; break;
		default: break;
		}
		return 0;
	}
	inline int getsockopt(void *p, int o, void *v, std::size_t *n)
	{
		auto *s = sock(p);
		if (!s) return err(ENOTSOCK);
		auto put = [&](int x) {
			if (*n < sizeof(int)) return err(EINVAL);
			*(int *) v = x;
			*n = sizeof(int);
			return 0;
		};
		switch (o) {
		case ZMQ_EVENTS:
			if (s->ctx->terminating) return err(ETERM);
			{
				Use use{s};
				if (scheduling) sched::yield("zmq_getsockopt");
				process_commands(s);
				return put((readable(s) ? ZMQ_POLLIN : 0) | (writable(s) ? ZMQ_POLLOUT : 0));
			}
		case ZMQ_RCVMORE: return put(s->in_active && !s->in.empty());
		case ZMQ_TYPE: return put(s->type);
		case ZMQ_LINGER: return put(s->linger);
		case ZMQ_SNDHWM: return put(s->sndhwm);
		case ZMQ_RCVHWM: return put(s->rcvhwm);
		case ZMQ_ROUTING_ID:
			if (*n < s->identity.size()) return err(EINVAL);
			std::memcpy(v, s->identity.data(), s->identity.size());
			*n = s->identity.size();
			return 0;
		case ZMQ_LAST_ENDPOINT: {
			std::string e = s->bound.empty() ? "" : s->bound.back();
			if (*n < e.size() + 1) return err(EINVAL);
			std::memcpy(v, e.c_str(), e.size() + 1);
			*n = e.size() + 1;
			return 0;
		}
		default: return err(EINVAL);
		}
	}
	inline int send_part(void *p, const std::string &part, int flags)
	{
		auto *s = sock(p);
		if (!s) return err(ENOTSOCK);
		Use use{s};
		if (s->ctx->terminating) return err(ETERM);
		bool more = flags & ZMQ_SNDMORE;
		if (scheduling && !s->more_out) sched::yield("zmq_send");
		if (!sock(p)) return err(ENOTSOCK);
		// the check for new peers and freed space is throttled
		bool news = false;
		for (auto &x : s->pending) news |= !x.first->attached[x.second];
		for (auto &x : s->conns) news |= x.first->told(1 - x.second) > x.first->known[1 - x.second];
		if (!s->sent_before || !throttle_choices || !news || sched::choose(2, false) == 0) process_commands(s);
		s->sent_before = true;
		if (!s->more_out) {
			s->out = nullptr;
			s->out_parts.clear();
			if (s->type == ZMQ_ROUTER) {
				if (!more) return 0; // prefix without a message: ignored
				for (auto &c : s->conns) {
					if (c.first->id[1 - c.second] != part) continue;
					if (!peer_alive(c.first, c.second)) continue;
					if (!room(c.first, c.second)) {
						if (s->mandatory) return err(EAGAIN);
						continue;
					}
					s->out = c.first;
					s->out_side = c.second;
				}
				if (!s->out && s->mandatory) return err(EHOSTUNREACH);
				s->more_out = true;
				return 0;
			}
			auto pick = [s]() -> bool {
				for (std::size_t k = 0; k < s->conns.size(); ++k) {
					auto &c = s->conns[k];
					if (peer_alive(c.first, c.second) && room(c.first, c.second)) {
						s->out = c.first;
						s->out_side = c.second;
						return true;
					}
				}
				return false;
			};
			if (!pick()) {
				if (flags & ZMQ_DONTWAIT || !scheduling) return err(EAGAIN);
				if (!sched::block("zmq_send", [s, p, pick]() { 
					if (!sock(p) || s->ctx->terminating) return true;
					process_commands(s);
					return pick();
				}, s->sndtimeo < 0 ? -1 : s->sndtimeo * 1000ll)) return err(EAGAIN);
				if (!sock(p)) return err(ENOTSOCK);
				if (s->ctx->terminating) return err(ETERM);
			}
		}
		s->more_out = more;
		s->out_parts.push_back(part);
		if (!more) {
			if (s->out && peer_alive(s->out, s->out_side) && !s->out->ignored[1 - s->out_side]) {
				s->out->q[1 - s->out_side].push_back(s->out_parts);
				s->out->written[1 - s->out_side]++;
				arrived(s->out, 1 - s->out_side);
			}
			s->out = nullptr;
			s->out_parts.clear();
		}
		return 0;
	}
	// receives one part
	inline int recv_part(void *p, std::string &part, bool &more, int flags)
	{
		auto *s = sock(p);
		if (!s) return err(ENOTSOCK);
		Use use{s};
		if (s->ctx->terminating) return err(ETERM);
		if (s->in.empty()) {
			if (scheduling) sched::yield("zmq_recv");
			if (!readable(s)) process_commands(s);
			if (!readable(s)) {
				if (flags & ZMQ_DONTWAIT || !scheduling) return err(EAGAIN);
				bool ok = sched::block("zmq_recv", [s, p]() {
					if (!sock(p)) return true;
					process_commands(s);
					return s->ctx->terminating || readable(s);
				}, s->rcvtimeo < 0 ? -1 : s->rcvtimeo * 1000ll);
				if (!ok) return err(EAGAIN);
				if (!sock(p)) return err(ENOTSOCK);
				if (s->ctx->terminating) return err(ETERM);
			}
			if (s->in.empty()) fetch(s);
		}
		part = s->in.front();
		s->in.pop_front();
		more = !s->in.empty();
		if (!more && s->in_conn) {
			s->in_conn->read[s->in_side]++;
			if (s->active) s->turn = (s->turn + 1) % s->active;
			s->in_conn = nullptr;
		}
		s->in_active = more;
		return 0;
	}
	inline int poll(zmq_pollitem_t *items, int n, long timeout)
	{
		Use use;
		for (int i = 0; i < n; ++i) use.add(sock(items[i].socket));
		if (scheduling) sched::yield("zmq_poll");
		auto look = [=]() {
			int r = 0;
			for (int i = 0; i < n; ++i) {
				items[i].revents = 0;
				auto *s = sock(items[i].socket);
				if (!s) continue;
				process_commands(s);
				if ((items[i].events & ZMQ_POLLIN) && readable(s)) items[i].revents |= ZMQ_POLLIN;
				if ((items[i].events & ZMQ_POLLOUT) && writable(s)) items[i].revents |= ZMQ_POLLOUT;
				if (items[i].revents) ++r;
			}
			return r;
		};
		for (int i = 0; i < n; ++i) {
			if (!items[i].socket) continue;
			auto *s = sock(items[i].socket);
			if (!s) return err(ENOTSOCK);
			if (s->ctx->terminating) return err(ETERM);
		}
		if (poll_fault) {
			int e = poll_fault();
			if (e) return err(e);
		}
		int r = look();
		if (r || timeout == 0 || !scheduling) {
			if (poll_time) {
				std::int64_t us = poll_time(r, timeout * 1000ll);
				vclock::advance(us);
			}
			if (poll_done) poll_done();
			return r;
		}
		sched::block("zmq_poll", [&]() {
			for (int i = 0; i < n; ++i) {
				auto *s = sock(items[i].socket);
				if (!s) continue;
				if (s->ctx->terminating) return true;
				process_commands(s);
				if ((items[i].events & ZMQ_POLLIN) && readable(s)) return true;
				if ((items[i].events & ZMQ_POLLOUT) && writable(s)) return true;
			}
			return false;
		}, timeout < 0 ? -1 : timeout * 1000ll);
		for (int i = 0; i < n; ++i) {
			auto *s = sock(items[i].socket);
			if (s && s->ctx->terminating) return err(ETERM);
		}
		r = look();
		if (poll_done) poll_done();
		return r;
	}
	// --- peers outside of the process, connected over tcp ---
	struct Peer {
		ConnP c;
		int side;
		void send(const Msg &m)
		{
			c->q[1 - side].push_back(m);
			c->written[1 - side]++;
			arrived(c, 1 - side);
		}
		bool recv(Msg &m)
		{
			if (c->q[side].empty()) return false;
			m = c->q[side].front();
			c->q[side].pop_front();
			c->read[side]++;
			return true;
		}
		void disconnect()
		{
			c->outside[side] = false;
		}
		bool connected() const { return c->s[1 - side] != nullptr && c->attached[1 - side]; }
	};
	inline Ctx *only_ctx() { return contexts.empty() ? nullptr : *contexts.begin(); }
	// a peer that connects to an endpoint the broker is (or will be) bound to
	inline Peer peer_connect(const std::string &endpoint, const std::string &identity)
	{
		Peer p;
		p.c = std::make_shared<Conn>();
		p.side = 0;
		p.c->outside[0] = true;
		p.c->id[0] = identity;
		p.c->endpoint = endpoint;
		auto *x = only_ctx();
		auto it = x->bound.find(endpoint);
		if (it != x->bound.end()) link(it->second, p.c);
		else x->waiting.push_back(p.c);
		return p;
	}
	// a peer the broker connects to; false if there is no such attempt
	inline bool peer_accept(const std::string &endpoint, const std::string &identity, Peer &p)
	{
		auto *x = only_ctx();
		for (std::size_t i = 0; i < x->waiting.size(); ++i) {
			auto c = x->waiting[i];
			if (c->endpoint != endpoint || !c->s[0]) continue;
			x->waiting.erase(x->waiting.begin() + i);
			c->outside[1] = true;
			c->id[1] = identity;
			if (!c->attached[0]) c->s[0]->pending.push_back({c, 0});
			p.c = c;
			p.side = 1;
			return true;
		}
		return false;
	}
} // namespace fz

#ifdef VERIF_FAKEZMQ
namespace fz
{
	struct Content {
		std::string s;
		void *data = nullptr;
		std::size_t size = 0;
		zmq_free_fn *ffn = nullptr;
		void *hint = nullptr;
		~Content()
		{
			if (ffn) ffn(data, hint);
		}
	};
	struct Raw {
		std::shared_ptr<Content> *c;
		bool more;
		std::uint32_t magic;
	};
	inline Raw *raw(zmq_msg_t *m) { return (Raw *) m; }
	static_assert(sizeof(Raw) <= sizeof(zmq_msg_t), "size");
	inline std::string text(zmq_msg_t *m)
	{
		auto &c = **raw(m)->c;
		return c.data ? std::string((char *) c.data, c.size) : c.s;
	}
} // namespace fz
extern "C" {
void *zmq_ctx_new(void) { return fz::ctx_new(); }
void *zmq_init(int) { return fz::ctx_new(); }
int zmq_ctx_term(void *c) { return fz::ctx_term(c); }
int zmq_ctx_destroy(void *c) { return fz::ctx_term(c); }
int zmq_term(void *c) { return fz::ctx_term(c); }
int zmq_ctx_shutdown(void *c) { return fz::ctx_shutdown(c); }
int zmq_ctx_set(void *, int, int) { return 0; }
int zmq_ctx_get(void *, int) { return 1; }
void *zmq_socket(void *c, int t) { return fz::socket(c, t); }
int zmq_close(void *s) { return fz::close(s); }
int zmq_bind(void *s, const char *a) { return fz::bind(s, a); }
int zmq_connect(void *s, const char *a) { return fz::connect(s, a); }
int zmq_unbind(void *s, const char *a) { return fz::unbind(s, a); }
int zmq_disconnect(void *s, const char *a) { return fz::disconnect(s, a); }
int zmq_setsockopt(void *s, int o, const void *v, size_t n) { return fz::setsockopt(s, o, v, n); }
int zmq_getsockopt(void *s, int o, void *v, size_t *n) { return fz::getsockopt(s, o, v, n); }
int zmq_send(void *s, const void *b, size_t n, int f) { return fz::send_part(s, std::string((const char *) b, n), f) ? -1 : (int) n; }
int zmq_send_const(void *s, const void *b, size_t n, int f) { return zmq_send(s, b, n, f); }
int zmq_recv(void *s, void *b, size_t n, int f)
{
	std::string p;
	bool m;
	if (fz::recv_part(s, p, m, f)) return -1;
	std::memcpy(b, p.data(), std::min(n, p.size()));
	return (int) p.size();
}
int zmq_msg_init(zmq_msg_t *m)
{
	fz::raw(m)->c = new std::shared_ptr<fz::Content>(std::make_shared<fz::Content>());
	fz::raw(m)->more = false;
	return 0;
}
int zmq_msg_init_size(zmq_msg_t *m, size_t n)
{
	zmq_msg_init(m);
	(*fz::raw(m)->c)->s.assign(n, '\0');
	return 0;
}
int zmq_msg_init_data(zmq_msg_t *m, void *d, size_t n, zmq_free_fn *f, void *h)
{
	zmq_msg_init(m);
	auto &c = **fz::raw(m)->c;
	c.data = d;
	c.size = n;
	c.ffn = f;
	c.hint = h;
	return 0;
}
int zmq_msg_init_buffer(zmq_msg_t *m, const void *d, size_t n)
{
	zmq_msg_init(m);
	(*fz::raw(m)->c)->s.assign((const char *) d, n);
	return 0;
}
int zmq_msg_close(zmq_msg_t *m)
{
	delete fz::raw(m)->c;
	fz::raw(m)->c = nullptr;
	return 0;
}
void *zmq_msg_data(zmq_msg_t *m)
{
	auto &c = **fz::raw(m)->c;
	return c.data ? c.data : (void *) &c.s[0];
}
size_t zmq_msg_size(const zmq_msg_t *m)
{
	auto &c = **fz::raw((zmq_msg_t *) m)->c;
	return c.data ? c.size : c.s.size();
}
int zmq_msg_more(const zmq_msg_t *m) { return fz::raw((zmq_msg_t *) m)->more; }
int zmq_msg_get(const zmq_msg_t *m, int p) { return p == ZMQ_MORE ? zmq_msg_more(m) : 0; }
int zmq_msg_set(zmq_msg_t *, int, int) { return 0; }
const char *zmq_msg_gets(const zmq_msg_t *, const char *)
{
	errno = EINVAL;
	return nullptr;
}
int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s)
{
	zmq_msg_close(d);
	*fz::raw(d) = *fz::raw(s);
	zmq_msg_init(s);
	return 0;
}
int zmq_msg_copy(zmq_msg_t *d, zmq_msg_t *s)
{
	*fz::raw(d)->c = *fz::raw(s)->c;
	fz::raw(d)->more = fz::raw(s)->more;
	return 0;
}
int zmq_msg_send(zmq_msg_t *m, void *s, int f)
{
	auto t = fz::text(m);
	if (fz::send_part(s, t, f)) return -1;
	zmq_msg_close(m);
	zmq_msg_init(m);
	return (int) t.size();
}
int zmq_sendmsg(void *s, zmq_msg_t *m, int f) { return zmq_msg_send(m, s, f); }
int zmq_msg_recv(zmq_msg_t *m, void *s, int f)
{
	std::string p;
	bool more;
	if (fz::recv_part(s, p, more, f)) return -1;
	zmq_msg_close(m);
	zmq_msg_init(m);
	(*fz::raw(m)->c)->s = p;
	fz::raw(m)->more = more;
	return (int) p.size();
}
int zmq_recvmsg(void *s, zmq_msg_t *m, int f) { return zmq_msg_recv(m, s, f); }
int zmq_poll(zmq_pollitem_t *i, int n, long t) { return fz::poll(i, n, t); }
int zmq_errno(void) { return errno; }
const char *zmq_strerror(int e) { return e == ETERM ? "Context was terminated" : std::strerror(e); }
void zmq_version(int *a, int *b, int *c)
{
	*a = ZMQ_VERSION_MAJOR;
	*b = ZMQ_VERSION_MINOR;
	*c = ZMQ_VERSION_PATCH;
}
int zmq_socket_monitor(void *, const char *, int) { return fz::err(EINVAL); }
int zmq_proxy(void *, void *, void *) { return fz::err(EINVAL); }
int zmq_proxy_steerable(void *, void *, void *, void *) { return fz::err(EINVAL); }
int zmq_has(const char *) { return 0; }
}
#endif
