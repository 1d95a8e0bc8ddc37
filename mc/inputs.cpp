// C18 (header matching) and C24 (configuration): complete grids of inputs over small alphabets, answered by the real code
// and compared with an independent definition.
#include "par.h"
#include "report.h"
#include "broker_connect.h"
#include "config/broker_config.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "worker.h"
#include "worker_registry.h"
#include <algorithm>
#include <set>
#include <unordered_set>

namespace
{
	using HList = std::vector<std::pair<std::string, std::string>>;
	struct Bad {
		std::string what;
	};
	struct Part {
		std::string name;
		std::uint64_t items;
		std::function<std::uint64_t(std::uint64_t, std::string *)> run; // evaluates item i, returns number of evaluations, throws Bad
	};
	bool KEEP = false;
	std::string LAST; // the last case, written out
	std::vector<std::uint64_t> SEEN; // hashes of the evaluated cases
	std::uint64_t H(const std::string &s, std::uint64_t h) { return std::hash<std::string>()(s) + h * 0x9E3779B97F4A7C15ull + (h >> 29); }
	std::uint64_t H(const std::vector<std::pair<std::string, std::string>> &l, std::uint64_t h)
	{
		for (auto &x : l) h = H(x.second, H(x.first, h + 1));
		return h * 31 + l.size();
	}
	std::string show(const std::string &s)
	{
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c < 32 || c > 126) {
				char b[8];
				std::snprintf(b, sizeof b, "\\x%02x", c);
				r += b;
			} else r += c;
		}
		return r + "\"";
	}
	std::string show(const HList &h)
	{
		std::string r = "{";
		for (auto &x : h) r += (r.size() > 1 ? ", " : "") + show(x.first) + "=" + show(x.second);
		return r + "}";
	}
	std::vector<std::string> strings(const std::string &alpha, int lo, int hi)
	{
		std::vector<std::string> r, cur{""};
		for (int l = 0; l <= hi; ++l) {
			if (l >= lo) r.insert(r.end(), cur.begin(), cur.end());
			std::vector<std::string> nx;
			for (auto &s : cur)
				for (char c : alpha) nx.push_back(s + c);
			cur.swap(nx);
		}
		return r;
	}
	// --- the definition of header matching ---
	bool number(const std::string &s, std::string &norm)
	{
		if (s.empty()) return false;
		for (char c : s)
			if (c < '0' || c > '9') return false;
		std::size_t i = 0;
		while (i + 1 < s.size() && s[i] == '0') ++i;
		norm = s.substr(i);
		return true;
	}
	bool leq(const std::string &a, const std::string &b) { return a.size() != b.size() ? a.size() < b.size() : a <= b; }
	bool satisfies_one(const std::string &group, const HList &offer, const std::string &name, const std::string &value)
	{
		if (name == "hwgroup") {
			std::string part;
			for (std::size_t i = 0; i <= value.size(); ++i) {
				if (i == value.size() || value[i] == '|') {
					if (part == group) return true;
					part.clear();
				} else part += value[i];
			}
			return false;
		}
		for (auto &o : offer) {
			if (o.first != name) continue;
			if (name == "threads") {
				std::string a, b;
				if (number(value, a) && number(o.second, b) && leq(a, b)) return true;
			} else if (o.second == value) return true;
		}
		return false;
	}
	bool satisfies(const std::string &group, const HList &offer, const HList &need)
	{
		for (auto &n : need)
			if (!satisfies_one(group, offer, n.first, n.second)) return false;
		return true;
	}
	std::multimap<std::string, std::string> mm(const HList &h) { return {h.begin(), h.end()}; }
	void expect(worker &w, const std::string &group, const HList &offer, const HList &need)
	{
		bool want = satisfies(group, offer, need);
		bool got = w.check_headers(mm(need));
		SEEN.push_back(H(need, H(offer, H(group, 1))));
		if (KEEP) LAST = "group " + show(group) + " offers " + show(offer) + ", required " + show(need) + ": " + (got ? "yes" : "no");
		if (got != want)
			throw Bad{"worker of group " + show(group) + " offering " + show(offer) + (got ? " is said to satisfy " : " is said not to satisfy ") + show(need)};
	}
	std::vector<HList> multisets(const HList &alpha, int hi)
	{
		std::vector<HList> r{{}};
		std::vector<std::pair<HList, std::size_t>> cur{{{}, 0}};
		for (int k = 0; k < hi; ++k) {
			std::vector<std::pair<HList, std::size_t>> nx;
			for (auto &c : cur)
				for (std::size_t i = c.second; i < alpha.size(); ++i) {
					HList h = c.first;
					h.push_back(alpha[i]);
					r.push_back(h);
					nx.push_back({h, i});
				}
			cur.swap(nx);
		}
		return r;
	}
	std::vector<std::string> THREADS = {"0", "1", "2", "7", "8", "9", "10", "12", "99", "100", "08", "0008", "255", "256", "257", "65535", "65536", "65537", "2147483647", "2147483648",
		"2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615"};
	std::vector<std::string> NEED_BIG = {"18446744073709551616", "18446744073709551617", "99999999999999999999", "340282366920938463463374607431768211456"};
	std::vector<std::string> NOT_NUM = {"", "x", "many", "1x", "x1", "8 cores", "1.5", "1,5", "eight", "8|9", "1e3"};

	std::vector<Part> parts_c18(bool th)
	{
		std::vector<Part> ps;
		{
			auto groups = std::make_shared<std::vector<std::string>>(strings("gh", 1, th ? 4 : 3));
			for (auto x : {"group_1", "a b", "G", "g1", "g=h", "\xc3\xa9"}) groups->push_back(x);
			auto vals = std::make_shared<std::vector<std::string>>(strings("gh|", 0, th ? 11 : 9));
			for (auto x : {"group_1|group_2", "group_2|group_1", "group_", "group_1|", "|group_1", "group_11", "a b", "a b|g", "a|b", "G|g", "g1|g", "g=h|g", "\xc3\xa9|x", "g,h", "g;h"}) vals->push_back(x);
			ps.push_back({"hwgroup", groups->size(), [=](std::uint64_t i, std::string *) -> std::uint64_t {
				worker w("id", (*groups)[i], {});
				for (auto &v : *vals) expect(w, (*groups)[i], {}, {{"hwgroup", v}});
				return vals->size();
			}});
			for (std::string alpha : {"g |", "gG|", "g,|", "g=|", "g*|", "g.|", "g\t|"}) {
				auto gs = std::make_shared<std::vector<std::string>>(strings(alpha.substr(0, 2), 1, 3));
				auto vs = std::make_shared<std::vector<std::string>>(strings(alpha, 0, th ? 8 : 6));
				ps.push_back({"hwgroup-" + std::to_string((int) alpha[1]), gs->size(), [=](std::uint64_t i, std::string *) -> std::uint64_t {
					worker w("id", (*gs)[i], {});
					for (auto &v : *vs) expect(w, (*gs)[i], {}, {{"hwgroup", v}});
					return vs->size();
				}});
			}
		}
		{
			auto off = std::make_shared<std::vector<std::string>>(THREADS);
			for (int i = 0; i <= (th ? 400 : 130); ++i) off->push_back(std::to_string(i));
			for (auto &x : NOT_NUM) off->push_back(x);
			for (auto &x : strings("019x", 1, 3)) off->push_back(x);
			auto need = std::make_shared<std::vector<std::string>>(*off);
			for (auto &x : NEED_BIG) need->push_back(x);
			ps.push_back({"threads", off->size(), [=](std::uint64_t i, std::string *) -> std::uint64_t {
				HList o{{"threads", (*off)[i]}};
				worker w("id", "g", mm(o));
				for (auto &v : *need) expect(w, "g", o, {{"threads", v}});
				return need->size();
			}});
			// several offers, several requirements
			std::vector<std::string> few = {"0", "1", "2", "8", "10", "x", "", "4294967297"};
			HList alpha;
			for (auto &f : few) alpha.push_back({"threads", f});
			alpha.push_back({"env", "2"});
			auto ms = std::make_shared<std::vector<HList>>(multisets(alpha, 3));
			ps.push_back({"threads-several", ms->size(), [=](std::uint64_t i, std::string *) -> std::uint64_t {
				worker w("id", "g", mm((*ms)[i]));
				std::uint64_t n = 0;
				for (auto &need : *ms) {
					if (need.size() > 2) continue;
					expect(w, "g", (*ms)[i], need);
					++n;
				}
				return n;
			}});
		}
		{
			HList alpha;
			for (auto n : {"env", "en", "envv", "Env", "threads2", "e"})
				for (auto v : {"a", "b", "ab", "a|b", "A", ""}) alpha.push_back({n, v});
			alpha.push_back({"env", std::string("a\0b", 3)});
			alpha.push_back({"env", " a"});
			alpha.push_back({"env", "a=b"});
			auto offers = std::make_shared<std::vector<HList>>(multisets(alpha, 2));
			HList na = alpha;
			na.push_back({"hwgroup", "g"});
			na.push_back({"hwgroup", "h|g"});
			na.push_back({"hwgroup", "h"});
			na.push_back({"threads", "1"});
			auto needs = std::make_shared<std::vector<HList>>(multisets(na, 2));
			ps.push_back({"other-headers", offers->size(), [=](std::uint64_t i, std::string *) -> std::uint64_t {
				worker w("id", "g", mm((*offers)[i]));
				for (auto &need : *needs) expect(w, "g", (*offers)[i], need);
				return needs->size();
			}});
			HList beta;
			for (auto n : {"env", "x"})
				for (auto v : {"a", "b"}) beta.push_back({n, v});
			beta.push_back({"threads", "2"});
			beta.push_back({"threads", "4"});
			HList nb = beta;
			nb.push_back({"threads", "3"});
			nb.push_back({"threads", "5"});
			nb.push_back({"threads", "?"});
			nb.push_back({"hwgroup", "g|h"});
			nb.push_back({"hwgroup", "k|l"});
			auto o3 = std::make_shared<std::vector<HList>>(multisets(beta, th ? 6 : 5));
			auto n3 = std::make_shared<std::vector<HList>>(multisets(nb, th ? 4 : 3));
			ps.push_back({"header-sets", o3->size(), [=](std::uint64_t i, std::string *) -> std::uint64_t {
				std::uint64_t n = 0;
				for (auto g : {"g", "k"}) {
					worker w("id", g, mm((*o3)[i]));
					for (auto &need : *n3) expect(w, g, (*o3)[i], need);
					n += n3->size();
				}
				return n;
			}});
			// the answer does not depend on earlier questions, nor on the identity or description
			auto q = std::make_shared<std::vector<HList>>(std::vector<HList>{{}, {{"env", "a"}}, {{"env", "b"}}, {{"x", "a"}}, {{"env", "a"}, {"x", "a"}}, {{"threads", "2"}}, {{"threads", "5"}}, {{"threads", "z"}},
				{{"hwgroup", "g"}}, {{"hwgroup", "h|g"}}, {{"hwgroup", "h"}}, {{"env", "a"}, {"env", "b"}}});
			ps.push_back({"history", q->size() * q->size(), [=](std::uint64_t i, std::string *) -> std::uint64_t {
				HList o{{"env", "a"}, {"x", "a"}, {"threads", "4"}};
				std::uint64_t n = 0;
				for (auto &c : *q) {
					worker w(i % 2 ? "" : std::string("\0\xff", 2), "g", mm(o));
					if (i % 3) w.description = "env=b";
					w.liveness = i;
					for (auto x : {(*q)[i / q->size()], (*q)[i % q->size()], c, (*q)[i / q->size()]}) {
						expect(w, "g", o, x);
						++n;
					}
				}
				return n;
			}});
		}
		{
			// through the protocol: what a worker announces in 'init' and a client requires in 'eval'
			std::vector<std::string> toks = {"env=a", "env=b", "env=", "env=a=b", "env==a", "en=a", "threads=4", "threads=2", "threads=x", "threads=", "x=env", "env=a|b", "env= a", "ENV=a", "meta=1", "env=meta.x", "x.meta.y=1", std::string("env=a\0b", 7)};
			std::vector<std::string> jt = toks;
			for (auto x : {"hwgroup=g", "hwgroup=h|g", "hwgroup=h", "hwgroup=gg", "threads=3", "threads=5", "threads=18446744073709551617", "meta.env=b", "meta.x=1", "meta.threads=99", "meta.hwgroup=h"}) jt.push_back(x);
			auto split = [](const std::string &t) { auto p = t.find('='); return std::make_pair(t.substr(0, p), t.substr(p + 1)); };
			HList wa, ja;
			for (auto &t : toks) wa.push_back(split(t));
			for (auto &t : jt) ja.push_back(split(t));
			auto wl = std::make_shared<std::vector<HList>>(multisets(wa, 2));
			auto jl = std::make_shared<std::vector<HList>>(multisets(ja, th ? 3 : 2));
			for (auto &h : *wl) // both orders of the frames
				if (h.size() == 2 && h[0] != h[1] && &h != &wl->back()) (void) h;
			ps.push_back({"protocol", wl->size() * 2, [=](std::uint64_t i, std::string *) -> std::uint64_t {
				const HList &offer = (*wl)[i / 2];
				bool rev = i % 2;
				auto frames = [&](const HList &h) {
					std::vector<std::string> r;
					for (auto &x : h) r.push_back(x.first + "=" + x.second);
					if (rev) std::reverse(r.begin(), r.end());
					return r;
				};
				auto registry = std::make_shared<worker_registry>();
				std::shared_ptr<queue_manager_interface> q;
				if (rev) q.reset(new multi_queue_manager());
				else q.reset(new single_queue_manager<>());
				auto cfg = std::make_shared<broker_config>();
				broker_handler b(cfg, registry, q, nullptr);
				std::vector<std::string> init{"init", "g"};
				for (auto &f : frames(offer)) init.push_back(f);
				if (i % 3) {
					init.push_back("");
					init.push_back("description=env=b");
				}
				auto none = [](const message_container &) {};
				b.on_request(message_container(broker_connect::KEY_WORKERS, "w", init), none);
				std::uint64_t n = 0;
				for (auto &need : *jl) {
					std::vector<std::string> ev{"eval", "job"};
					for (auto &f : frames(need)) ev.push_back(f);
					ev.push_back("");
					ev.push_back("payload");
					int acc = 0, rej = 0;
					b.on_request(message_container(broker_connect::KEY_CLIENTS, "c", ev), [&](const message_container &m) {
						if (m.key == broker_connect::KEY_CLIENTS && !m.data.empty()) {
							acc += m.data[0] == "accept";
							rej += m.data[0] == "reject";
						}
					});
					SEEN.push_back(H(need, H(offer, 7 + i % 6)));
					if (KEEP) LAST = "init announces " + show(offer) + ", eval requires " + show(need) + ": " + (acc ? "accept" : "reject");
					HList req;
					for (auto &x : need)
						if (x.first.compare(0, 5, "meta.") != 0) req.push_back(x);
					bool want = satisfies("g", offer, req);
					if (acc + rej != 1 || (acc == 1) != want)
						throw Bad{"job requiring " + show(need) + (acc ? " was accepted" : rej ? " was rejected" : " was not answered") + " with one worker of group \"g\" announcing " + show(offer)};
					if (acc) b.on_request(message_container(broker_connect::KEY_WORKERS, "w", {"done", "job", "OK"}), none);
					++n;
				}
				return n;
			}});
		}
		return ps;
	}
	// --- configuration ---
	struct Item {
		const char *section, *key;
		int kind; // 0 string, 1 port, 2 size, 3 log file
	};
	const Item ITEMS[] = {{"", "queue_manager", 0}, {"clients", "address", 0}, {"clients", "port", 1}, {"workers", "address", 0}, {"workers", "port", 1}, {"workers", "max_liveness", 2},
		{"workers", "max_request_failures", 2}, {"workers", "ping_interval", 2}, {"monitor", "address", 0}, {"monitor", "port", 1}, {"notifier", "address", 0}, {"notifier", "port", 1},
		{"notifier", "username", 0}, {"notifier", "password", 0}, {"logger", "file", 3}, {"logger", "level", 0}, {"logger", "max-size", 2}, {"logger", "rotations", 2}};
	constexpr int NITEMS = sizeof ITEMS / sizeof ITEMS[0];
	using Vals = std::vector<std::string>;
	Vals defaults() { return {"single", "*", "0", "*", "0", "4", "3", "1000", "127.0.0.1", "7894", "", "0", "", "", "/var/log/recodex/ + broker", "debug", "1048576", "3"}; }
	Vals actual(const broker_config &c)
	{
		auto s = [](auto x) { return std::to_string(x); };
		auto &n = c.get_notifier_config();
		auto &l = c.get_log_config();
		Vals v = {c.get_queue_manager(), c.get_client_address(), s(c.get_client_port()), c.get_worker_address(), s(c.get_worker_port()), s(c.get_max_worker_liveness()), s(c.get_max_request_failures()),
			s(c.get_worker_ping_interval().count()), c.get_monitor_address(), s(c.get_monitor_port()), n.address, s(n.port), n.username, n.password, l.log_path + " + " + l.log_basename, l.log_level,
			s(l.log_file_size), s(l.log_files_count)};
		if (l.log_suffix != "log") v[14] += " with suffix " + l.log_suffix;
		return v;
	}
	struct Variant {
		std::string text; // YAML, in flow style; "" absent
		int effect; // 0 default, 1 value, 2 configuration error
		std::string value;
	};
	std::string quote(const std::string &s)
	{
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') r += '\\', r += c;
			else if (c == '\n') r += "\\n";
			else if (c == '\t') r += "\\t";
			else r += c;
		}
		return r + "\"";
	}
	std::vector<Variant> variants(int item, int size) // size: 0 few, 1 some, 2 all
	{
		int kind = ITEMS[item].kind;
		std::vector<Variant> v{{"", 0, ""}};
		auto val = [&](const std::string &t, const std::string &x) { v.push_back({t, 1, x}); };
		if (kind == 0) {
			std::string u = "v" + std::to_string(item);
			val(quote(u), u);
			if (size >= 1) {
				val("plain" + std::to_string(item), "plain" + std::to_string(item));
				val(quote(""), "");
			}
			if (size >= 2)
				for (auto x : {"*", "127.0.0.1", "0", "1234", "true", "null-ish", "with space", " lead", "trail ", "a:b", "https://your.recodex.domain/api/v1/broker-reports", "p\"q\\r", "\xc3\xa9\xe2\x82\xac", "tab\tnl\n", "#x", "-1", "multi", "single", "default", "debug", "info"})
					val(quote(x), x);
			if (size >= 2) {
				val("1234", "1234");
				val("3.14", "3.14");
				val("true", "true");
				val("'it''s'", "it's");
			}
		} else if (kind == 3) {
			val(quote("/d" + std::to_string(item) + "/sub/name"), "/d" + std::to_string(item) + "/sub + name");
			if (size >= 1) val("rel", " + rel");
			if (size >= 2) {
				val(quote("dir/file"), "dir + file");
				val(quote("/file"), "/ + file");
				val(quote("a/b.c/d.log"), "a/b.c + d.log");
				val(quote("/var/log/recodex/broker"), "/var/log/recodex + broker");
				val(quote("./x y"), ". + x y");
			}
		} else {
			int base = 20000 + 101 * item;
			val(std::to_string(base), std::to_string(base));
			if (size >= 1) {
				val(quote(std::to_string(base + 7)), std::to_string(base + 7));
				val("0", "0");
				v.push_back({"abc", 2, ""});
			}
			if (size >= 2) {
				for (auto x : {"1", "2", "7", "9", "255", "256", "1000", "32767", "32768", "65534", "65535"}) val(x, x);
				for (auto x : {"\"\"", "12abc", "1.5", "\"1 2\"", "true", "x9", "'9657a'", "99999999999999999999999"}) v.push_back({x, 2, ""});
				if (kind == 1)
					for (auto x : {"65536", "65537", "70000", "131072", "4294967296", "4294976953"}) v.push_back({x, 2, ""});
				else
					for (auto x : {"65536", "70000", "2147483648", "4294967296", "4294967297", "1099511627776"}) val(x, x);
			}
		}
		if (size >= 1) {
			v.push_back({"[1, 2]", 0, ""});
			v.push_back({"{a: 1}", 0, ""});
		}
		if (size >= 2) {
			v.push_back({"~", 0, ""});
			v.push_back({"null", 0, ""});
			v.push_back({"[]", 0, ""});
			v.push_back({"{}", 0, ""});
			v.push_back({"{" + std::string(ITEMS[item].key) + ": 5}", 0, ""});
			v.push_back({"[[9]]", 0, ""});
		}
		return v;
	}
	std::string document(const std::vector<const Variant *> &sel, bool rev, bool flow, const std::string &noise)
	{
		std::vector<std::string> secs = {"clients", "workers", "monitor", "notifier", "logger"};
		if (rev) std::reverse(secs.begin(), secs.end());
		std::vector<std::string> top;
		if (!rev && !sel[0]->text.empty()) top.push_back("queue_manager: " + sel[0]->text);
		for (auto &sec : secs) {
			std::vector<std::string> es;
			for (int i = 1; i < NITEMS; ++i)
				if (sec == ITEMS[i].section && !sel[i]->text.empty()) es.push_back(std::string(ITEMS[i].key) + ": " + sel[i]->text);
			if (es.empty()) continue;
			if (rev) std::reverse(es.begin(), es.end());
			std::string t = sec + ":";
			if (flow) {
				t += " {";
				for (std::size_t i = 0; i < es.size(); ++i) t += (i ? ", " : "") + es[i];
				t += "}";
			} else
				for (auto &e : es) t += "\n    " + e;
			top.push_back(t);
		}
		if (rev && !sel[0]->text.empty()) top.push_back("queue_manager: " + sel[0]->text);
		std::string d = noise;
		for (auto &t : top) d += t + "\n";
		return d.empty() ? "{}\n" : d;
	}
	void expect_config(const std::string &doc, bool error, const Vals &want)
	{
		YAML::Node node;
		try {
			node = YAML::Load(doc);
		} catch (const YAML::Exception &e) {
			std::fprintf(stderr, "internal: bad document %s: %s\n", doc.c_str(), e.what());
			_exit(4);
		}
		std::string d = " for the document\n" + doc;
		SEEN.push_back(H(doc, 3));
		if (KEEP) LAST = doc + (error ? "-> configuration error" : "-> values as written, defaults elsewhere");
		try {
			broker_config c(node);
			if (error) throw Bad{"no configuration error" + d};
			Vals got = actual(c);
			for (int i = 0; i < NITEMS; ++i)
				if (got[i] != want[i]) throw Bad{std::string(ITEMS[i].section) + (*ITEMS[i].section ? "." : "") + ITEMS[i].key + " is " + show(got[i]) + " instead of " + show(want[i]) + d};
		} catch (const config_error &e) {
			if (!error) throw Bad{std::string("configuration error '") + e.what() + "'" + d};
		} catch (const std::exception &e) {
			throw Bad{std::string("exception of another type: ") + e.what() + d};
		}
	}
	void expect_sel(const std::vector<const Variant *> &sel, bool rev, bool flow, const std::string &noise = "")
	{
		Vals w = defaults();
		bool err = false;
		for (int i = 0; i < NITEMS; ++i) {
			if (sel[i]->effect == 1) w[i] = sel[i]->value;
			if (sel[i]->effect == 2) err = true;
		}
		expect_config(document(sel, rev, flow, noise), err, w);
	}
	std::vector<Part> parts_c24(bool th)
	{
		std::vector<Part> ps;
		auto all = std::make_shared<std::vector<std::vector<Variant>>>();
		auto some = std::make_shared<std::vector<std::vector<Variant>>>();
		auto few = std::make_shared<std::vector<std::vector<Variant>>>();
		for (int i = 0; i < NITEMS; ++i) {
			all->push_back(variants(i, 2));
			some->push_back(variants(i, 1));
			few->push_back(variants(i, 0));
		}
		auto none = std::make_shared<Variant>(Variant{"", 0, ""});
		ps.push_back({"single-item", (std::uint64_t) NITEMS, [=](std::uint64_t i, std::string *) -> std::uint64_t {
			std::uint64_t n = 0;
			if (i == 0) {
				Vals d = defaults(), a = actual(broker_config());
				for (int k = 0; k < NITEMS; ++k)
					if (a[k] != d[k]) throw Bad{std::string("default of ") + ITEMS[k].section + "." + ITEMS[k].key + " is " + show(a[k]) + " instead of " + show(d[k])};
				++n;
			}
			for (auto &v : (*all)[i])
				for (int others = 0; others < 2; ++others)
					for (int form = 0; form < 4; ++form) {
						std::vector<const Variant *> sel(NITEMS, none.get());
						if (others)
							for (int k = 0; k < NITEMS; ++k) sel[k] = &(*few)[k][1];
						sel[i] = &v;
						expect_sel(sel, form & 1, form & 2);
						++n;
					}
			return n;
		}});
		ps.push_back({"pairs", (std::uint64_t) NITEMS * NITEMS, [=](std::uint64_t x, std::string *) -> std::uint64_t {
			int i = x / NITEMS, j = x % NITEMS;
			if (i >= j) return 0;
			std::uint64_t n = 0;
			auto &src = th ? all : some;
			for (auto &a : (*src)[i])
				for (auto &b : (*src)[j])
					for (int form = 0; form < 2; ++form) {
						std::vector<const Variant *> sel(NITEMS, none.get());
						sel[i] = &a;
						sel[j] = &b;
						expect_sel(sel, form, !form);
						++n;
					}
			return n;
		}});
		if (th) ps.push_back({"triples", (std::uint64_t) NITEMS * NITEMS * NITEMS, [=](std::uint64_t x, std::string *) -> std::uint64_t {
			int i = x / NITEMS / NITEMS, j = x / NITEMS % NITEMS, k = x % NITEMS;
			if (i >= j || j >= k) return 0;
			for (auto &a : (*some)[i])
				for (auto &b : (*some)[j])
					for (auto &c : (*some)[k]) {
						std::vector<const Variant *> sel(NITEMS, none.get());
						sel[i] = &a;
						sel[j] = &b;
						sel[k] = &c;
						expect_sel(sel, x & 1, x & 2);
					}
			return 0;
		}});
		ps.push_back({"subsets", 1u << (NITEMS - 8), [=](std::uint64_t x, std::string *) -> std::uint64_t {
			for (unsigned y = 0; y < 256; ++y) {
				unsigned m = (unsigned) x << 8 | y;
				std::vector<const Variant *> sel(NITEMS, none.get());
				for (int k = 0; k < NITEMS; ++k)
					if (m >> k & 1) sel[k] = &(*few)[k][1];
				expect_sel(sel, m & 1, m & 2);
			}
			return 256;
		}});
		static const char *secs[] = {"clients", "workers", "monitor", "notifier", "logger"};
		static const char *odd[] = {"", "5", "text", "[]", "[address, port]", "~", "{}", "{other: 1}", "[{port: 1}]", "\"\""};
		ps.push_back({"sections", 100000, [=](std::uint64_t x, std::string *) -> std::uint64_t {
			// every section absent, regular, or of an unexpected type
			std::string d;
			Vals w = defaults();
			unsigned y = x;
			for (int s = 0; s < 5; ++s, y /= 10) {
				if (!*odd[y % 10]) {
					d += std::string(secs[s]) + ":\n";
					bool anyi = false;
					for (int k = 1; k < NITEMS; ++k)
						if (std::string(ITEMS[k].section) == secs[s]) {
							d += std::string("  ") + ITEMS[k].key + ": " + (*few)[k][1].text + "\n";
							w[k] = (*few)[k][1].value;
							anyi = true;
						}
				} else d += std::string(secs[s]) + ": " + odd[y % 10] + "\n";
			}
			expect_config(d, false, w);
			return 1;
		}});
		ps.push_back({"documents", 1, [=](std::uint64_t, std::string *) -> std::uint64_t {
			std::uint64_t n = 0;
			for (auto d : {"", "~", "null", "5", "text", "\"\"", "[]", "[1, 2]", "- a\n- b\n", "# only a comment\n", "[{clients: {port: 5}}]", "- clients:\n    port: 5\n", "---\n...\n"}) {
				expect_config(d, true, {});
				++n;
			}
			for (auto d : {"{}", "unknown: 5", "Clients: {port: 5}", "client: {port: 5}", "clients.port: 5", "port: 5\naddress: x\n", "queue-manager: multi", "broker: {clients: {port: 5}}", "1: 2", "? [a]\n: b\n"}) {
				expect_config(d, false, defaults());
				++n;
			}
			return n;
		}});
		return ps;
	}
	struct Rec {
		std::uint64_t kind, item, n;
	};
	std::string eval_item(const Part &p, std::uint64_t i, std::uint64_t &n)
	{
		try {
			n = p.run(i, nullptr);
			return "";
		} catch (const Bad &b) {
			return b.what;
		} catch (const std::exception &e) {
			return std::string("exception ") + e.what();
		}
	}
} // namespace

int main(int argc, char **argv)
{
	std::string tier = "quick", out, replay, prop = "C18";
	double limit = 600;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--prop") prop = argv[++i];
		else if (a == "--tier") tier = argv[++i];
		else if (a == "--out") out = argv[++i];
		else if (a == "--replay") replay = argv[++i];
		else if (a == "--limit") limit = std::atof(argv[++i]);
	}
	std::string rpart;
	std::uint64_t ritem = 0;
	if (!replay.empty()) {
		FILE *f = std::fopen(replay.c_str(), "r");
		if (!f) return 2;
		char line[4096], nm[200], tr[50];
		while (std::fgets(line, sizeof line, f)) {
			if (std::sscanf(line, "property %199s", nm) == 1) prop = nm;
			unsigned long long x;
			if (std::sscanf(line, "part %199s item %llu tier %49s", nm, &x, tr) == 3) rpart = nm, ritem = x, tier = tr;
		}
	}
	auto ps = prop == "C18" ? parts_c18(tier == "thorough") : parts_c24(tier == "thorough");
	if (!replay.empty()) {
		for (auto &p : ps)
			if (p.name == rpart) {
				std::uint64_t n;
				auto t = eval_item(p, ritem, n);
				std::printf("%s\n", t.empty() ? "no violation" : ("VIOLATED: " + t).c_str());
				return t.empty() ? 0 : 1;
			}
		return 2;
	}
	report::Result res;
	std::unordered_set<std::uint64_t> distinct;
	double start = par::now();
	for (auto &p : ps) {
		if (!res.violations.empty()) break;
		double t0 = par::now();
		std::vector<par::Dead> dead;
		auto recs = par::run(p.items, 1, [&](std::uint64_t i, std::string &o) {
			std::uint64_t n = 0;
			auto t = par::call([&] {
				auto v = eval_item(p, i, n);
				std::uint64_t k = SEEN.size();
				std::string q((char *) &k, 8);
				q.append((char *) SEEN.data(), k * 8);
				return q + v;
			});
			std::uint64_t k;
			std::memcpy(&k, t.data(), 8);
			SEEN.resize(k);
			std::memcpy(SEEN.data(), t.data() + 8, k * 8);
			t = t.substr(8 + k * 8);
			Rec r{t.empty() ? 0u : 1u, i, SEEN.size()};
			o.append((char *) &r, sizeof r);
			o.append((char *) SEEN.data(), SEEN.size() * 8);
			SEEN.clear();
			if (r.kind) par::request_stop();
		}, dead, start + limit, 100);
		std::uint64_t n = 0, done = 0;
		std::int64_t bad = -1;
		for (auto &d : dead) bad = d.index;
		for (auto &b : recs)
			for (std::size_t o = 0; o + sizeof(Rec) <= b.size(); o += sizeof(Rec)) {
				Rec r;
				std::memcpy(&r, b.data() + o, sizeof r);
				if (r.kind == 1) bad = r.item;
				n += r.n;
				++done;
				for (std::uint64_t k = 0; k < r.n && o + sizeof r + 8 * k + 8 <= b.size(); ++k) {
					std::uint64_t h;
					std::memcpy(&h, b.data() + o + sizeof r + 8 * k, 8);
					distinct.insert(h);
				}
				o += 8 * r.n;
			}
		if (bad >= 0) {
			std::string text;
			int rc = par::isolated([&](FILE *f) { std::uint64_t k; fputs(eval_item(p, bad, k).c_str(), f); }, text, 100);
			if (rc == 1004) return 3;
			if (rc) text = "the process ends with " + std::to_string(rc);
			if (text.empty() && par::isolate) text = "a violation that is not reproducible";
			if (text.empty()) return 3;
			res.violations.push_back({text, "harness inputs\nproperty " + prop + "\npart " + p.name + " item " + std::to_string(bad) + " tier " + tier + "\n# " + text + "\n"});
			break;
		}
		if (done < p.items) res.exhaustive = false;
		res.counts["evaluations"] += n;
		char b[300];
		std::snprintf(b, sizeof b, "{\"scenario\": \"%s\", \"items\": %llu, \"evaluations\": %llu, \"complete\": %s, \"wall_s\": %.2f}", p.name.c_str(), (unsigned long long) p.items, (unsigned long long) n,
			done == p.items ? "true" : "false", par::now() - t0);
		res.parts.push_back(b);
		KEEP = true;
		std::uint64_t k;
		if (p.name == "pairs") eval_item(p, 5, k);
		else eval_item(p, p.items * 2 / 3, k);
		KEEP = false;
		SEEN.clear();
		res.samples.push_back(p.name + ": " + LAST);
		std::fprintf(stderr, "%s\n", b);
	}
	res.counts["distinct"] = distinct.size();
	if (!out.empty()) res.write(out);
	for (auto &v : res.violations) std::printf("VIOLATED: %s\n%s\n", v.first.c_str(), v.second.c_str());
	return res.violations.empty() ? 0 : 1;
}
