// C23: the real frontend reporting code over a recording stand-in for libcurl; every sequence of transfer outcomes and a grid
// of report contents.
#define VERIF_VCLOCK
#define VERIF_FAKECURL
#include "vclock.h"
#include "fakecurl.h"
#include "par.h"
#include "report.h"
#include "handlers/status_notifier_handler.h"
#include "helpers/logger.h"
#include "notifier/reactor_status_notifier.h"
#include <unordered_set>

static std::int64_t slept_us = 0;
static void virtual_sleep(std::int64_t us)
{
	slept_us += us;
	vclock::advance(us);
}
extern "C" {
int nanosleep(const struct timespec *t, struct timespec *)
{
	virtual_sleep(t->tv_sec * 1000000ll + t->tv_nsec / 1000);
	return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *)
{
	std::int64_t us = t->tv_sec * 1000000ll + t->tv_nsec / 1000;
	if (flags & TIMER_ABSTIME) us -= id == CLOCK_REALTIME ? vclock::wall_us : vclock::mono_us;
	if (us > 0) virtual_sleep(us);
	return 0;
}
int usleep(useconds_t us)
{
	virtual_sleep(us);
	return 0;
}
unsigned sleep(unsigned s)
{
	virtual_sleep(s * 1000000ll);
	return 0;
}
}

namespace
{
	using Fields = std::vector<std::pair<std::string, std::string>>;
	struct Bad {
		std::string what;
	};
	std::string show(const std::string &s)
	{
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c < 32 || c > 126) {
				char b[8];
				std::snprintf(b, sizeof b, "\\x%02x", c);
				r += b;
			} else r += c;
		}
		return r + "\"";
	}
	// outcomes of attempts
	const char *OUT_NAMES[] = {"success", "no handle", "cannot connect", "HTTP 500", "HTTP 404", "timeout", "send error", "partial reply"};
	fakecurl::Outcome outcome(int k)
	{
		fakecurl::Outcome o;
		switch (k) {
		case 0: break;
		case 1: o.init_fails = true; break;
		case 2: o.code = CURLE_COULDNT_CONNECT; break;
		case 3: o.http = 500; break;
		case 4: o.http = 404; break;
		case 5: o.code = CURLE_OPERATION_TIMEDOUT; break;
		case 6: o.code = CURLE_SEND_ERROR; break;
		case 7: o.code = CURLE_PARTIAL_FILE; break;
		default:
			if (k >= 1000) o.http = k - 1000;
			else o.code = (CURLcode) (k - 100);
			break;
		}
		return o;
	}
	struct Config {
		std::string address;
		int port;
		std::string user, pass;
	};
	struct Report {
		std::string type, id;
		Fields fields;
		std::vector<int> outcomes; // later attempts succeed
		int order; // order of the frames
	};
	std::string show(const Report &r)
	{
		std::string s = "report type " + show(r.type) + " id " + show(r.id);
		for (auto &f : r.fields) s += " " + show(f.first) + "=" + show(f.second);
		s += ", attempts:";
		for (int o : r.outcomes) s += " " + (o < 8 ? std::string(OUT_NAMES[o]) : o >= 1000 ? "HTTP " + std::to_string(o - 1000) : "curl error " + std::to_string(o - 100));
		return s + " then success";
	}
	std::string run_case(const Config &c, const std::vector<Report> &reports)
	{
		std::string ctx;
		try {
			vclock::reset();
			notifier_config nc;
			nc.address = c.address;
			nc.port = c.port;
			nc.username = c.user;
			nc.password = c.pass;
			status_notifier_handler h(nc, helpers::create_null_logger());
			std::map<std::vector<int>, std::vector<std::int64_t>> pauses; // the same outcomes lead to the same pauses
			for (auto &r : reports) {
				ctx = show(r) + " (frontend " + c.address + " port " + std::to_string(c.port) + " user " + show(c.user) + " password " + show(c.pass) + ")";
				std::vector<fakecurl::Transfer> ts;
				std::vector<std::int64_t> at;
				std::size_t next = 0;
				fakecurl::choose = [&]() { return next < r.outcomes.size() ? outcome(r.outcomes[next++]) : (++next, fakecurl::Outcome()); };
				fakecurl::done = [&](const fakecurl::Transfer &t) {
					ts.push_back(t);
					at.push_back(vclock::mono_us);
				};
				std::vector<std::string> data;
				std::vector<std::pair<std::string, std::string>> all = {{"type", r.type}};
				if (!r.id.empty()) all.push_back({"id", r.id});
				for (auto &f : r.fields) all.push_back(f);
				if (r.order == 1) std::reverse(all.begin(), all.end());
				if (r.order == 2) std::rotate(all.begin(), all.begin() + 1, all.end());
				for (auto &f : all) data.push_back(f.first), data.push_back(f.second);
				if (r.order == 3) { // as made by the broker
					message_container made;
					reactor_status_notifier n([&](const message_container &m) { made = m; }, "k");
					std::string status, msg;
					for (auto &f : r.fields) (f.first == "status" ? status : msg) = f.second;
					if (r.type == "error") n.error(msg);
					else if (status == "OK") n.job_done(r.id);
					else n.job_failed(r.id, msg);
					data = made.data;
				}
				try {
					h.on_request(message_container("status_notifier", "", data), [](const message_container &) {});
				} catch (const std::exception &e) {
					throw Bad{std::string("a failure escapes the handler: ") + e.what()};
				} catch (...) {
					throw Bad{"a failure escapes the handler"};
				}
				std::size_t want = 0;
				while (want < 4) {
					++want;
					if (want > r.outcomes.size() || r.outcomes[want - 1] == 0) break;
				}
				if (ts.size() != want) throw Bad{std::to_string(ts.size()) + " attempts instead of " + std::to_string(want)};
				std::vector<std::int64_t> ps;
				for (std::size_t i = 1; i < at.size(); ++i) ps.push_back(at[i] - at[i - 1]);
				auto known = pauses.emplace(r.outcomes, ps).first->second;
				if (known != ps) throw Bad{"the pauses between the attempts depend on earlier reports"};
				for (std::size_t i = 0; i < ts.size(); ++i) {
					auto &t = ts[i];
					if (i && at[i] <= at[i - 1]) throw Bad{"no pause before attempt " + std::to_string(i + 1)};
					if (!t.started) continue;
					std::string a = "attempt " + std::to_string(i + 1) + ": ";
					std::string url = c.address + "/" + r.type + (r.id.empty() ? "" : "/");
					bool dec = true;
					std::string id = t.url.size() > url.size() ? t.url.substr(url.size()) : "";
					if (t.url.substr(0, url.size()) != url || id.find_first_of("/?#+ ") != std::string::npos || fakecurl::form_unescape(id, dec) != r.id || !dec) throw Bad{a + "address " + show(t.url) + " instead of " + show(url) + " and the id " + show(r.id)};
					if (t.port != c.port) throw Bad{a + "port " + std::to_string(t.port)};
					if (!t.post) throw Bad{a + "not a POST request"};
					bool cred = !c.user.empty() || !c.pass.empty();
					if (cred && (!t.has_user || t.user != c.user || t.pass != c.pass || !(t.auth & CURLAUTH_BASIC))) throw Bad{a + "credentials " + show(t.user) + ":" + show(t.pass)};
					if (!cred && t.has_user && (!t.user.empty() || !t.pass.empty())) throw Bad{a + "unexpected credentials"};
					std::multimap<std::string, std::string> got, exp(r.fields.begin(), r.fields.end());
					if (!fakecurl::form_decode(t.body, got) || got != exp) throw Bad{a + "body " + show(t.body) + " does not decode to the report's fields"};
				}
				if (fakecurl::live) throw Bad{"a curl handle is leaked"};
			}
			return "";
		} catch (const Bad &b) {
			return b.what + " - " + ctx;
		} catch (const std::exception &e) {
			return std::string("exception ") + e.what() + " - " + ctx;
		}
	}
	struct Case {
		Config c;
		std::vector<Report> r;
	};
	std::vector<Case> cases(bool th)
	{
		std::vector<Case> v;
		Config std_c{"https://front.end/api/v1/broker-reports", 443, "re", "pw"};
		Fields ok{{"status", "OK"}}, failed{{"status", "FAILED"}, {"message", "it's broken & = 100% + more?"}}, err{{"message", "two inits"}};
		int K = 8;
		// all outcome sequences (up to the fifth, which must not happen)
		std::vector<std::vector<int>> seqs{{}}, cur{{}};
		for (int d = 0; d < 4; ++d) {
			std::vector<std::vector<int>> nx;
			for (auto &s : cur)
				for (int k = 1; k < K; ++k) {
					auto t = s;
					t.push_back(k);
					nx.push_back(t);
				}
			seqs.insert(seqs.end(), nx.begin(), nx.end());
			cur.swap(nx);
		}
		for (auto &s : seqs) {
			v.push_back({std_c, {{"job-status", "j1", failed, s, 3}}});
			if (s.size() == 4) {
				auto t = s;
				t.push_back(s[0]); // would fail once more
				v.push_back({std_c, {{"job-status", "j1", ok, t, 3}}});
			}
			// followed by a report that succeeds at once, or after failures
			v.push_back({std_c, {{"job-status", "j1", failed, s, 3}, {"job-status", "j2", ok, {}, 3}}});
			if (s.size() <= 3) v.push_back({std_c, {{"error", "", err, s, 3}, {"job-status", "j2", ok, s, 3}, {"job-status", "j3", failed, {1, 2, 3, 4, 5}, 3}}});
		}
		for (int code = 1; code < 99; ++code) // every error code of libcurl
			for (int at = 0; at < 4; ++at) {
				std::vector<int> s(at, 2);
				s.push_back(100 + code);
				v.push_back({std_c, {{"job-status", "j1", failed, s, 3}, {"job-status", "j2", ok, {}, 3}}});
			}
		for (int http = 400; http < 600; ++http) // every error of the frontend
			for (int at : {0, 1, 3}) {
				std::vector<int> s(at, 2);
				s.push_back(1000 + http);
				v.push_back({std_c, {{"job-status", "j1", failed, s, 3}, {"job-status", "j2", ok, {}, 3}}});
			}
		// reports in a row, each with its own number of failures
		for (int a = 0; a <= 5; ++a)
			for (int b = 0; b <= 5; ++b)
				for (int c = 0; c <= 5; ++c)
					for (int kind : {1, 2, 3}) {
						auto f = [&](int n) { return std::vector<int>(n, kind); };
						v.push_back({std_c, {{"job-status", "a", failed, f(a), 3}, {"job-status", "b", ok, f(b), 3}, {"error", "", err, f(c), 3}}});
					}
		// contents
		std::vector<std::string> special;
		for (int b = 0; b < 256; ++b) special.push_back(std::string(1, (char) b));
		std::string al("a &=%+?#/\"'\n\\;:@,~*\0\x7f\x80\xc3\xa9\xff", 25);
		for (char x : al)
			for (char y : al) {
				special.push_back({x, y});
				if (th)
					for (char z : al) special.push_back({x, y, z});
			}
		for (auto x : {"", "Worker 6162 (my worker) dieded", "Job failed with 'a&b=c' and cannot be reassigned", "%41%zz%", "a%00b", "100%", "a+b c", "key=value&status=OK", "\r\n\r\nX: y", "<xml attr=\"1\"/>", "caf\xc3\xa9", "&amp;"}) special.push_back(x);
		special.push_back(std::string(3000, '%'));
		special.push_back(std::string(100000, 'x') + "&");
		for (auto &m : special) {
			if (m.size() < 4000 && m != "." && m != "..") v.push_back({std_c, {{"job-status", m, ok, {2}, m.empty() ? 0 : 3}}});
			v.push_back({std_c, {{"job-status", "j1", {{"status", "FAILED"}, {"message", m}}, {}, 3}}});
			v.push_back({std_c, {{"error", "", {{"message", m}}, {2}, 3}}});
			v.push_back({std_c, {{"job-status", "j1", {{"message", m}, {"other", m + "z"}, {"status", "FAILED"}}, {}, 1}}});
		}
		// frame orders, ids, configurations
		for (int order = 0; order < 4; ++order)
			for (auto id : {"", "j1", "5e3f-11", "student_1234", "A.b~c"})
				for (auto &f : {ok, failed, err}) {
					if (order == 3 && (f == err) != (std::string(id) == "")) continue;
					v.push_back({std_c, {{order == 3 && f == err ? "error" : "job-status", id, f, {}, order}}});
				}
		for (auto a : {"http://localhost", "https://your.recodex.domain/api/v1/broker-reports", "127.0.0.1", "http://[::1]"})
			for (int p : {1, 80, 443, 8080, 32768, 65535})
				for (auto u : {"", "user", "u ser", "\xc3\xa9"})
					for (auto w : {"", "pass", "p:w", "p@s&=%", "\xc3\xa9\xff"}) {
						v.push_back({{a, p, u, w}, {{"job-status", "j1", failed, {}, 3}}});
						v.push_back({{a, p, u, w}, {{"error", "", err, {3, 1, 2}, 3}}});
					}
		return v;
	}
	struct Rec {
		std::uint64_t bad, n;
	};
	std::string key(const Case &c)
	{
		std::string s = c.c.address + std::to_string(c.c.port) + c.c.user + ":" + c.c.pass;
		for (auto &r : c.r) s += show(r) + std::to_string(r.order);
		return s;
	}
} // namespace

int main(int argc, char **argv)
{
	std::string tier = "quick", out, replay;
	double limit = 600;
	std::uint64_t rcase = 0;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--prop") ++i;
		else if (a == "--tier") tier = argv[++i];
		else if (a == "--out") out = argv[++i];
		else if (a == "--replay") replay = argv[++i];
		else if (a == "--limit") limit = std::atof(argv[++i]);
	}
	if (!replay.empty()) {
		FILE *f = std::fopen(replay.c_str(), "r");
		if (!f) return 2;
		char line[4096], tr[50];
		unsigned long long x;
		while (std::fgets(line, sizeof line, f))
			if (std::sscanf(line, "case %llu tier %49s", &x, tr) == 2) rcase = x, tier = tr;
	}
	vclock::active = true;
	auto cs = cases(tier == "thorough");
	if (!replay.empty()) {
		auto t = run_case(cs[rcase].c, cs[rcase].r);
		std::printf("%s\n", t.empty() ? "no violation" : ("VIOLATED: " + t).c_str());
		return t.empty() ? 0 : 1;
	}
	report::Result res;
	std::vector<par::Dead> dead;
	std::uint64_t n = cs.size();
	auto recs = par::run((n + 63) / 64, 1, [&](std::uint64_t blk, std::string &o) {
		std::uint64_t k = 0;
		for (std::uint64_t i = blk * 64; i < n && i < blk * 64 + 64; ++i, ++k) {
			par::sub(i);
			if (!par::call([&] { return run_case(cs[i].c, cs[i].r); }).empty()) {
				Rec r{i + 1, k};
				o.append((char *) &r, sizeof r);
				par::request_stop();
				return;
			}
		}
		Rec r{0, k};
		o.append((char *) &r, sizeof r);
	}, dead, par::now() + limit, 60);
	std::uint64_t evals = 0;
	std::int64_t bad = -1;
	for (auto &d : dead) bad = d.sub;
	for (auto &b : recs)
		for (std::size_t o = 0; o + sizeof(Rec) <= b.size(); o += sizeof(Rec)) {
			Rec r;
			std::memcpy(&r, b.data() + o, sizeof r);
			if (r.bad) bad = r.bad - 1;
			evals += r.n;
		}
	if (bad >= 0) {
		std::string text;
		int rc = par::isolated([&](FILE *f) { fputs(run_case(cs[bad].c, cs[bad].r).c_str(), f); }, text, 60);
		if (rc) text = (rc == -1 ? "the handler hangs - " : "the handler crashes - ") + show(cs[bad].r[0]);
		if (text.empty() && par::isolate) text = "a violation that is not reproducible - " + show(cs[bad].r[0]);
		if (text.empty()) return 3;
		res.violations.push_back({text.substr(0, 1500), "harness http\nproperty C23\ncase " + std::to_string(bad) + " tier " + tier + "\n# " + text.substr(0, 1500) + "\n"});
	}
	res.exhaustive = evals == n;
	std::unordered_set<std::string> distinct;
	for (auto &c : cs) {
		bool nontrivial = false;
		for (auto &r : c.r) {
			if (!r.outcomes.empty()) nontrivial = true;
			for (auto &f : r.fields)
				for (unsigned char ch : f.second) nontrivial |= !std::isalnum(ch);
		}
		if (nontrivial) distinct.insert(key(c));
	}
	res.counts["evaluations"] = evals;
	res.counts["distinct"] = distinct.size();
	for (std::uint64_t i : {(std::uint64_t) 900, n / 3, n / 2, n - 5})
		for (auto &r : cs[i].r) res.samples.push_back(show(r).substr(0, 300));
	if (!out.empty()) res.write(out);
	for (auto &v : res.violations) std::printf("VIOLATED: %s\n%s\n", v.first.c_str(), v.second.c_str());
	return res.violations.empty() ? 0 : 1;
}
