// C28: main.cpp and broker_core.cpp, started with every combination of command line and configuration of the alphabet.  Each
// start runs in a process of its own, as an unprivileged user, in a scratch directory; ZeroMQ and libcurl are models.
#define VERIF_VCLOCK
#define VERIF_SCHED
#define VERIF_FAKEZMQ
#define VERIF_FAKECURL
#include "explore.h"
#include "fakecurl.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>

#undef main
int broker_main(int argc, char **argv);

// The default log directory is a system path: keep what the program does there inside the scratch directory
namespace
{
	char log_root[256];
	struct Redirect {
		char b[768];
		const char *p;
		Redirect(const char *q) : p(q)
		{
			if (q && *log_root && std::strncmp(q, "/var/log", 8) == 0 && std::snprintf(b, sizeof b, "%s%s", log_root, q + 8) < (int) sizeof b) p = b;
		}
		operator const char *() const { return p; }
	};
	template <class F> F real(F, const char *n) { return (F) dlsym(RTLD_NEXT, n); }
} // namespace
extern "C" {
int mkdir(const char *p, mode_t m) noexcept { return real(&mkdir, "mkdir")(Redirect(p), m); }
int rename(const char *a, const char *b) noexcept { return real(&rename, "rename")(Redirect(a), Redirect(b)); }
int remove(const char *p) noexcept { return real(&remove, "remove")(Redirect(p)); }
FILE *fopen(const char *p, const char *m) { return real(&fopen, "fopen")(Redirect(p), m); }
int stat(const char *p, struct stat *b) noexcept { return real(&stat, "stat")(Redirect(p), b); }
int statx(int d, const char *p, int f, unsigned m, struct statx *b) noexcept { return real(&statx, "statx")(d, Redirect(p), f, m, b); }
}

using std::string;
using Strs = std::vector<string>;

namespace
{
	enum Kind { REFUSE, SINGLE, MULTI, HELP };
	struct File {
		const char *name;
		string text;
		Kind kind; // of a start with this file
		int port;
	};
	string dir;
	string config(int port, const string &rest, bool logger = true)
	{
		return "clients: {address: \"*\", port: " + std::to_string(port) + "}\nworkers: {address: \"*\", port: " + std::to_string(port + 1) +
			", max_liveness: 4, ping_interval: 1000}\nmonitor: {address: \"127.0.0.1\", port: " + std::to_string(port + 2) +
			"}\nnotifier: {address: \"http://frontend\", port: 80, username: u, password: p}\n" +
			(logger ? "logger: {file: \"" + dir + "/log/broker\", level: debug, max-size: 1000, rotations: 2}\n" : "") + rest;
	}
	std::vector<File> files()
	{
		return {
			{"single.yml", config(100, "queue_manager: single\n"), SINGLE, 100},
			{"multi.yml", config(200, "queue_manager: multi\n"), MULTI, 200},
			{"default.yml", config(300, ""), SINGLE, 300},
			{"quoted.yml", config(400, "queue_manager: \"multi\"\n"), MULTI, 400},
			{"unknown.yml", config(500, "queue_manager: fancy\n"), REFUSE, 0},
			{"case.yml", config(500, "queue_manager: Single\n"), REFUSE, 0},
			{"prefix.yml", config(500, "queue_manager: mult\n"), REFUSE, 0},
			{"longer.yml", config(500, "queue_manager: multiple\n"), REFUSE, 0},
			{"empty-name.yml", config(500, "queue_manager: \"\"\n"), REFUSE, 0},
			{"syntax.yml", config(500, "queue_manager: [single\n"), REFUSE, 0},
			{"empty.yml", "", REFUSE, 0},
			{"comment.yml", "# nothing\n---\n", REFUSE, 0},
			{"list.yml", "- a\n- b\n", REFUSE, 0},
			{"scalar.yml", "hello\n", REFUSE, 0},
			{"port.yml", "clients: {address: \"*\", port: abc}\nlogger: {file: \"" + dir + "/log/broker\"}\n", REFUSE, 0},
			{"nolog.yml", config(400, "", false), SINGLE, 400},
			{"secret.yml", config(500, ""), REFUSE, 0}, // not readable
		};
	}
	struct Start {
		Strs args;
		Kind kind;
		int port; // of the configuration that should be in use
		string cwd; // with or without a config.yml
		string text() const
		{
			string s = "recodex-broker";
			for (auto &a : args) s += " " + a;
			return s + " (in " + (cwd == dir + "/with" ? "a directory with config.yml" : cwd == dir + "/broken" ? "a directory with an invalid config.yml" : "a directory without config.yml") + ")";
		}
	};
	struct Seen { // shared with the child
		volatile int opened, exited, returned, port, started, j3_to_first;
		volatile bool curl;
	};
	Seen *seen;
	void at_end()
	{
		seen->opened = (int) fz::opened;
		seen->exited = 1;
	}
	// who: which worker finishes first
	void child(const Start &s, int who)
	{
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		if (setgroups(0, nullptr) == 0 && setgid(65534) == 0 && setuid(65534) == 0) {
		}
		if (chdir(s.cwd.c_str()) != 0) _exit(77);
		int null = open("/dev/null", O_WRONLY);
		dup2(null, 1);
		dup2(null, 2);
		std::atexit(at_end);
		std::vector<char *> argv{(char *) "recodex-broker"};
		for (auto &a : s.args) argv.push_back((char *) a.c_str());
		argv.push_back(nullptr);
		vclock::active = true;
		fz::scheduling = true;
		sched::max_steps = 5000;
		int code = 0;
		sched::execute({}, [&]() {
			auto *main = sched::current;
			sched::spawn("driver", [&, main]() {
				auto settle = [&]() {
					sched::block("wait for the broker", [&]() { return main->done || (main->blocked && std::strcmp(main->where, "zmq_poll") == 0 && !main->ready()); });
				};
				settle();
				seen->opened = (int) fz::opened;
				seen->started = 1;
				for (int p = 100; p <= 500; p += 100)
					if (fz::tcp_endpoints_used == std::set<string>{"bind tcp://*:" + std::to_string(p), "bind tcp://*:" + std::to_string(p + 1), "connect tcp://127.0.0.1:" + std::to_string(p + 2)}) seen->port = p;
				if (!seen->port) _exit(0);
				auto c = fz::peer_connect("tcp://*:" + std::to_string(seen->port), "c");
				string we = "tcp://*:" + std::to_string(seen->port + 1);
				fz::Peer w[2] = {fz::peer_connect(we, "w1"), fz::peer_connect(we, "w2")};
				settle();
				std::vector<fz::Msg> jobs[2];
				auto read = [&]() {
					fz::Msg m;
					for (int k = 0; k < 2; ++k)
						while (w[k].recv(m))
							if (m[0] == "eval") jobs[k].push_back(m);
				};
				for (auto &p : w) {
					p.send({"init", "g", "env=a"});
					settle();
				}
				for (auto *j : {"j1", "j2", "j3"}) {
					c.send({"eval", j, "env=a", "", "u", "r"});
					settle();
				}
				read();
				if (jobs[0].size() != 1 || jobs[1].size() != 1) _exit(0);
				auto mine = jobs[who][0][1];
				w[who].send({"done", mine, "OK"});
				settle();
				read();
				seen->j3_to_first = jobs[who].size() == 2 ? 2 : 1;
				_exit(0);
			});
			seen->returned = 1 + broker_main((int) argv.size() - 1, argv.data());
			seen->opened = (int) fz::opened;
			_exit(seen->returned - 1);
		});
		_exit(78);
	}
	struct Outcome {
		int status = 0;
		Seen s;
	};
	Outcome run(const Start &s, int who)
	{
		Outcome o;
		std::memset((void *) seen, 0, sizeof *seen);
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) child(s, who);
		double end = par::now() + 30;
		int st;
		while (waitpid(pid, &st, WNOHANG) == 0) {
			if (par::now() > end) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				st = -1;
				break;
			}
			usleep(300);
		}
		o.status = st == -1 ? -1 : WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
		std::memcpy((void *) &o.s, (void *) seen, sizeof *seen);
		return o;
	}
	string judge(const Start &s, const Outcome &a, const Outcome &b)
	{
		for (auto *o : {&a, &b}) {
			if (o->status == -1) return "the program hangs";
			if (o->status >= 1000) return "the program crashes with signal " + std::to_string(o->status - 1000);
		}
		if (s.kind == REFUSE || s.kind == HELP) {
			if (a.s.started || a.s.opened) return string("the program opens sockets") + (a.s.started ? " and starts" : "");
			if (!a.s.exited && !a.s.returned) return "the program does not end";
			if (s.kind == REFUSE && a.status == 0) return "the program ends with exit status 0";
			return "";
		}
		if (!a.s.started) return "the program does not start (exit status " + std::to_string(a.status) + ")";
		if (a.s.port != s.port) return "the program does not use the configuration with port " + std::to_string(s.port);
		if (!a.s.j3_to_first || !b.s.j3_to_first) return "the broker does not distribute jobs";
		bool single = a.s.j3_to_first == 2 && b.s.j3_to_first == 2;
		bool multi = (a.s.j3_to_first == 2) != (b.s.j3_to_first == 2);
		if (s.kind == SINGLE && !single) return "a waiting job is not given to the first worker that becomes free, so this is not the single queue manager";
		if (s.kind == MULTI && !multi) return "a waiting job is not bound to one worker, so this is not the multi queue manager";
		return "";
	}
	void write_file(const string &p, const string &t, int mode)
	{
		FILE *f = fopen(p.c_str(), "w");
		fwrite(t.data(), 1, t.size(), f);
		fclose(f);
		chmod(p.c_str(), mode);
	}
	void mkdirs()
	{
		for (auto d : {dir, dir + "/with", dir + "/without", dir + "/broken", dir + "/log", dir + "/varlog"}) {
			mkdir(d.c_str(), 0755);
			if (chown(d.c_str(), 65534, 65534)) {
			}
		}
		for (auto &f : files()) write_file(dir + "/" + f.name, f.text, string(f.name) == "secret.yml" ? 0 : 0644);
		write_file(dir + "/with/config.yml", config(500, "queue_manager: multi\n"), 0644);
		write_file(dir + "/broken/config.yml", "queue_manager: [single\n", 0644);
		write_file(dir + "/with/rel.yml", config(300, ""), 0644);
	}
	void cleanup()
	{
		for (auto &f : files()) unlink((dir + "/" + f.name).c_str());
		unlink((dir + "/with/config.yml").c_str());
		unlink((dir + "/with/rel.yml").c_str());
		unlink((dir + "/broken/config.yml").c_str());
		unlink((dir + "/log/broker").c_str());
		auto rotated = [](const string &base) { // the log and its rotations
			for (int i = 0; i < 12; ++i)
				for (auto n : {base + ".log", base + "." + std::to_string(i) + ".log", base, base + "." + std::to_string(i)}) unlink(n.c_str());
		};
		rotated(dir + "/log/broker");
		rotated(dir + "/varlog/recodex/broker");
		for (auto d : {"/with", "/without", "/broken", "/log", "/varlog/recodex", "/varlog", ""}) rmdir((dir + d).c_str());
	}
	std::vector<Start> starts()
	{
		std::vector<Start> v;
		string with = dir + "/with", without = dir + "/without", broken = dir + "/broken";
		for (auto &args : std::vector<Strs>{{}, {"-c", "config.yml"}}) v.push_back({args, REFUSE, 0, broken});
		for (auto &args : std::vector<Strs>{{"-c", dir + "/multi.yml"}}) v.push_back({args, MULTI, 200, broken});
		bool can_drop = getuid() == 0;
		for (auto &cwd : {with, without}) {
			for (auto &f : files()) {
				if (string(f.name) == "secret.yml" && !can_drop) continue;
				string p = dir + "/" + f.name;
				for (auto &args : std::vector<Strs>{{"-c", p}, {"--config", p}, {"--config=" + p}, {"-c" + p}, {"--conf", p}}) v.push_back({args, f.kind, f.port, cwd});
				for (auto &args : std::vector<Strs>{{"-c", p, "--bogus"}, {"--bogus", "-c", p}, {"-c", p, "-x"}, {"--config", p, "--config"}, {"-c", p, "-c", p}}) v.push_back({args, REFUSE, 0, cwd});
				v.push_back({{"-c", p, "--help"}, HELP, 0, cwd});
				v.push_back({{"-h", "-c", p}, HELP, 0, cwd});
			}
			v.push_back({{}, cwd == with ? MULTI : REFUSE, 500, cwd});
			v.push_back({{"-c", "rel.yml"}, cwd == with ? SINGLE : REFUSE, 300, cwd});
			v.push_back({{"-c", dir + "/missing.yml"}, REFUSE, 0, cwd});
			v.push_back({{"-c", dir}, REFUSE, 0, cwd}); // a directory
			v.push_back({{"-c"}, REFUSE, 0, cwd});
			v.push_back({{"--config="}, REFUSE, 0, cwd});
			v.push_back({{"--nonsense"}, REFUSE, 0, cwd});
			v.push_back({{"-z"}, REFUSE, 0, cwd});
			v.push_back({{"--help"}, HELP, 0, cwd});
			v.push_back({{"-h"}, HELP, 0, cwd});
		}
		return v;
	}
} // namespace

int main(int argc, char **argv)
{
	string out, replay;
	int only = -1;
	for (int i = 1; i < argc; ++i) {
		string a = argv[i];
		if (a == "--out") out = argv[++i];
		else if (a == "--replay") replay = argv[++i];
	}
	if (!replay.empty()) {
		FILE *f = fopen(replay.c_str(), "r");
		if (!f) return 2;
		char line[4096];
		while (fgets(line, sizeof line, f))
			if (!strncmp(line, "start ", 6)) only = atoi(line + 6);
		fclose(f);
	}
	char t[] = "/tmp/verif-startup-XXXXXX";
	if (!mkdtemp(t)) return 3;
	dir = t;
	chmod(t, 0755);
	std::snprintf(log_root, sizeof log_root, "%s/varlog", t);
	mkdirs();
	seen = (Seen *) mmap(nullptr, sizeof(Seen), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	report::Result res;
	auto v = starts();
	double t0 = par::now();
	std::uint64_t n = 0;
	for (int i = 0; i < (int) v.size(); ++i) {
		if (only >= 0 && i != only) continue;
		auto a = run(v[i], 0), b = run(v[i], 1);
		n += 2;
		auto e = judge(v[i], a, b);
		auto text = v[i].text();
		for (auto p = text.find(dir); p != string::npos; p = text.find(dir)) text.replace(p, dir.size(), "DIR");
		if (!e.empty()) {
			e = text + ": " + e;
			res.violations.push_back({e, "harness startup\nproperty C28\nstart " + std::to_string(i) + "\n# " + e + "\n"});
			break;
		}
		if (i % 50 == 7) res.samples.push_back(text);
	}
	cleanup();
	res.counts["evaluations"] = n;
	res.counts["distinct"] = v.size();
	char b[200];
	std::snprintf(b, sizeof b, "{\"scenario\": \"starts\", \"executions\": %llu, \"wall_s\": %.2f}", (unsigned long long) n, par::now() - t0);
	res.parts.push_back(b);
	std::fprintf(stderr, "%s\n", b);
	if (!out.empty()) res.write(out);
	for (auto &x : res.violations) std::printf("VIOLATED: %s\n", x.first.c_str());
	if (only >= 0 && res.violations.empty()) std::printf("no violation\n");
	return res.violations.empty() ? 0 : 1;
}
