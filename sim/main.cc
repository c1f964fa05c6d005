// Driver process: generates plans from seeds, runs each in a forked child,
// collects results, replays and shrinks.
#include "sim.h"
#include "emu.h"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_set>
using namespace sim;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct PropSc { const char *prop; const char *sc; int weight; };
static const PropSc table[] = {
	{ "XBIG", "big", 1 },
	{ "C01", "ops", 1 }, { "C02", "ops", 1 }, { "C03", "ops", 1 }, { "C04", "ops", 1 }, { "C05", "ops", 1 },
	{ "C06", "ops", 1 }, { "C07", "ops", 1 }, { "C08", "ops", 1 },
	{ "C09", "reg", 1 }, { "C10", "reg", 1 }, { "C11", "reg", 1 }, { "C12", "reg", 1 },
	{ "C13", "smp", 1 },
	{ "C14", "pool", 40 }, { "C14", "big", 3 }, { "C14", "set", 10 }, { "C15", "pool", 45 }, { "C15", "big", 3 }, { "C15", "set", 15 }, { "C16", "pool", 60 }, { "C16", "big", 3 }, { "C17", "pool", 4 }, { "C17", "set", 1 }, { "C17", "big", 1 }, { "C18", "pool", 48 }, { "C18", "big", 3 }, { "C18", "set", 12 },
	{ "C19", "pool", 1 }, { "C20", "pool", 60 }, { "C20", "big", 3 }, { "C21", "set", 12 }, { "C21", "big", 2 }, { "C22", "pool", 1 }, { "C23", "pool", 60 }, { "C23", "big", 3 }, { "C24", "pool", 1 }, { "C25", "mem", 1 },
};

static Scenario *find_sc(const std::string &n) { for (auto &s : scenarios()) if (n == s.name) return &s; return nullptr; }

static bool make_plan(const std::string &prop, u64 seed, Plan &p) {
	Rng r(mix(seed, 0x9a3));
	int tot = 0; for (auto &t : table) if (prop == t.prop) tot += t.weight;
	if (!tot) return false;
	int x = (int) r.below(tot); const char *sc = nullptr;
	for (auto &t : table) if (prop == t.prop && (x -= t.weight) < 0) { sc = t.sc; break; }
	p.scenario = sc; p.seed = seed; p.prop = prop;
	Scenario *s = find_sc(sc); if (!s) return false;
	s->gen(p, r, prop);
	return true;
}

// Runs the plan in a child; the outcome is in *R.
static int run_plan(Plan &p, int timeout_s) {
	memset((void *) R, 0, offsetof(Result, ev));
	Scenario *s = find_sc(p.scenario);
	if (!s) { fprintf(stderr, "unknown scenario %s\n", p.scenario.c_str()); exit(2); }
	fflush(nullptr);
	pid_t pid = (pid_t) syscall(SYS_clone, SIGCHLD, 0, 0, 0, 0);
	if (pid < 0) { perror("fork"); exit(2); }
	if (!pid) {
		alarm(timeout_s);
		sim_setup(&p);
		if (mix(p.seed, 0xfd) % 4 == 0) low_fds();	// started with standard input closed: descriptor 0 is a valid result
		s->run(p);
		finish_run();
	}
	int st;
	while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(2); }
	if (!R->done) {
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return -1;	// no verdict
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
			if (timeout_s < 45) return run_plan(p, 60);	// perhaps only a slow machine
			R->trace_hash = 0x4a19; R->violated = 1; R->nev = 0;
			snprintf(R->cls, sizeof R->cls, "hang"); snprintf(R->msg, sizeof R->msg, "the run never ends (thread %d op %d)", R->cur_tid, R->cur_op);
			return 0;
		}
		R->violated = 1;
		snprintf(R->cls, sizeof R->cls, "died");
		snprintf(R->msg, sizeof R->msg, "process died, wait status 0x%x (thread %d op %d)", st, R->cur_tid, R->cur_op);
	}
	return 0;
}

static Plan as_replay(const Plan &p) {
	Plan q = p; q.replay = true; q.evs.assign(R->ev, R->ev + std::min<u32>(R->nev, MAXEV)); return q;
}

static bool fails(Plan &p, const std::string &cls) { return run_plan(p, 20) == 0 && R->violated && cls == R->cls; }

static void shrink(Plan &p, const std::string &cls, double budget) {
	double end = now() + budget;
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		// drop operations
		for (size_t n = std::max<size_t>(p.ops.size() / 2, 1); n >= 1 && now() < end; n /= 2) {
			for (size_t i = 0; i < p.ops.size() && now() < end; ) {
				Plan q = p; std::set<int> gone;
				size_t e = std::min(i + n, q.ops.size());
				for (size_t k = i; k < e; k++) gone.insert(q.ops[k].id);
				q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
				q.evs.erase(std::remove_if(q.evs.begin(), q.evs.end(), [&](const Ev &v) { return gone.count(v.opid); }), q.evs.end());
				if (fails(q, cls)) { p = q; progress = true; } else i += n;
			}
			if (n == 1) break;
		}
		// drop events
		for (size_t n = std::max<size_t>(p.evs.size() / 2, 1); n >= 1 && !p.evs.empty() && now() < end; n /= 2) {
			for (size_t i = 0; i < p.evs.size() && now() < end; ) {
				Plan q = p; size_t e = std::min(i + n, q.evs.size());
				q.evs.erase(q.evs.begin() + i, q.evs.begin() + e);
				if (fails(q, cls)) { p = q; progress = true; } else i += n;
			}
			if (n == 1) break;
		}
	}
}

static void jstr(FILE *f, const std::string &s) {
	fputc('"', f);
	for (char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if ((u8) c < 32) fputc(' ', f); else fputc(c, f); }
	fputc('"', f);
}

static int cmd_run(int argc, char **argv) {
	std::string prop, out, raw, hashes; u64 seed = 1; int worker = 0, nworkers = 1; double secs = 5; u64 maxruns = ~0ull; double start_index = 0; (void) start_index;
	for (int i = 2; i + 1 < argc; i += 2) {
		std::string a = argv[i];
		if (a == "--prop") prop = argv[i + 1]; else if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 0);
		else if (a == "--worker") worker = atoi(argv[i + 1]); else if (a == "--nworkers") nworkers = atoi(argv[i + 1]);
		else if (a == "--seconds") secs = atof(argv[i + 1]); else if (a == "--runs") maxruns = strtoull(argv[i + 1], nullptr, 0);
		else if (a == "--out") out = argv[i + 1]; else if (a == "--raw") raw = argv[i + 1]; else if (a == "--hashes") hashes = argv[i + 1];
		else { fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
	}
	double t0 = now(); u64 runs = 0, steps = 0, opsdone = 0, events = 0, nontriv = 0, detchecks = 0, noverdict = 0;
	std::vector<u64> tot(NSTAT), ever(NSTAT);
	std::unordered_set<u64> ils, traces;
	std::vector<std::string> samples; std::map<std::string, u64> known;
	bool bad = false; std::string cls, msg; u64 badseed = 0;
	int rc = 0, flaky = 0; std::string err;
	for (u64 idx = worker; runs < maxruns && now() - t0 < secs; idx += nworkers) {
		u64 s = mix(mix(seed, 0x5eed), idx);
		Plan p;
		if (!make_plan(prop, s, p)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
		if (run_plan(p, 30)) { noverdict++; if (noverdict > 3) { rc = 2; err = "runs without a verdict (timeout)"; break; } continue; }
		runs++; steps += R->steps; opsdone += R->opsdone; events += R->nev;
		for (int i = 0; i < stat_count(); i++) { tot[i] += R->stat[i]; if (R->stat[i]) ever[i]++; }
		traces.insert(R->trace_hash);
		if (R->nev) { nontriv++; ils.insert(mix(R->trace_hash, R->il_hash)); }
		if (R->known[0]) known[R->known]++;
		if (samples.size() < 2 && R->nev && (runs % 7 == 3)) {
			Plan q = as_replay(p); if (q.evs.size() > 12) q.evs.resize(12); if (q.ops.size() > 12) q.ops.resize(12);
			samples.push_back(plan_text(q, prop.c_str(), "none", "held (first 12 operations and events)"));
		}
		bool viol = R->violated; u64 th = R->trace_hash; u32 nev = R->nev; std::string c1 = R->cls, m1 = R->msg;
		if (viol || runs % 61 == 1) {
			// determinism gate: same seed again, and replay of the recorded decisions
			auto unsure = [&](std::string why) { err = why; if (viol && ++flaky < 6) return false; rc = 2; return true; };	// look for a repeatable one
			if (nev > MAXEV) { if (unsure("event log overflow")) break; continue; }
			Plan rp = as_replay(p);
			if (run_plan(p, 30) || R->trace_hash != th || (bool) R->violated != viol || c1 != R->cls) { if (unsure("seed is not repeatable: " + std::to_string(s) + " " + c1 + " / " + R->cls)) break; continue; }
			if (run_plan(rp, 30) || R->trace_hash != th || (bool) R->violated != viol || c1 != R->cls) { if (unsure("replay diverges: seed " + std::to_string(s) + " " + c1 + " / " + R->cls + " " + R->msg)) break; continue; }
			detchecks++;
			if (viol) {
				bad = true; cls = c1; msg = m1; badseed = s;
				if (!raw.empty()) { FILE *f = fopen(raw.c_str(), "w"); fputs(plan_text(rp, prop.c_str(), cls.c_str(), msg.c_str()).c_str(), f); fclose(f); }
				break;
			}
		}
	}
	double el = now() - t0;
	if (flaky && !bad) rc = 2;
	if (!hashes.empty()) { FILE *f = fopen(hashes.c_str(), "wb"); for (u64 h : ils) fwrite(&h, 8, 1, f); fclose(f); }
	FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
	fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"ops\":%llu,\"events\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"traces\":%zu,\"detchecks\":%llu,\"noverdict\":%llu,\"elapsed\":%.3f,\"violated\":%s,\"rc\":%d,\"badseed\":%llu,\"err\":",
		(unsigned long long) runs, (unsigned long long) steps, (unsigned long long) opsdone, (unsigned long long) events, (unsigned long long) nontriv, ils.size(), traces.size(), (unsigned long long) detchecks, (unsigned long long) noverdict, el, bad ? "true" : "false", rc, (unsigned long long) badseed);
	jstr(f, err); fprintf(f, ",\"cls\":"); jstr(f, cls); fprintf(f, ",\"msg\":"); jstr(f, msg);
	fprintf(f, ",\"stats\":{");
	bool first = true;
	for (int i = 0; i < stat_count(); i++) if (tot[i]) { fprintf(f, "%s", first ? "" : ","); jstr(f, stat_name(i)); fprintf(f, ":[%llu,%llu]", (unsigned long long) tot[i], (unsigned long long) ever[i]); first = false; }
	fprintf(f, "},\"known\":{"); first = true;
	for (auto &k : known) { fprintf(f, "%s", first ? "" : ","); jstr(f, k.first); fprintf(f, ":%llu", (unsigned long long) k.second); first = false; }
	fprintf(f, "},\"samples\":["); first = true;
	for (auto &s : samples) { fprintf(f, "%s", first ? "" : ","); jstr(f, s); first = false; }
	fprintf(f, "]}\n");
	if (f != stdout) fclose(f);
	return rc ? rc : bad ? 1 : 0;
}

static int cmd_replay(const char *path, bool quiet) {
	Plan p; std::string prop, cls;
	if (!plan_parse(path, p, prop, cls)) { fprintf(stderr, "cannot read %s\n", path); return 2; }
	if (run_plan(p, 30)) { printf("no verdict\n"); return 2; }
	if (!quiet) printf("%s class=%s trace=%016llx steps=%llu known=%s\n%s\n", R->violated ? "VIOLATED" : "held", R->cls, (unsigned long long) R->trace_hash, (unsigned long long) R->steps, R->known, R->msg);
	return R->violated ? 1 : 0;
}

static int cmd_shrink(const char *in, const char *out, double budget) {
	Plan p; std::string prop, cls;
	if (!plan_parse(in, p, prop, cls)) return 2;
	if (!fails(p, cls)) { fprintf(stderr, "does not reproduce: %s %s\n", R->cls, R->msg); return 2; }
	shrink(p, cls, budget);
	if (!fails(p, cls)) return 2;
	std::string msg = R->msg;
	FILE *f = fopen(out, "w"); fputs(plan_text(p, prop.c_str(), cls.c_str(), msg.c_str()).c_str(), f); fclose(f);
	printf("%zu operations, %zu events: %s\n", p.ops.size(), p.evs.size(), msg.c_str());
	return 0;
}

static int cmd_one(const char *prop, u64 seed) {
	Plan p; if (!make_plan(prop, seed, p)) return 2;
	if (run_plan(p, 30)) { printf("no verdict\n"); return 2; }
	Plan q = as_replay(p);
	fputs(plan_text(q, prop, R->cls, R->msg).c_str(), stdout);
	printf("# %s %s %s steps %llu\n", R->violated ? "VIOLATED" : "held", R->cls, R->msg, (unsigned long long) R->steps);
	return R->violated;
}

int main(int argc, char **argv) {
	if (!getenv("SIM_NOASLR")) {
		setenv("SIM_NOASLR", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	R = (Result *) mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (R == MAP_FAILED) { perror("mmap"); return 2; }
	k_init_process();
	core_init_process();
	seams_setup(1, 0);
	guests_load();
	if (argc > 2 && !strcmp(argv[1], "run")) return cmd_run(argc, argv);
	if (argc == 3 && !strcmp(argv[1], "replay")) return cmd_replay(argv[2], false);
	if (argc == 5 && !strcmp(argv[1], "shrink")) return cmd_shrink(argv[2], argv[3], atof(argv[4]));
	if (argc == 4 && !strcmp(argv[1], "one")) return cmd_one(argv[2], strtoull(argv[3], nullptr, 0));
	fprintf(stderr, "usage: simrun run|replay|shrink|one ...\n");
	return 2;
}
