// Scenario "smp": CPU-count detection against every kind of sysfs and failure.
#include "sim.h"
#include <dirent.h>
extern "C" {
int rseq_get_max_nr_cpus(void);
struct rseq_mempool; struct rseq_mempool_attr;
struct rseq_mempool_attr *rseq_mempool_attr_create(void);
void rseq_mempool_attr_destroy(struct rseq_mempool_attr *attr);
int rseq_mempool_attr_set_percpu(struct rseq_mempool_attr *attr, size_t stride, int max_nr_cpus);
struct rseq_mempool *rseq_mempool_create(const char *pool_name, size_t item_len, const struct rseq_mempool_attr *attr);
int rseq_mempool_destroy(struct rseq_mempool *pool);
int rseq_mempool_get_max_nr_cpus(struct rseq_mempool *mempool);
}
namespace sim {
namespace {
enum { Q_GET = 1, Q_POOL, Q_BREAK };
static Plan *P; static i64 listmax, dirmax; static std::set<i64> stored;
static Stat st_list("smp:list_used"), st_fb("smp:fallback_used"), st_zero("smp:undetectable"), st_pool("smp:auto_pool"), st_nopool("smp:auto_pool_refused"), st_cache("smp:cached");

// highest CPU of a list, by walking all of it; -1 if malformed
static i64 ref_list(const std::string &s) {
	i64 mx = -1; size_t i = 0; std::string t = s; while (!t.empty() && t.back() == '\n') t.pop_back();
	if (t.empty()) return -1;
	while (i < t.size()) {
		size_t j = t.find(',', i); if (j == std::string::npos) j = t.size();
		std::string e = t.substr(i, j - i); size_t d = e.find('-'); std::string hi = d == std::string::npos ? e : e.substr(d + 1);
		if (hi.empty() || hi.find_first_not_of("0123456789") != std::string::npos || hi.size() > 10) return -1;
		i64 v = atoll(hi.c_str()); if (v > mx) mx = v;
		i = j + 1;
	}
	return mx < 0x7fffffff ? mx : -1;
}
static i64 expected(u64 hard) {
	bool list = W.possible_exists && !(hard >> S_F_OPEN & 1) && !(hard >> S_F_READ & 1) && listmax >= 0;
	if (list) { st_list.hit(); return listmax + 1; }
	i64 d = W.cpudir_exists && !(hard >> S_F_OPENDIR & 1) ? dirmax + 1 : 0, s = hard >> S_F_SYSCONF & 1 ? -1 : W.nproc_conf;
	i64 v = d > s ? d : s;
	if (v >= 1) st_fb.hit();
	return v < 1 ? 0 : v;
}

static i64 one_call(std::function<i64()> f, std::set<i64> *allowed, i64 *mine) {
	Thr &t = *cur;
	std::set<i64> before = stored;
	t.hard = 0;
	// which attempts can have run: mine if nothing was stored when I began, others that overlap
	i64 r = f();
	u64 hard = t.hard;
	*mine = expected(hard);
	if (*mine > 0 && before.empty()) stored.insert(*mine);
	*allowed = stored;
	return r;
}

static std::multiset<i64> dummy;
static void exec(const Op &o) {
	Thr &t = *cur; (void) t;
	switch (o.code) {
	case Q_GET: {
		std::set<i64> before = stored; i64 mine = 0; std::set<i64> al;
		bool alone = S.nthr == 1;
		i64 r = one_call([] { return (i64) rseq_get_max_nr_cpus(); }, &al, &mine);
		trace_ev(1, (u64) r);
		if (alone) {
			if (!before.empty()) {	// answered before: stays
				st_cache.hit();
				if (!before.count(r)) violate("count-changed", "detected CPU count changed from %lld to %lld", (long long) *before.begin(), (long long) r);
			} else if (r != mine) violate("bad-count", "detected %lld CPUs, expected %lld (list max %lld, directory max %lld, configured %ld)", (long long) r, (long long) mine, (long long) listmax, (long long) dirmax, W.nproc_conf);
		} else if (r == 0) { if (mine > 0 && !before.empty()) violate("bad-count", "no CPU count although one was known before the call"); if (mine > 0 && !t.hard) violate("bad-count", "no CPU count although nothing failed"); }
		if (r == 0) st_zero.hit();
		if (r < 0) violate("bad-count", "negative CPU count %lld", (long long) r);
		if (r > 0 && !alone) {
			// some attempt of some thread must account for the value
			bool ok = r == listmax + 1 && W.possible_exists;
			i64 d = W.cpudir_exists ? dirmax + 1 : 0;
			if (r == d || r == W.nproc_conf) ok = ok || P->c("p_fault") || !W.possible_exists || listmax < 0;
			if (!ok) violate("bad-count", "detected %lld CPUs (list max %lld, directory max %lld, configured %ld)", (long long) r, (long long) listmax, (long long) dirmax, W.nproc_conf);
			stored.insert(r);
		}
		break;
	}
	case Q_POOL: {
		u64 sf = S.fault_mask; (void) sf;
		struct rseq_mempool_attr *a = rseq_mempool_attr_create();
		if (!a) violate("pool", "attribute creation failed");
		if (rseq_mempool_attr_set_percpu(a, 65536, 0)) violate("pool", "attribute refused");
		std::set<i64> before = stored; i64 mine = 0; std::set<i64> al; struct rseq_mempool *mp = nullptr;
		u64 heap0 = L.heap.size(), pages0 = L.pages.size(), fds0 = L.fds.size(); int e = 0;
		one_call([&] { errno = 0; mp = rseq_mempool_create("auto", 64, a); e = errno; return 0; }, &al, &mine);
		trace_ev(2, mp != nullptr);
		if (mp) {
			st_pool.hit();
			i64 n = rseq_mempool_get_max_nr_cpus(mp);
			if (n < 1) violate("bad-count", "auto-detected pool has %lld CPUs", (long long) n);
			if (S.nthr == 1) { i64 w = before.empty() ? mine : *before.begin(); if (n != w) violate("bad-count", "auto-detected pool has %lld CPUs, expected %lld", (long long) n, (long long) w); }
			if (rseq_mempool_destroy(mp)) violate("pool", "destroy failed");
		} else {
			st_nopool.hit();
			if (!e) violate("pool", "pool creation failed without errno");
			if (S.nthr == 1) {
				i64 w = before.empty() ? mine : *before.begin();
				if (w > 0) violate("pool", "auto-detected pool refused (errno %d) although %lld CPUs are known", e, (long long) w);
			}
		}
		if (S.nthr == 1 && (L.heap.size() != heap0 || L.pages.size() != pages0 || L.fds.size() != fds0)) violate("leak", "pool creation with auto-detection leaks resources");
		rseq_mempool_attr_destroy(a);
		break;
	}
	}
	if (S.nthr == 1 && !L.fds.empty()) violate("leak", "file descriptor left open after detection");
}

static void run_smp(Plan &p) {
	P = &p; Sim &s = S; Rng r(mix(p.seed, 0x51));
	s.ncpu = 2; s.cap = 3000000;
	s.p_yield = p.c("p_yield") * 1e-6; s.p_opb = p.c("p_opb") * 1e-6; s.w_sw = 3; s.w_pre = 1; s.w_mig = 1; s.w_resched = 0;
	s.p_fault = p.c("p_fault") * 1e-6; s.fault_mask = (u64) p.c("fmask");
	W.has_off = W.has_size = W.has_flags = false;
	// sysfs
	std::string l; i64 maxcpu = p.c("maxcpu");
	switch (p.c("form")) {
	case 0: l = maxcpu ? "0-" + std::to_string(maxcpu) : "0"; break;
	case 1: {	// fragmented list up to maxcpu
		i64 c = 0; bool first = true;
		while (c <= maxcpu && l.size() < 4060) {
			i64 e = c + (i64) r.below(4); if (e > maxcpu) e = maxcpu;
			l += (first ? "" : ","); first = false; l += std::to_string(c); if (e > c) l += "-" + std::to_string(e);
			c = e + 1 + (i64) r.range(1, 3);
		}
		break;
	}
	case 2: l = std::to_string(maxcpu); break;
	case 3: l = ""; break;
	case 4: l = "garbage"; break;
	case 5: l = std::to_string(0x7fffffffLL + (i64) r.below(1000)); break;
	case 6: {	// long list of single CPUs, close to a page
		i64 c = (i64) r.below(10); l = std::to_string(c);
		while (l.size() < (size_t) p.c("pagefill", 4000)) { c += (i64) r.range(2, 9); l += "," + std::to_string(c); }
		break;
	}
	}
	if (p.c("nl")) l += "\n";
	if (l.size() > 4095) { l.resize(l.rfind(',', 4000)); }
	W.possible = l; W.possible_exists = p.c("exists"); listmax = ref_list(l);
	W.max_read = (int) p.c("maxread");
	W.cpudir_exists = p.c("direxists"); dirmax = -1;
	i64 nd = p.c("ndir");
	std::vector<std::pair<std::string, int>> v;
	for (i64 i = 0; i < nd; i++) { i64 n = i == nd - 1 ? p.c("dirmax") : (i64) r.below((u64) p.c("dirmax") + 1); v.push_back({ "cpu" + std::to_string(n), DT_DIR }); if (n > dirmax) dirmax = n; }
	static const char *noise[] = { "cpufreq", "cpuidle", "possible", "cpu", "cpu12abc", "cpux9", "power", "hotplug" };
	for (int i = 0; i < 8; i++) if (p.c("noise") >> i & 1) v.push_back({ noise[i], i == 2 ? DT_REG : DT_DIR });
	if (p.c("noise") >> 8 & 1) v.push_back({ "cpu777", DT_REG });	// not a CPU: CPUs are directories
	for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
	W.cpudir = v; W.nproc_conf = p.c("nproc");
	lib_ctor();
	int nthr = (int) p.c("nthr");
	for (int i = 0; i < nthr; i++) spawn([i] { for (auto &o : P->ops) if (o.tid == i) { op_begin(o); exec(o); op_end(); } }, i % 2);
	run_threads();
	if (!L.fds.empty()) violate("leak", "file descriptor left open after detection");
}
static void gen_smp(Plan &p, Rng &r, const std::string &) {
	auto &c = p.cfg;
	c["nthr"] = r.p(0.7) ? 1 : (i64) r.range(2, 3);
	c["maxcpu"] = r.pick<i64>({ 0, 1, 3, 7, 8, 9, 10, 15, 63, 64, 99, 100, 127, 191, (i64) r.below(200), (i64) r.below(8192), 1048575 });
	c["form"] = r.pick<i64>({ 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 6 }); c["nl"] = r.p(0.8); c["pagefill"] = (i64) r.range(60, 4080);
	c["exists"] = r.p(0.8); c["direxists"] = r.p(0.8); c["ndir"] = r.p(0.15) ? 0 : (i64) r.range(1, 20); c["dirmax"] = r.p(0.5) ? (i64) r.below(12) : (i64) r.below(300);
	c["noise"] = (i64) r.below(512); c["nproc"] = r.pick<i64>({ 1, 2, 4, 8, 64, (i64) r.range(1, 300) });
	c["maxread"] = r.p(0.5) ? 0 : r.pick<i64>({ 1, 2, 3, 7, 64, 4000 });
	c["p_yield"] = r.pick<i64>({ 0, 5000, 100000 }); c["p_opb"] = 200000;
	if (r.p(0.7)) { c["p_fault"] = r.pick<i64>({ 30000, 150000, 500000 });
		u64 m = 0; for (int s : { S_F_OPEN, S_F_READ, S_F_OPENDIR, S_F_SYSCONF, S_F_CLOSE }) if (r.p(0.5)) m |= 1ULL << s; c["fmask"] = (i64) m; }
	if (c["p_fault"] == 500000 && c["maxread"] && c["maxread"] < 64) c["maxread"] = 0;
	int id = 1;
	bool pool_ok = c["maxcpu"] <= 300 && c["dirmax"] <= 300 && c["form"] != 6;
	for (int t = 0; t < c["nthr"]; t++) { int n = (int) r.range(1, 4); for (int i = 0; i < n; i++) { Op o; o.id = id++; o.tid = t; o.code = pool_ok && r.p(0.3) ? Q_POOL : Q_GET; p.ops.push_back(o); } }
}
static RegSc reg_smp(Scenario{ "smp", gen_smp, run_smp });
} // namespace
} // namespace sim
