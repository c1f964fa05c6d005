// Deterministic simulator: interface shared by the core, the simulated kernel,
// the libc seams and the scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <ucontext.h>
#include "optu.h"

namespace sim {

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint16_t u16; typedef uint8_t u8;

struct Rng {
	u64 s;
	explicit Rng(u64 seed = 0) : s(seed) {}
	u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 a, i64 b) { return a + (i64) below((u64) (b - a + 1)); }
	bool p(double q) { return (next() >> 11) * (1.0 / 9007199254740992.0) < q; }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};
u64 mix(u64 a, u64 b);

// ---------------------------------------------------------------- plan
struct Op { int id = 0, tid = 0, code = 0, sig = 0; i64 a[8] = {0}; };
struct Ev { int tid, opid, site; u32 ctr; int act; i64 arg; };
struct Plan {
	std::string scenario, prop;
	u64 seed = 0;
	std::map<std::string, i64> cfg;
	std::vector<Op> ops;
	std::vector<Ev> evs;
	bool replay = false;
	i64 c(const char *k, i64 d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};
std::string plan_text(const Plan &p, const char *prop, const char *cls, const char *msg);
bool plan_parse(const char *path, Plan &p, std::string &prop, std::string &cls);

// Sites at which the schedule or a fault is decided.
enum Site {
	S_STEP = 0,	// one machine instruction of an operation
	S_YIELD,	// one memory access / edge of library code
	S_OPB,		// between two operations of a thread
	S_PICK,		// who runs next when a thread blocks or ends
	S_MEM,		// when a store reaches memory, how old a value a load sees
	S_F_BASE,	// fault sites follow
	S_F_MMAP = S_F_BASE, S_F_MMAP_FIXED, S_F_MUNMAP, S_F_MADVISE, S_F_MEMFD, S_F_FTRUNC, S_F_CLOSE,
	S_F_MALLOC, S_F_CALLOC, S_F_STRDUP, S_F_REALLOC, S_F_OPEN, S_F_READ, S_F_OPENDIR, S_F_READDIR, S_F_SYSCONF,
	S_F_RSEQ, S_F_GETCPU, S_F_SCHEDGETCPU, S_F_MOVEPAGES, S_F_NUMANODE, S_F_INITCB, S_F_OTHER,
	S_NR
};
extern const char *site_name[S_NR];
enum ActKind { A_NONE = 0, A_SW, A_PRE, A_MIG, A_SIG, A_RESCHED, A_FAULT, A_MEM };
struct Act { int k = A_NONE; i64 arg = 0; };

// ---------------------------------------------------------------- results
enum { MAXEV = 1 << 16, NSTAT = 256 };
struct Result {
	volatile int done;		// 0: child died without reporting
	volatile int violated;
	char cls[48];
	char msg[400];
	u64 trace_hash, il_hash;
	u64 steps, yields, opsdone;
	u64 stat[NSTAT];
	u32 nev;
	int cur_tid, cur_op;
	char known[200];
	Ev ev[MAXEV];
};
extern Result *R;
// Named counters (faults fired, probes, ...)
int stat_id(const char *name);		// register (static init / startup only)
const char *stat_name(int id);
int stat_count();
struct Stat { int id; explicit Stat(const char *n) : id(stat_id(n)) {} void hit(u64 n = 1) { R->stat[id] += n; } };

// ---------------------------------------------------------------- threads
enum TState { T_NEW, T_READY, T_RUN, T_BLOCKED, T_DONE };
struct rseq_area {	// kernel view of the per-thread area
	u32 cpu_id_start, cpu_id; u64 rseq_cs; u32 flags, node_id, mm_cid;
};
struct StepCtx;
struct Thr {
	int id = 0;
	TState st = T_NEW;
	u64 fs = 0;
	char *stack = nullptr;
	void *sp = nullptr;
	int cpu = -1, cid = -1;
	bool need_fixup = false;
	// kernel's rseq registration
	bool reg = false; rseq_area *area = nullptr; u32 rlen = 0, rsig = 0;
	bool libc_reg = false;		// registered by libc, not by the library
	const Op *op = nullptr;
	u32 ctr[S_NR] = {0};
	u64 spin = 0;
	const void *block_on = nullptr;
	std::function<void()> body;
	StepCtx *sc = nullptr;
	u64 aborts = 0, nmig = 0;
	bool in_sig = false;
	u64 hard = 0;			// fault sites that failed since last reset (not EINTR, not short)
	int owner = -1;			// resource owner tag for the ledger
	bool unmap_faults = false;	// munmap may fail in this call
	bool nofaults = false;		// no fault hits this thread for now
	int hard_errno = 0; u32 nhard = 0;
	u64 last_rip = 0;
	u64 events = 0;			// preemptions, migrations, signals, fences so far
	u64 cpumask_seen = 0, cidmask_seen = 0;	// CPUs / cids held since last reset
};
enum { MAXT = 8, MAXCPU = 64 };

struct Sim {
	Plan *plan = nullptr;
	Rng rng{0};
	Thr th[MAXT];
	Thr mainthr;
	int nthr = 0;
	int ncpu = 1;
	Thr *on_cpu[MAXCPU] = {nullptr};
	int node_of[MAXCPU] = {0};
	u32 feature = 28, kalign = 32;
	bool nosys = false;
	bool rand_cid = false;
	u64 total = 0, cap = 2000000, last_prog = 0;	// steps in all, allowed without an operation starting, at the last start
	u64 trace = 0, il = 0;
	std::map<u64, Act> evmap;
	// record-mode probabilities
	double p_step = 0, p_yield = 0, p_opb = 0, p_fault = 0;
	u64 fault_mask = 0;
	int w_sw = 1, w_pre = 1, w_mig = 1, w_sig = 0, w_resched = 1;
	bool mig_random = true;
	std::function<void(Thr &)> signal_handler;	// runs in the interrupted thread
	std::function<void()> invariant;		// after each op boundary
	std::function<void(Thr &, u64)> step_oracle;	// after each stepped instruction (rip)
	std::function<void(Thr &)> on_killed;		// kernel would SIGSEGV the thread
	std::function<bool(const char *)> on_abort;	// library called abort()
	bool faults_on = true;
	bool sched_on = true;
	int forks = 0;					// forks so far in this run
	bool child_may_die = false;			// a forked child misuses memory on purpose
};
extern Sim S;
extern Thr *cur;
extern const struct optab *const optabs[];
extern const int noptabs;

[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// A violation of the named properties only; under another property the run just ends.
[[noreturn]] void violate_of(const char *props, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void finish_run();
[[noreturn]] void child_exit(int code);
void trace_ev(u64 a, u64 b = 0, u64 c = 0, u64 d = 0);

// ---------------------------------------------------------------- core
void core_init_process();			// once per process (zygote)
void sim_setup(Plan *p);			// once per run
Thr &spawn(std::function<void()> body, int cpu);
void run_threads();				// from the main context, until all done
void progress();
void op_begin(const Op &op);			// op boundary (a scheduling point)
void op_end();
void yield_point(int site);
Act decide(int site, std::function<Act()> gen);
int fault(int site, std::initializer_list<int> errs, double scale = 1.0);	// 0 or errno
void block_on(const void *what);
void wake_all(const void *what);
void do_act(Act a, ucontext_t *uc);

// ---------------------------------------------------------------- kernel
long k_rseq(Thr &t, rseq_area *a, u32 len, int flags, u32 sig);
void k_libc_register(Thr &t, rseq_area *a, u32 len, u32 sig);
void k_update_area(Thr &t);
void k_resume(Thr &t, ucontext_t *uc);		// return to user mode
void k_preempt(Thr &t);
void k_place(Thr &t, int cpu);
void k_fence(int cpu);				// membarrier(PRIVATE_EXPEDITED_RSEQ) on cpu, or all (-1)
void k_init_process();
void k_mark_unloaded(u64 a, u64 b);
extern u64 k_unload_lo[8], k_unload_hi[8]; extern int k_nunload;
const void *sim_rseq_cs_begin(); const void *sim_rseq_cs_end();

// ---------------------------------------------------------------- stepping
// Calls fn(c) with every instruction a scheduling point.
int call_stepped(opfn fn, octx *c);
void step_init();
bool step_in_glue(u64 rip);

// ---------------------------------------------------------------- seams
struct MapPage { int owner; int shared; int fd; };
void seams_reset();
void seams_setup(u64 mmap_seed, int skew_mode);
void low_fds();
extern "C" void lib_ctor(); extern "C" void lib_dtor();
// Which owner mapped which pages: disjoint intervals start -> (end, owner).
struct PageMap {
	std::map<u64, std::pair<u64, int>> m;
	enum { NONE = -1000 };
	int owner(u64 a) const { auto i = m.upper_bound(a); if (i == m.begin()) return NONE; --i; return a < i->second.first ? i->second.second : (int) NONE; }
	// the first interval overlapping [a, b), or end
	std::map<u64, std::pair<u64, int>>::iterator first(u64 a, u64 b) { auto i = m.upper_bound(a); if (i != m.begin() && std::prev(i)->second.first > a) --i; return i != m.end() && i->first < b ? i : m.end(); }
	void erase(u64 a, u64 b) {
		for (auto i = first(a, b); i != m.end() && i->first < b; ) {
			u64 s = i->first, e = i->second.first; int o = i->second.second; i = m.erase(i);
			if (s < a) m[s] = { a, o };
			if (e > b) { m[b] = { e, o }; break; }
		}
	}
	void set(u64 a, u64 b, int o) { erase(a, b); m[a] = { b, o }; }
	u64 count(int o) const { u64 n = 0; for (auto &p : m) if (p.second.second == o) n += (p.second.first - p.first) / 4096; return n; }
	u64 size() const { u64 n = 0; for (auto &p : m) n += (p.second.first - p.first) / 4096; return n; }
	bool empty() const { return m.empty(); }
	bool covers(u64 a, u64 b, int o, int o2 = NONE) const { for (u64 x = a; x < b; ) { auto i = m.upper_bound(x); if (i == m.begin()) return false; --i; if (x >= i->second.first || (i->second.second != o && i->second.second != o2)) return false; x = i->second.first; } return true; }
};
struct Ledger {
	PageMap pages;
	std::map<u64, std::pair<u64, int>> heap;	// live heap blocks: addr -> (size, owner)
	std::map<int, int> fds;			// memfd etc -> owner
	u64 n_mmap = 0, n_munmap = 0;
};
extern Ledger L;
u64 ledger_pages(int owner); u64 ledger_heap(int owner); u64 ledger_fds(int owner);
extern bool heap_check;
extern bool (*retired_hook)(u64);

// world seen through the seams
struct World {
	// libc symbols
	bool has_off = true, has_size = true, has_flags = true;
	ptrdiff_t libc_off = 0; u32 libc_size = 32, libc_flags = 0;
	u64 aux_feature = 28, aux_align = 32;
	// sysfs
	std::string possible; bool possible_exists = true;
	std::vector<std::pair<std::string, int>> cpudir; bool cpudir_exists = true;
	long nproc_conf = 8;
	u64 page = 4096; bool page_unknown = false;	// the machine's page size; sysconf cannot tell
	int max_read = 0;			// cap on bytes per read (0: none)
	int rseq_denied = 0;			// errno of every rseq registration, 0: allowed
	int rseq_deny_first = 0;		// only the first n registrations fail
	std::vector<long> rseq_calls;		// log: (tid, flags, ret)
	u64 nreg = 0, nunreg = 0;
	std::function<long(int, unsigned long, void **, const int *, int *, int)> move_pages;
	std::function<int(int)> numa_node;
};
extern World W;
extern bool expect_abort;	// a scenario knows the next library abort() is right
[[noreturn]] void lib_abort(const char *why);
extern char last_stderr[512];
extern u64 n_stderr;

// ---------------------------------------------------------------- scenarios
struct Scenario {
	const char *name;
	void (*gen)(Plan &p, Rng &r, const std::string &prop);
	void (*run)(Plan &p);
};
std::vector<Scenario> &scenarios();
struct RegSc { explicit RegSc(Scenario s) { scenarios().push_back(s); } };

} // namespace sim
