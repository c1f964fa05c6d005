// Simulator core: coroutines with their own TLS, the seeded scheduler, the
// decision log, single-stepping and violation reporting.
#include "sim.h"
#include "emu.h"
#include <sys/prctl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/auxv.h>
#include <sys/syscall.h>
#include <asm/prctl.h>
#include <unistd.h>
#include <pthread.h>
#include <malloc.h>
#include <immintrin.h>

namespace sim {

Sim S;
Thr *cur;
Result *R;

const char *site_name[S_NR] = { "step", "yield", "opb", "pick", "memory", "mmap", "mmap_fixed", "munmap", "madvise", "memfd_create",
	"ftruncate", "close", "malloc", "calloc", "strdup", "realloc", "open", "read", "opendir", "readdir", "sysconf", "rseq",
	"getcpu", "sched_getcpu", "move_pages", "numa_node", "init_cb", "other" };

std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }

static std::vector<std::string> &statnames() { static std::vector<std::string> v; return v; }
int stat_id(const char *n) {
	auto &v = statnames();
	for (size_t i = 0; i < v.size(); i++) if (v[i] == n) return (int) i;
	if (v.size() >= NSTAT) { fprintf(stderr, "too many stats\n"); exit(2); }
	v.push_back(n); return (int) v.size() - 1;
}
const char *stat_name(int i) { return statnames()[i].c_str(); }
int stat_count() { return (int) statnames().size(); }

static Stat st_sw("ev:switch"), st_pre("ev:preempt"), st_mig("ev:migrate"), st_sig("ev:signal"), st_res("ev:resched"),
	st_spin("ev:forced_switch"), st_block("ev:block");
static int st_fault[S_NR];

u64 mix(u64 a, u64 b) { u64 z = a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2)); z *= 0xff51afd7ed558ccdULL; z ^= z >> 33; return z; }
void trace_ev(u64 a, u64 b, u64 c, u64 d) { S.trace = mix(mix(mix(mix(S.trace, a), b), c), d); }

// ------------------------------------------------------------ reporting
static void publish() {
	R->trace_hash = S.trace; R->il_hash = S.il; R->steps = S.total;
	R->cur_tid = cur ? cur->id : -1; R->cur_op = cur && cur->op ? cur->op->id : 0;
}
void finish_run() { publish(); R->done = 1; syscall(SYS_exit_group, 0); __builtin_unreachable(); }
void child_exit(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }
void violate(const char *cls, const char *fmt, ...) {
	if (S.child_may_die) child_exit(42);
	va_list ap; va_start(ap, fmt);
	snprintf(R->cls, sizeof R->cls, "%s", cls);
	vsnprintf(R->msg, sizeof R->msg, fmt, ap);
	va_end(ap);
	trace_ev(0xdead, 0);
	R->violated = 1;
	finish_run();
}

static Stat st_other("run_ended_by_other_property");
void violate_of(const char *props, const char *cls, const char *fmt, ...) {
	if (!strstr(props, S.plan->prop.c_str()) && !(S.forks && S.plan->prop == "C22")) {
		if (S.child_may_die) child_exit(42);
	 st_other.hit(); trace_ev(0xdeae, 0); finish_run(); }
	va_list ap; va_start(ap, fmt);
	char b[380]; vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	violate(cls, "%s", b);
}

// ------------------------------------------------------------ processes and coroutines
static u64 tls_pool[MAXT + 1]; static int ntls;
static char *stacks[MAXT];
static const size_t STACK = 1 << 20;
static bool have_fsgs;
static u64 main_fs;
static void *main_sp;

static u64 get_fs() { u64 b; syscall(SYS_arch_prctl, ARCH_GET_FS, &b); return b; }
__attribute__((target("fsgsbase"))) static void set_fs_fast(u64 b) { _writefsbase_u64(b); }
static inline void set_fs(u64 b) { if (have_fsgs) set_fs_fast(b); else syscall(SYS_arch_prctl, ARCH_SET_FS, b); }

extern "C" void sim_switch(void **save, void *to);
asm(R"(
	.text
	.globl sim_switch
	.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.size sim_switch, .-sim_switch

	.globl sim_glue_begin
sim_glue_begin:
	.globl sim_step_call
	.type sim_step_call,@function
sim_step_call:
	pushq %rbx
	movq %rdi, %rax
	movq %rsi, %rdi
	pushfq
	orl $0x100, (%rsp)
	popfq
	call *%rax
	pushfq
	andl $0xfffffeff, (%rsp)
	popfq
	popq %rbx
	ret
	.size sim_step_call, .-sim_step_call
	# Called from stepped code: leave single-stepping around library code.
	.macro SIMWRAP name target
	.globl \name
	.type \name,@function
\name:
	pushfq
	andl $0xfffffeff, (%rsp)
	popfq
	subq $8, %rsp
	call \target
	addq $8, %rsp
	pushfq
	orl $0x100, (%rsp)
	popfq
	ret
	.endm
	.macro SIMEXIT name target
	.globl \name
	.type \name,@function
\name:
	pushfq
	andl $0xfffffeff, (%rsp)
	popfq
	jmp \target
	.endm
	SIMWRAP simw_fallback_cpu rseq_fallback_current_cpu
	SIMWRAP simw_fallback_node rseq_fallback_current_node
	SIMWRAP simw_memcpy memcpy
	SIMWRAP simw_memset memset
	SIMEXIT simw_abort sim_abort
	SIMEXIT simw_fprintf sim_fprintf
	SIMEXIT simw_fwrite sim_fwrite
	SIMEXIT simw_assert_fail sim_assert_fail
	.globl sim_glue_end
sim_glue_end:
	nop
)");
extern "C" int sim_step_call(opfn fn, octx *c);
extern "C" char sim_glue_begin[], sim_glue_end[];

static void *park(void *a) {
	__atomic_store_n((u64 *) a, get_fs(), __ATOMIC_RELEASE);
	for (;;) pause();
	return nullptr;
}

void core_init_process() {
	mallopt(M_ARENA_MAX, 1);
	prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
	have_fsgs = (getauxval(AT_HWCAP2) & 2) != 0;
	main_fs = get_fs();
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 10);
	for (int i = 0; i < MAXT; i++) {
		pthread_t p; u64 *slot = &tls_pool[i];
		if (pthread_create(&p, &at, park, slot)) { perror("pthread_create"); exit(2); }
		while (!__atomic_load_n(slot, __ATOMIC_ACQUIRE)) sched_yield();
		ntls++;
		stacks[i] = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	for (int i = S_F_BASE; i < S_NR; i++) st_fault[i] = stat_id((std::string("fault:") + site_name[i]).c_str());
}

bool addr_retired(u64);
static char altstack[64 << 10];
static void crash_handler(int sig, siginfo_t *si, void *) {
	const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "SIGFPE";
	if (sig == SIGSEGV && addr_retired((u64) si->si_addr))
		violate("stale-access", "access to retired memory (thread %d op %d)", cur ? cur->id : -1, cur && cur->op ? cur->op->id : 0);
	violate("crash", "%s in thread %d op %d (code %d)", n, cur ? cur->id : -1, cur && cur->op ? cur->op->id : 0, cur && cur->op ? cur->op->code : -1);
}

static void trap_handler(int, siginfo_t *, void *ucv);

void sim_setup(Plan *p) {
	S.plan = p;
	S.rng = Rng(mix(p->seed, 0x5c4ed));
	S.mainthr.id = MAXT;
	S.mainthr.fs = main_fs;
	S.mainthr.st = T_RUN;
	S.mainthr.cpu = 0;
	cur = &S.mainthr;
	if (p->replay)
		for (auto &e : p->evs) {
			u64 k = ((u64) e.tid << 56) | ((u64) e.opid << 36) | ((u64) e.site << 28) | e.ctr;
			S.evmap[k] = Act{ e.act, e.arg };
		}
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
	sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
	for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE }) sigaction(s, &sa, nullptr);
	sa.sa_sigaction = trap_handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART; sigaction(SIGTRAP, &sa, nullptr);
}

static void switch_to(Thr *t) {
	if (t == cur) return;
	Thr *from = cur;
	S.il = mix(S.il, ((u64) from->id << 40) ^ ((u64) (from->op ? from->op->id : 0) << 20) ^ (from->ctr[S_STEP] + from->ctr[S_YIELD]) ^ ((u64) t->id << 60));
	cur = t; t->spin = 0;
	set_fs(t->fs);
	sim_switch(&from->sp, t->sp);
	// resumed: whoever switched to us set cur and our fs
}

static Thr *pick_runnable(i64 arg, Thr *except, bool ready_only = false) {
	Thr *c[MAXT]; int n = 0;
	int base = except && except->id < MAXT ? except->id + 1 : 0;
	for (int i = 0; i < S.nthr; i++) {
		Thr *t = &S.th[(base + i) % S.nthr];
		if (t == except) continue;
		if (t->st == T_READY || (!ready_only && t->st == T_RUN)) c[n++] = t;
	}
	if (!n) return nullptr;
	return c[(u64) arg % n];
}

static void place_ready(Thr *t, i64 arg) {
	if (t->st != T_READY) return;
	int cpu = t->cpu;
	if (cpu < 0 || ((arg >> 4) & 3) == 0) cpu = (int) ((u64) (arg >> 8) % S.ncpu);
	k_place(*t, cpu);
}

// Current thread cannot continue: run somebody else (or return to main).
static void reschedule_away() {
	Act a = decide(S_PICK, [] { return S.rng.p(0.7) ? Act{ A_SW, (i64) S.rng.below(1 << 20) } : Act{}; });
	Thr *t = pick_runnable(a.k ? a.arg : 0, cur);
	if (t) { place_ready(t, a.k ? a.arg : 0x10); switch_to(t); return; }
	bool all_done = true;
	for (int i = 0; i < S.nthr; i++) if (S.th[i].st != T_DONE) all_done = false;
	if (!all_done) violate("deadlock", "no runnable thread: thread %d op %d blocked forever", cur->id, cur->op ? cur->op->id : 0);
	cur = &S.mainthr; 
	Thr *from = nullptr; (void) from;
	set_fs(main_fs);
	void *dummy; sim_switch(&dummy, main_sp);
}

static void thread_entry() {
	Thr *t = cur;
	k_resume(*t, nullptr);
	t->body();
	static Op endop; endop.id = 999999;
	t->st = T_DONE; t->op = &endop; memset(t->ctr, 0, sizeof t->ctr);
	if (t->cpu >= 0 && S.on_cpu[t->cpu] == t) S.on_cpu[t->cpu] = nullptr;
	t->cid = -1;
	reschedule_away();
	__builtin_trap();
}

Thr &spawn(std::function<void()> body, int cpu) {
	int i = S.nthr++;
	if (i >= MAXT) abort();
	Thr &t = S.th[i];
	t.id = i; t.fs = tls_pool[i]; t.stack = stacks[i]; t.body = std::move(body); t.cpu = cpu; t.st = T_READY;
	u64 *sp = (u64 *) (t.stack + STACK - 64);
	*--sp = 0;
	*--sp = (u64) thread_entry;
	for (int k = 0; k < 6; k++) *--sp = 0;
	t.sp = sp;
	return t;
}

void run_threads() {
	Thr *t = pick_runnable(0, nullptr);
	if (!t) return;
	place_ready(t, 0x10);
	cur = t;
	set_fs(t->fs);
	sim_switch(&main_sp, t->sp);
	cur = &S.mainthr;
}

// ------------------------------------------------------------ decisions
static inline u64 evkey(int site, u32 c) {
	return ((u64) cur->id << 56) | ((u64) (cur->op ? cur->op->id : 0) << 36) | ((u64) site << 28) | c;
}
Act decide(int site, std::function<Act()> gen) {
	u32 c = cur->ctr[site]++;
	Act a;
	if (S.plan->replay) {
		if (!S.evmap.empty()) {
			auto i = S.evmap.find(evkey(site, c));
			if (i != S.evmap.end()) a = i->second;
		}
	} else {
		a = gen();
	}
	if (a.k) {
		if (R->nev < MAXEV) R->ev[R->nev] = Ev{ cur->id, cur->op ? cur->op->id : 0, site, c, a.k, a.arg };
		R->nev++;
		trace_ev(((u64) cur->id << 32) | (cur->op ? cur->op->id : 0), ((u64) site << 32) | c, a.k, a.arg);
	}
	return a;
}

static inline Act decide_sched(int site, double p) {
	u32 c = cur->ctr[site]++;
	Act a;
	if (S.plan->replay) {
		if (S.evmap.empty()) return a;
		auto i = S.evmap.find(evkey(site, c));
		if (i == S.evmap.end()) return a;
		a = i->second;
	} else {
		if (!S.rng.p(p) || R->nev > MAXEV - 4096) return a;
		int w = S.w_sw + S.w_pre + S.w_mig + S.w_sig + S.w_resched;
		if (w <= 0) return a;
		i64 x = (i64) S.rng.below(w);
		a.arg = (i64) S.rng.below(1 << 20);
		if ((x -= S.w_sw) < 0) a.k = A_SW;
		else if ((x -= S.w_pre) < 0) a.k = A_PRE;
		else if ((x -= S.w_mig) < 0) a.k = A_MIG;
		else if ((x -= S.w_sig) < 0) a.k = A_SIG;
		else a.k = A_RESCHED;
	}
	if (R->nev < MAXEV) R->ev[R->nev] = Ev{ cur->id, cur->op ? cur->op->id : 0, site, c, a.k, a.arg };
	R->nev++;
	trace_ev(((u64) cur->id << 32) | (cur->op ? cur->op->id : 0), ((u64) site << 32) | c, a.k, a.arg);
	return a;
}

int fault(int site, std::initializer_list<int> errs, double scale) {
	Act a = decide(site, [&] {
		if (!S.faults_on || cur->nofaults || !(S.fault_mask >> site & 1) || !S.rng.p(S.p_fault * scale)) return Act{};
		return Act{ A_FAULT, *(errs.begin() + S.rng.below(errs.size())) };
	});
	if (a.k != A_FAULT) return 0;
	R->stat[st_fault[site]]++;
	if (a.arg > 0 && a.arg != EINTR) { cur->hard |= 1ULL << site; cur->hard_errno = (int) a.arg; cur->nhard++; }
	return (int) a.arg;
}

void do_act(Act a, ucontext_t *uc) {
	Thr *me = cur;
	switch (a.k) {
	case A_SW: {
		Thr *t = pick_runnable(a.arg, me);
		if (!t) return;
		st_sw.hit();
		place_ready(t, a.arg);
		switch_to(t);
		break;
	}
	case A_PRE: {
		Thr *t = pick_runnable(a.arg, me, true);
		int cpu = me->cpu;
		st_pre.hit();
		k_preempt(*me);
		if (t) { k_place(*t, cpu); switch_to(t); }
		else {
			t = pick_runnable(a.arg, me);
			if (t) switch_to(t); else k_place(*me, cpu);
		}
		break;
	}
	case A_RESCHED: {
		int cpu = me->cpu;
		st_res.hit();
		k_preempt(*me); k_place(*me, cpu);
		break;
	}
	case A_MIG: {
		st_mig.hit();
		int cpu = (int) ((u64) a.arg % S.ncpu);
		if (cpu == me->cpu) cpu = (cpu + 1) % S.ncpu;
		k_preempt(*me); k_place(*me, cpu);
		me->nmig++;
		break;
	}
	case A_SIG: {
		if (!S.signal_handler || me->in_sig) return;
		st_sig.hit();
		me->need_fixup = true; me->events++;
		k_resume(*me, uc);	// the kernel fixes the frame up before the handler runs
		me->in_sig = true;
		const Op *op = me->op; u32 save[S_NR]; memcpy(save, me->ctr, sizeof save);
		StepCtx *sc = me->sc; me->sc = nullptr;
		S.signal_handler(*me);
		me->sc = sc; me->last_rip = 0; me->op = op; memcpy(me->ctr, save, sizeof save);
		me->in_sig = false;
		break;
	}
	}
	// back on a CPU
	if (me->st != T_RUN) { __builtin_trap(); }
	k_resume(*me, uc);
}

void yield_point(int site) {
	if (++S.total - S.last_prog > S.cap) violate("no-progress", "no operation finished for a long time: thread %d op %d code %d", cur->id, cur->op ? cur->op->id : 0, cur->op ? cur->op->code : -1);
	if (cur == &S.mainthr || !S.sched_on) return;
	if (++cur->spin > 20000) {
		cur->spin = 0;
		Thr *t = pick_runnable(0, cur);
		if (t) { st_spin.hit(); Thr *me = cur; place_ready(t, 0x10); switch_to(t); if (me->st != T_RUN) __builtin_trap(); k_resume(*me, nullptr); }
		return;
	}
	Act a = decide_sched(site, site == S_OPB ? S.p_opb : S.p_yield);
	if (a.k) do_act(a, nullptr);
}

void progress() { S.last_prog = S.total; }
void op_begin(const Op &op) {
	cur->op = &op;
	memset(cur->ctr, 0, sizeof cur->ctr);
	R->opsdone++; progress();
	R->cur_tid = cur->id; R->cur_op = op.id;
	yield_point(S_OPB);
}
void op_end() {
	if (S.invariant) S.invariant();
}

void block_on(const void *what) {
	if (cur == &S.mainthr) violate("deadlock", "main context blocked");
	Thr *me = cur;
	st_block.hit();
	me->block_on = what;
	if (S.on_cpu[me->cpu] == me) S.on_cpu[me->cpu] = nullptr;
	me->st = T_BLOCKED; me->cid = -1; me->need_fixup = true; me->events++;
	reschedule_away();
	k_resume(*me, nullptr);
}
void wake_all(const void *what) {
	for (int i = 0; i < S.nthr; i++)
		if (S.th[i].st == T_BLOCKED && S.th[i].block_on == what) { S.th[i].st = T_READY; S.th[i].block_on = nullptr; }
}

// ------------------------------------------------------------ stepping
bool step_in_glue(u64 rip) { return rip >= (u64) sim_glue_begin && rip < (u64) sim_glue_end; }

void step_hook(ucontext_t *uc, bool sched) {
	u64 rip = (u64) uc->uc_mcontext.gregs[REG_RIP];
	int e = errno;
	if (wm_on) wm_post();
	if (S.step_oracle) S.step_oracle(*cur, rip);
	if (sched) {
		if (wm_on) wm_event();
		if (++S.total - S.last_prog > S.cap) violate("no-progress", "no operation finished for a long time: thread %d op %d", cur->id, cur->op ? cur->op->id : 0);
		if (S.sched_on) {
			Act a = decide_sched(S_STEP, cur->reg && cur->area->rseq_cs ? S.p_step * 4 : S.p_step);
			if (a.k) do_act(a, uc);
		} else cur->ctr[S_STEP]++;
		if (cur->need_fixup) k_resume(*cur, uc);
		cur->last_rip = (u64) uc->uc_mcontext.gregs[REG_RIP];
	} else cur->last_rip = 0;
	if (wm_on) wm_pre((u64) uc->uc_mcontext.gregs[REG_RIP]);
	errno = e;
}
static void trap_handler(int, siginfo_t *, void *ucv) { ucontext_t *uc = (ucontext_t *) ucv; step_hook(uc, !step_in_glue((u64) uc->uc_mcontext.gregs[REG_RIP])); }

int call_stepped(opfn fn, octx *c) { if (Guest *g = guest_of((u64) fn)) return emu_call(g, (u64) fn, c); return sim_step_call(fn, c); }

// ------------------------------------------------------------ plan files
static const char *actname[] = { "none", "switch", "preempt", "migrate", "signal", "resched", "fault", "memory" };
std::string plan_text(const Plan &p, const char *prop, const char *cls, const char *msg) {
	std::string o; char b[512];
	snprintf(b, sizeof b, "# librseq simulation replay file\n# violation: %s\nproperty %s\nclass %s\nscenario %s\nseed %llu\n", msg, prop, cls, p.scenario.c_str(), (unsigned long long) p.seed); o += b;
	for (auto &c : p.cfg) { snprintf(b, sizeof b, "cfg %s %lld\n", c.first.c_str(), (long long) c.second); o += b; }
	for (auto &x : p.ops) {
		snprintf(b, sizeof b, "op %d %d %d %d", x.id, x.tid, x.code, x.sig); o += b;
		for (int i = 0; i < 8; i++) { snprintf(b, sizeof b, " %lld", (long long) x.a[i]); o += b; }
		o += "\n";
	}
	for (auto &e : p.evs) {
		snprintf(b, sizeof b, "ev %d %d %s %u %s %lld\n", e.tid, e.opid, site_name[e.site], e.ctr, actname[e.act], (long long) e.arg); o += b;
	}
	return o;
}
bool plan_parse(const char *path, Plan &p, std::string &prop, std::string &cls) {
	FILE *f = fopen(path, "r"); if (!f) return false;
	char line[1024], w[64], w2[64]; p.replay = true;
	while (fgets(line, sizeof line, f)) {
		long long v; unsigned long long u;
		if (line[0] == '#') continue;
		if (sscanf(line, "property %63s", w) == 1) prop = p.prop = w;
		else if (sscanf(line, "class %63s", w) == 1) cls = w;
		else if (sscanf(line, "scenario %63s", w) == 1) p.scenario = w;
		else if (sscanf(line, "seed %llu", &u) == 1) p.seed = u;
		else if (sscanf(line, "cfg %63s %lld", w, &v) == 2) p.cfg[w] = v;
		else if (!strncmp(line, "op ", 3)) {
			Op o; long long a[8];
			if (sscanf(line, "op %d %d %d %d %lld %lld %lld %lld %lld %lld %lld %lld", &o.id, &o.tid, &o.code, &o.sig, a, a+1, a+2, a+3, a+4, a+5, a+6, a+7) == 12) {
				for (int i = 0; i < 8; i++) o.a[i] = a[i];
				p.ops.push_back(o);
			}
		} else if (!strncmp(line, "ev ", 3)) {
			Ev e; long long arg; unsigned ctr;
			if (sscanf(line, "ev %d %d %63s %u %63s %lld", &e.tid, &e.opid, w, &ctr, w2, &arg) == 6) {
				e.ctr = ctr; e.arg = arg; e.site = -1; e.act = 0;
				for (int i = 0; i < S_NR; i++) if (!strcmp(w, site_name[i])) e.site = i;
				for (int i = 0; i < 8; i++) if (!strcmp(w2, actname[i])) e.act = i;
				if (e.site >= 0) p.evs.push_back(e);
			}
		}
	}
	fclose(f);
	return !p.scenario.empty();
}

} // namespace sim
