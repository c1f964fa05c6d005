// Scenario "reg": threads register, unregister, query and race through the very
// first initialisation, over all libc / kernel combinations and failures.
#include "sim.h"
extern "C" {
int rseq_register_current_thread(void);
int rseq_unregister_current_thread(void);
int32_t rseq_fallback_current_cpu(void);
int32_t rseq_fallback_current_node(void);
bool rseq_available(unsigned int query);
extern ptrdiff_t rseq_offset; extern unsigned int rseq_size, rseq_flags;
}
namespace sim {
rseq_area *libc_area_of(u64 fs); ptrdiff_t libc_area_off();
bool unreg_fault_seen[MAXT + 1]; int unreg_fault_errno[MAXT + 1];
namespace {

enum { R_REG = 1, R_UNREG, R_QCPU, R_QRAW, R_QSTART, R_QNODE, R_QCID, R_FBCPU, R_FBNODE, R_AVK, R_AVL, R_AVNODE, R_AVCID, R_OP, R_TWICE, R_NR };
enum { M_OWN = 0, M_LIBC = 1 };
static const u32 SIG = 0x53053053;
__thread u8 canary1[192] = { 1, 2, 3 };		// neighbours of the thread's area
__thread u8 canary2[192];
static u64 tls_off(const void *p) { u64 self; asm("mov %%fs:0, %0" : "=r"(self)); return (u64) p - self; }
static u64 c1off, c2off;

static Plan *P; static const optab *T; static int mode; static u32 feat;
static bool ever_ok, ready; static bool skip_ctor;
static intptr_t counters[MAXCPU];
static Stat st_ok("reg:registered"), st_fail("reg:refused"), st_un("reg:unregistered"), st_unf("reg:unregister_failed"), st_libc("reg:libc_owned"), st_q("reg:queries"),
	st_qfb("reg:fallback_queries"), st_mig("reg:migrated_inside_query"), st_race("reg:first_registration_race"), st_big("reg:feature_size_above_32"), st_twice("reg:queried_twice_in_a_row"), st_dtor("reg:destructor_ran");

static rseq_area *own_area(Thr &t) { return (rseq_area *) (t.fs + rseq_offset); }
static u32 libc_rlen;

static bool fld_ok(u32 end) {	// does the kernel maintain the field for every registration of this process?
	u32 v = feat; if (mode == M_LIBC && libc_rlen < v) v = libc_rlen;
	return end <= v;
}

static void check_state(const char *where) {
	// what is advertised must hold for every registered thread, at all times
	if (!ready) return;
	if (mode == M_OWN) {
		if (rseq_flags != 0) violate("bad-flags", "rseq_flags is %u for a library-owned registration", rseq_flags);
		u64 ok = 0; for (int i = 0; i < S.nthr; i++) if (S.th[i].reg) ok++;
		if (!ever_ok && !ok && rseq_size != 0) violate("size-before-registration", "rseq_size is %u although no thread ever registered (%s)", rseq_size, where);
		if (rseq_size != 0 && rseq_size > feat) violate("size-too-large", "rseq_size %u exceeds the kernel feature size %u (%s)", rseq_size, feat, where);
		if (ever_ok && rseq_size != feat) violate("size-wrong", "rseq_size is %u after a successful registration, the kernel maintains %u (%s)", rseq_size, feat, where);
		if (rseq_size) for (int i = 0; i < S.nthr; i++) if (S.th[i].reg && rseq_size > S.th[i].rlen)
			violate("size-beyond-area", "rseq_size %u advertises fields beyond the %u bytes thread %d registered", rseq_size, S.th[i].rlen, i);
		for (int i = 0; i < S.nthr; i++) if (S.th[i].reg) {
			if (S.th[i].area != own_area(S.th[i])) violate("bad-offset", "published offset does not lead to the area of thread %d", i);
			for (int k = 0; k < i; k++) if (S.th[k].reg && S.th[k].area == S.th[i].area) violate("shared-area", "threads %d and %d share an area", k, i);
		}
	} else {
		if (W.nreg || W.nunreg) violate("libc-disturbed", "the library issued registration system calls although libc owns them");
		if (rseq_offset != W.libc_off) violate("bad-offset", "offset is not the one published by libc");
		if (rseq_flags != W.libc_flags) violate("bad-flags", "flags are not the ones published by libc");
		u32 v = feat < libc_rlen ? feat : libc_rlen;
		if (rseq_size > v) violate("size-too-large", "rseq_size %u, but only %u bytes are maintained (libc size %u, kernel %u)", rseq_size, v, W.libc_size, feat);
		if ((W.libc_size == 20 || W.libc_size == 32) && rseq_size != (feat < 32 ? feat : 32)) violate("size-wrong", "rseq_size %u for libc size %u and kernel feature size %u", rseq_size, W.libc_size, feat);
		if (W.libc_size != 20 && W.libc_size != 32 && rseq_size != W.libc_size) violate("size-wrong", "rseq_size %u for libc size %u", rseq_size, W.libc_size);
	}
	for (int i = 0; i < S.nthr; i++) {
		u8 *a = (u8 *) (S.th[i].fs + c1off), *b = (u8 *) (S.th[i].fs + c2off);
		for (int k = 0; k < 192; k++) if (a[k] != (k < 3 ? k + 1 : 0) || b[k]) violate("area-overflow", "the registered area of thread %d overlaps other thread-local data", i);
	}
}

static octx *twice_c[MAXT + 1]; static int twice_ph[MAXT + 1]; static i64 twice_to[MAXT + 1];
static void oracle(Thr &t, u64 rip) {
	octx *c = twice_c[t.id]; if (!c || step_in_glue(rip) || c->phase == twice_ph[t.id]) return;
	twice_ph[t.id] = c->phase;
	if (c->phase == 1 && twice_to[t.id] >= 0) do_act(Act{ A_MIG, twice_to[t.id] }, nullptr);
	if (c->phase == 2) { t.cpumask_seen = 1ULL << t.cpu; t.cidmask_seen = t.cid >= 0 ? 1ULL << t.cid : 0; }
}
static int qcall(void *f) { return call_stepped((opfn) f, nullptr); }

static void exec(const Op &o) {
	Thr &t = *cur;
	bool reg0 = t.reg; int cpu0 = t.cpu; u64 mig0 = t.nmig;
	t.cpumask_seen = 1ULL << t.cpu; t.cidmask_seen = t.cid >= 0 ? 1ULL << t.cid : 0;
	auto cpu_ok = [&](i64 c) { return c >= 0 && c < S.ncpu && (t.cpumask_seen >> c & 1); };
	auto node_ok = [&](i64 n) { for (int c = 0; c < S.ncpu; c++) if ((t.cpumask_seen >> c & 1) && S.node_of[c] == n) return true; return false; };
	(void) cpu0;
	switch (o.code) {
	case R_REG: {
		if (mode == M_OWN && reg0) return;	// registering twice is misuse
		u64 n0 = W.nreg; (void) n0;
		int exp_err = 0;
		if (mode == M_OWN) { if (S.nosys) exp_err = ENOSYS; else if (W.rseq_denied && (!W.rseq_deny_first || (int) W.nreg < W.rseq_deny_first)) exp_err = W.rseq_denied; }
		errno = 0;
		int r = rseq_register_current_thread(); int e = errno;
		trace_ev(1, t.id, (u64) (i64) r, exp_err);
		ready = true;
		if (r == 0) {
			if (!t.reg) violate("false-success", "registration returned 0 but the kernel does not have thread %d registered", t.id);
			if (mode == M_OWN) {
				st_ok.hit(); ever_ok = true;
				if (t.rsig != SIG) violate("bad-signature", "registered with signature %x", t.rsig);
				if (t.libc_reg) violate("bad-owner", "unexpected owner");
				if (rseq_size == 0) violate("size-wrong", "rseq_size is 0 after a successful registration");
			} else st_libc.hit();
			if (!t.area || t.area != own_area(t)) violate("bad-offset", "after registration the published offset does not lead to thread %d's area", t.id);
		} else {
			st_fail.hit();
			if (r != -1) violate("bad-return", "registration returned %d", r);
			if (t.reg) violate("false-failure", "registration returned -1 but the kernel has thread %d registered", t.id);
			if (!exp_err) violate("false-failure", "registration returned -1 (errno %d) although nothing prevented it", e);
			if (e != exp_err) violate("bad-errno", "registration failed with errno %d instead of the kernel's %d", e, exp_err);
		}
		if (r == 0 && exp_err) violate("false-success", "registration returned 0 although the kernel refused it");
		break;
	}
	case R_UNREG: {
		if (!ready) return;
		errno = 0; unreg_fault_seen[t.id] = false;
		int r = rseq_unregister_current_thread(); int e = errno;
		trace_ev(2, t.id, (u64) (i64) r, e);
		if (mode == M_LIBC) { if (r) violate("bad-return", "unregistering under libc ownership returned %d", r); if (!t.reg) violate("libc-disturbed", "libc's registration was removed"); return; }
		int want = S.nosys ? ENOSYS : !reg0 ? EINVAL : 0;
		if (unreg_fault_seen[t.id]) want = unreg_fault_errno[t.id];
		if (r == 0) {
			if (want) violate("false-success", "unregistration returned 0 although the kernel refused it (errno %d)", want);
			if (t.reg) violate("false-success", "unregistration returned 0 but thread %d is still registered", t.id);
			st_un.hit();
		} else {
			st_unf.hit();
			if (r != -1) violate("bad-return", "unregistration returned %d", r);
			if (!want) violate("cannot-unregister", "thread %d is registered (length %u) but cannot unregister (errno %d)", t.id, t.reg ? t.rlen : 0, e);
			if (e != want) violate("bad-errno", "unregistration failed with errno %d instead of the kernel's %d", e, want);
		}
		if (want && t.reg != reg0) violate("false-failure", "failed unregistration changed the registration");
		break;
	}
	case R_QCPU: {
		if (!ready) return;
		st_q.hit(); if (!reg0) st_qfb.hit();
		i64 c = (u32) qcall((void *) T->current_cpu);
		trace_ev(3, t.id, (u64) c);
		if (!cpu_ok(c)) violate("bad-cpu", "current CPU query returned %lld; the thread was on CPUs %llx during the call (registered %d)", (long long) c, (unsigned long long) t.cpumask_seen, (int) reg0);
		break;
	}
	case R_QRAW: {
		if (!ready) return;
		st_q.hit();
		i64 c = qcall((void *) T->current_cpu_raw);
		trace_ev(4, t.id, (u64) c);
		if (!reg0) { if (c >= 0) violate("bad-cpu", "raw CPU query returned %lld for an unregistered thread", (long long) c); }
		else if (!cpu_ok(c)) violate("bad-cpu", "raw CPU query returned %lld; the thread was on CPUs %llx during the call", (long long) c, (unsigned long long) t.cpumask_seen);
		break;
	}
	case R_QSTART: {
		if (!ready) return;
		st_q.hit();
		i64 c = (u32) qcall((void *) T->cpu_start);
		trace_ev(5, t.id, (u64) c);
		if (c < 0 || c >= S.ncpu) violate("bad-cpu", "CPU hint %lld is not a possible CPU", (long long) c);
		if (reg0 && !cpu_ok(c)) violate("bad-cpu", "CPU hint %lld; the thread was on CPUs %llx during the call", (long long) c, (unsigned long long) t.cpumask_seen);
		break;
	}
	case R_AVNODE: case R_AVCID: {
		u32 end = o.code == R_AVNODE ? 24 : 28;
		bool must = ready && fld_ok(end) && ((mode == M_OWN && ever_ok) || (mode == M_LIBC && (W.libc_size == 20 || W.libc_size == 32 || W.libc_size >= end)));
		int v = qcall(o.code == R_AVNODE ? (void *) T->node_id_available : (void *) T->mm_cid_available) & 0xff;
		trace_ev(6, t.id, v);
		if (v && !fld_ok(end)) violate("false-availability", "field ending at %u reported available; kernel maintains %u bytes", end, feat);
		if (v && !ready && mode == M_OWN && !W.nreg) violate("false-availability", "field reported available before any initialisation");
		if (v && mode == M_OWN && !ever_ok) { bool any = false; for (int i = 0; i < S.nthr; i++) any |= S.th[i].reg; if (!any) violate("false-availability", "field reported available without any successful registration"); }
		if (must && !v) violate("missing-availability", "field ending at %u not reported available (rseq_size %u, kernel %u)", end, rseq_size, feat);
		break;
	}
	case R_QNODE: {
		if (!ready || !reg0 || rseq_size < 24) return;
		st_q.hit();
		i64 n = qcall((void *) T->node_id);
		trace_ev(7, t.id, (u64) n);
		if (!node_ok(n)) violate("bad-node", "node query returned %lld", (long long) n);
		break;
	}
	case R_QCID: {
		if (!ready || !reg0 || rseq_size < 28) return;
		st_q.hit();
		i64 n = qcall((void *) T->mm_cid);
		trace_ev(8, t.id, (u64) n);
		if (n < 0 || n > 63 || !(t.cidmask_seen >> n & 1)) violate("bad-cid", "concurrency id query returned %lld, held %llx", (long long) n, (unsigned long long) t.cidmask_seen);
		break;
	}
	case R_TWICE: {
		int k = (int) (o.a[0] % 5); if (!ready || !reg0 || (k == 3 && rseq_size < 24) || (k == 4 && rseq_size < 28)) return;
		octx c; memset(&c, 0, sizeof c); twice_ph[t.id] = 0; twice_to[t.id] = o.a[0] & 8 ? -1 : o.a[0]; twice_c[t.id] = &c;
		call_stepped(T->twice[k], &c); twice_c[t.id] = nullptr; st_twice.hit();
		i64 v = k == 0 || k == 3 ? (i64) (i32) c.out[1] : (i64) (u32) c.out[1];
		trace_ev(11, t.id, (u64) v, (u64) c.out[0]);
		if (twice_ph[t.id] < 2) violate("harness", "the second query was not seen");
		if (k < 3 && !cpu_ok(v)) violate("stale-cpu", "the second of two CPU queries (kind %d) in a row returned %lld; the thread was on CPUs %llx since it was made", k, (long long) v, (unsigned long long) t.cpumask_seen);
		if (k == 3 && !node_ok(v)) violate("stale-node", "the second of two node queries in a row returned %lld", (long long) v);
		if (k == 4 && (v < 0 || v > 63 || !(t.cidmask_seen >> v & 1))) violate("stale-cid", "the second of two concurrency id queries in a row returned %lld, held %llx since it was made", (long long) v, (unsigned long long) t.cidmask_seen);
		break;
	}
	case R_FBCPU: {
		st_qfb.hit();
		i64 c = rseq_fallback_current_cpu();
		trace_ev(9, t.id, (u64) c);
		if (!cpu_ok(c)) violate("bad-cpu", "fallback CPU query returned %lld", (long long) c);
		break;
	}
	case R_FBNODE: {
		st_qfb.hit();
		u64 f0 = R->stat[stat_id("fault:getcpu")]; errno = 0;
		i64 n = rseq_fallback_current_node();
		int e = errno; bool faulted = R->stat[stat_id("fault:getcpu")] != f0;
		trace_ev(10, t.id, (u64) n);
		// another thread's failing call may have been counted meanwhile: negative is right only with an error pending
		if (n < 0) { if (!faulted || n != -1 || !e) violate("bad-node", "fallback node query returned %lld without a failure", (long long) n); }
		else if (!node_ok(n)) violate("bad-node", "fallback node query returned %lld", (long long) n);
		break;
	}
	case R_AVK: {
		bool v = rseq_available(0);
		if (v == S.nosys) violate("bad-availability", "kernel availability reported as %d", (int) v);
		if (t.reg != reg0) violate("bad-availability", "availability query changed the registration");
		break;
	}
	case R_AVL: {
		bool v = rseq_available(1);
		if (v != (mode == M_LIBC)) violate("bad-availability", "libc ownership reported as %d", (int) v);
		if (rseq_available(2 + (unsigned) (o.a[0] & 7)) != false) violate("bad-availability", "unknown query reported as available");
		break;
	}
	case R_OP: {
		if (!ready) return;
		int tries = 0;
		for (;;) {
			octx c; memset(&c, 0, sizeof c);
			u64 ev = t.events;
			int idx = (int) (u32) qcall((void *) T->cpu_start);
			if (idx < 0 || idx >= S.ncpu) violate("bad-cpu", "CPU hint %d is not a possible CPU", idx);
			c.cpu = idx; c.v = &counters[idx]; c.count = 1;
			intptr_t before = counters[idx];
			int r = call_stepped(T->fn[K_ADD][0][SH_SINGLE], &c);
			if (!reg0) { if (r != -1 || counters[idx] < before) violate("unreg-commit", "operation of an unregistered thread returned %d", r); break; }
			if (r == 0) break;
			if (t.events == ev) violate("spurious-abort", "operation of a registered thread aborted although nothing interrupted it");
			if (++tries > 200) break;
		}
		break;
	}
	}
	if (t.nmig != mig0) st_mig.hit();
}

static void run_reg(Plan &p) {
	P = &p; Sim &s = S;
	T = optabs[p.c("tab") % noptabs];
	s.ncpu = (int) p.c("ncpu", 2); s.feature = (u32) p.c("feature", 28); s.kalign = (u32) p.c("kalign", 32); s.rand_cid = p.c("randcid") != 0; s.nosys = p.c("nosys") != 0;
	feat = s.feature; if (feat > 32) st_big.hit();
	for (int i = 0; i < s.ncpu; i++) s.node_of[i] = (int) ((p.c("nodes") >> i) & 3);
	s.cap = 400000;
	s.p_step = p.c("p_step") * 1e-6; s.p_yield = p.c("p_yield") * 1e-6; s.p_opb = p.c("p_opb") * 1e-6;
	s.w_sw = (int) p.c("w_sw"); s.w_pre = (int) p.c("w_pre"); s.w_mig = (int) p.c("w_mig"); s.w_sig = 0; s.w_resched = 1;
	s.p_fault = p.c("p_fault") * 1e-6;
	s.fault_mask = (u64) p.c("fmask");
	W.aux_feature = s.feature <= 20 ? 0 : s.feature; W.aux_align = s.feature <= 20 ? 0 : s.kalign;
	mode = (int) p.c("libc");
	W.has_off = p.c("syms") & 1; W.has_size = p.c("syms") & 2; W.has_flags = p.c("syms") & 4;
	W.libc_off = libc_area_off(); W.libc_size = (u32) p.c("libc_size"); W.libc_flags = (u32) p.c("libc_flags");
	libc_rlen = (u32) p.c("libc_rlen", 32);
	W.rseq_denied = (int) p.c("denied"); W.rseq_deny_first = (int) p.c("deny_first");
	skip_ctor = p.c("noctor") != 0;
	c1off = tls_off(canary1); c2off = tls_off(canary2);
	if (!skip_ctor) { lib_ctor(); ready = true; check_state("after the constructor"); } else st_race.hit();
	s.invariant = [] { check_state("between operations"); };
	s.step_oracle = oracle;
	s.on_abort = [](const char *why) {
		// a failing sched_getcpu() cannot be reported otherwise
		if (cur->op && (cur->op->code == R_QCPU || cur->op->code == R_FBCPU) && R->stat[stat_id("fault:sched_getcpu")]) { cur->st = T_DONE; return true; }
		(void) why; return false;
	};
	int nthr = (int) p.c("nthr", 2);
	bool solo = W.rseq_deny_first != 0;
	static int solo_done; solo_done = !solo;
	for (int i = 0; i < nthr; i++) {
		Thr &t = spawn([i]() {
			if (i) while (!solo_done) block_on(&solo_done);
			for (auto &o : P->ops) if (o.tid == i) {
				op_begin(o); exec(o); op_end();
				if (!solo_done && (int) W.nreg >= W.rseq_deny_first) { solo_done = 1; wake_all(&solo_done); }
			}
			if (!solo_done) { solo_done = 1; W.rseq_denied = 0; wake_all(&solo_done); }
		}, (int) ((p.c("cpu0") >> (4 * i)) & 15) % s.ncpu);
		if (mode == M_LIBC) k_libc_register(t, libc_area_of(t.fs), libc_rlen, SIG);
	}
	run_threads();
	check_state("at the end");
	if (!p.c("dtor")) return;
	// The library's destructor runs at process end, before other code's that may still ask.
	st_dtor.hit(); bool was = ready; s.sched_on = false;
	lib_dtor();
	if (mode == M_LIBC) { if (was) check_state("after the library's destructor"); }
	else if (T->node_id_available() || T->mm_cid_available() || rseq_available(1)) violate("false-availability", "fields or libc ownership reported available after the library's destructor (rseq_size %u)", rseq_size);
}

static void gen_reg(Plan &p, Rng &r, const std::string &prop) {
	auto &c = p.cfg;
	int nthr = (int) r.range(1, 4), ncpu = (int) r.range(1, 6);
	c["nthr"] = nthr; c["ncpu"] = ncpu; c["tab"] = (i64) r.below(noptabs); c["randcid"] = r.p(0.5);
	c["nodes"] = (i64) r.below(1 << 12) & 0xaaa ? (i64) r.below(1 << 12) : 0;
	i64 feature = r.pick<i64>({ 20, 24, 28, 28, 28, 32, 33, 40, 64, 128, 1000, 1024 });
	c["feature"] = feature;
	i64 al = 32; while (al < feature) al *= 2; c["kalign"] = al;
	bool libc = r.p(0.35) && feature <= 64;
	c["libc"] = libc;
	if (libc) {
		c["syms"] = 7; c["libc_rlen"] = 32;
		c["libc_size"] = feature <= 32 ? r.pick<i64>({ 20, 32, 32, feature }) : r.pick<i64>({ 20, 32, feature, 24, 28 });
		if (c["libc_size"] > 32) c["libc_rlen"] = feature;
		c["libc_flags"] = r.p(0.3) ? (i64) r.below(8) : 0;
	} else {
		c["syms"] = r.p(0.4) ? 0 : (i64) r.below(8);
		c["libc_size"] = c["syms"] == 7 ? 0 : r.p(0.5) ? 0 : 32;
		c["libc_flags"] = 0;
		if (r.p(0.08)) c["nosys"] = 1;
		else if (r.p(0.15)) { c["denied"] = r.pick<i64>({ EPERM, EINVAL, ENOSYS, EBUSY, EFAULT, EACCES }); if (r.p(0.6)) c["deny_first"] = (i64) r.range(1, 3); }
	}
	c["dtor"] = r.p(0.5);
	c["noctor"] = r.p(prop == "C10" ? 0.6 : 0.25);
	c["cpu0"] = (i64) r.below(1 << 16);
	c["p_step"] = r.pick<i64>({ 10000, 60000, 200000 }); c["p_yield"] = r.pick<i64>({ 5000, 40000, 150000, 400000 }); c["p_opb"] = r.pick<i64>({ 50000, 300000 });
	c["w_sw"] = (i64) r.range(1, 4); c["w_pre"] = (i64) r.below(4); c["w_mig"] = (i64) r.below(prop == "C12" ? 6 : 3);
	if (r.p(prop == "C12" || prop == "C09" ? 0.5 : 0.2)) { c["p_fault"] = r.pick<i64>({ 50000, 300000 }); c["fmask"] = (i64) ((1ULL << S_F_GETCPU) | (r.p(0.3) ? 1ULL << S_F_SCHEDGETCPU : 0) | (r.p(0.6) ? 1ULL << S_F_RSEQ : 0)); }
	int id = 1;
	for (int t = 0; t < nthr; t++) {
		int n = (int) r.range(1, 10);
		if (t == 0 && c["deny_first"]) for (int i = 0; i < c["deny_first"]; i++) { Op o; o.id = id++; o.tid = t; o.code = R_REG; p.ops.push_back(o); }
		bool first = r.p(0.7);
		for (int i = 0; i < n; i++) {
			Op o; o.id = id++; o.tid = t;
			double w = (r.next() >> 11) * (1.0 / 9007199254740992.0);
			double pr = prop == "C12" ? 0.15 : 0.3;
			if (i == 0 && first) o.code = R_REG;
			else if (w < pr) o.code = R_REG;
			else if (w < 2 * pr) o.code = R_UNREG;
			else o.code = (int) r.range(R_QCPU, R_NR - 1);
			o.a[0] = (i64) r.below(64);
			p.ops.push_back(o);
		}
	}
}
static RegSc reg_reg(Scenario{ "reg", gen_reg, run_reg });
} // namespace
} // namespace sim
