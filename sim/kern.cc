// Simulated kernel: CPUs, concurrency ids and the rseq system call and its
// interrupt-time fix-up (modelled on kernel/rseq.c).
#include "sim.h"
#include "emu.h"
#include <unistd.h>
#include <sys/syscall.h>

#include <fcntl.h>
extern "C" { extern char __executable_start[], etext[]; extern char __start___rseq_failure[] __attribute__((weak)), __stop___rseq_failure[] __attribute__((weak)); }
namespace sim {
int k_pipe[2] = { -1, -1 };
void k_init_process() { if (pipe(k_pipe)) { perror("pipe"); exit(2); } }

static Stat st_fix("k:fixup"), st_abort("k:abort_in_cs"), st_clear("k:stale_cs_cleared"), st_fence("k:fence_hit");

enum { ORIG = 32 };

u64 k_unload_lo[8], k_unload_hi[8]; int k_nunload;
void k_mark_unloaded(u64 a, u64 b) { if (k_nunload < 8) { k_unload_lo[k_nunload] = a; k_unload_hi[k_nunload++] = b; } }
static bool unloaded(u64 a) { for (int i = 0; i < k_nunload; i++) if (a >= k_unload_lo[i] && a < k_unload_hi[i]) return true; return false; }

// copy_from_user
static bool ucopy(void *dst, u64 src, size_t n) {
	if (unloaded(src) || unloaded(src + n - 1)) return false;
	if (guest_now && src >= guest_now->img_lo && src + n <= guest_now->img_hi) { memcpy(dst, (void *) src, n); return true; }
	if (src >= (u64) __executable_start && src + n <= (u64) etext) { memcpy(dst, (void *) src, n); return true; }
	if (src >= (u64) __start___rseq_failure && src + n <= (u64) __stop___rseq_failure) { memcpy(dst, (void *) src, n); return true; }
	if (syscall(SYS_write, k_pipe[1], src, n) != (ssize_t) n) {
		char junk[64]; // drain a partial write
		fcntl(k_pipe[0], F_SETFL, O_NONBLOCK); while (read(k_pipe[0], junk, sizeof junk) > 0) { }
		return false;
	}
	return read(k_pipe[0], dst, n) == (ssize_t) n;
}
// Same, for descriptors: those of this process' own tables are known mapped.
static bool ucopy_fast(void *dst, u64 src, size_t n) {
	if (src >= (u64) sim_rseq_cs_begin() && src + n <= (u64) sim_rseq_cs_end() && !unloaded(src)) { memcpy(dst, (void *) src, n); return true; }
	return ucopy(dst, src, n);
}

static void assign_cid(Thr &t) {
	u64 used = 0;
	for (int i = 0; i < S.nthr; i++)
		if (&S.th[i] != &t && S.th[i].st == T_RUN && S.th[i].cid >= 0) used |= 1ULL << S.th[i].cid;
	int n = S.nthr < S.ncpu ? S.nthr : S.ncpu; if (n < 1) n = 1;
	int start = S.rand_cid ? (int) (mix(S.plan->seed, S.total * 31 + t.id) % n) : 0;
	for (int i = 0; i < n; i++) {
		int c = (start + i) % n;
		if (!(used >> c & 1)) { t.cid = c; break; }
	}
	t.cidmask_seen |= 1ULL << t.cid;
}

void k_preempt(Thr &t) {
	if (t.st == T_RUN && t.cpu >= 0 && S.on_cpu[t.cpu] == &t) S.on_cpu[t.cpu] = nullptr;
	t.st = T_READY; t.cid = -1; t.need_fixup = true; t.events++;
}
void k_place(Thr &t, int cpu) {
	Thr *o = S.on_cpu[cpu];
	if (o && o != &t) k_preempt(*o);
	if (t.st == T_RUN && t.cpu >= 0 && S.on_cpu[t.cpu] == &t) S.on_cpu[t.cpu] = nullptr;
	t.st = T_RUN; t.cpu = cpu; S.on_cpu[cpu] = &t; t.need_fixup = true;
	t.cpumask_seen |= 1ULL << cpu;
	assign_cid(t);
	if (t.events == 0) t.events = 1;
}

void k_update_area(Thr &t) {
	if (!t.reg) return;
	t.area->cpu_id_start = (u32) t.cpu; t.area->cpu_id = (u32) t.cpu;
	if (S.feature >= 24) t.area->node_id = (u32) S.node_of[t.cpu];
	if (S.feature >= 28) t.area->mm_cid = (u32) t.cid;
	// fields of kernels to come
	u32 end = S.feature < t.rlen ? S.feature : t.rlen;
	if (end > 32 && t.rlen > 32) memset((u8 *) t.area + 28, 0x80 + t.id, end - 28);
}

static void killed(Thr &t, const char *why) {
	violate("killed", "kernel kills thread %d: %s (op %d code %d)", t.id, why, t.op ? t.op->id : 0, t.op ? t.op->code : -1);
}

struct cs_desc { u32 version, flags; u64 start, off, abort_ip; };

static void ip_fixup(Thr &t, u64 *ip) {
	u64 p = t.area->rseq_cs;
	if (!p) return;
	cs_desc d;
	const u64 TS = 0x7ffffffff000ULL;
	if (p >= TS) killed(t, "descriptor pointer out of range");
	if (!ucopy_fast(&d, p, sizeof d)) killed(t, "descriptor not readable");
	if (d.start >= TS || d.start + d.off >= TS || d.abort_ip >= TS || d.version) killed(t, "descriptor fields invalid");
	if (d.start + d.off < d.start) killed(t, "descriptor range wraps");
	if (d.abort_ip - d.start < d.off) killed(t, "abort address inside the critical section");
	u32 sig;
	if (!ucopy(&sig, d.abort_ip - 4, 4)) killed(t, "signature not readable");
	if (guest_now && guest_now->be) sig = __builtin_bswap32(sig);
	if (sig != (guest_now ? guest_now->sig : t.rsig)) killed(t, "signature before the abort address does not match the registered one");
	u64 where = ip ? *ip : 0;
	if (!ip || where - d.start >= d.off) { t.area->rseq_cs = 0; st_clear.hit(); return; }
	if (d.flags) killed(t, "descriptor flags unsupported");
	t.area->rseq_cs = 0;
	*ip = d.abort_ip;
	t.aborts++;
	st_abort.hit();
	trace_ev(0xab047, t.id, t.op ? t.op->id : 0, t.ctr[S_STEP]);
}

void k_resume(Thr &t, ucontext_t *uc) {
	if (!t.need_fixup) return;
	t.need_fixup = false;
	if (!t.reg) return;
	st_fix.hit();
	u64 ip = uc ? (u64) uc->uc_mcontext.gregs[REG_RIP] : 0;
	ip_fixup(t, uc ? &ip : nullptr);
	if (uc) uc->uc_mcontext.gregs[REG_RIP] = (greg_t) ip;
	k_update_area(t);
}

void k_fence(int cpu) {
	for (int c = 0; c < S.ncpu; c++) {
		if (cpu >= 0 && c != cpu) continue;
		Thr *t = S.on_cpu[c];
		if (t && t != cur) { t->need_fixup = true; t->events++; st_fence.hit(); }
	}
}

void k_libc_register(Thr &t, rseq_area *a, u32 len, u32 sig) {
	t.reg = true; t.libc_reg = true; t.area = a; t.rlen = len; t.rsig = sig;
	a->rseq_cs = 0; a->flags = 0;
	if (t.st == T_RUN) k_update_area(t); else t.need_fixup = true;
}

long k_rseq(Thr &t, rseq_area *a, u32 len, int flags, u32 sig) {
	if (S.nosys) return -ENOSYS;
	if (flags & 1) {
		if (flags & ~1) return -EINVAL;
		if (!t.reg || t.area != a) return -EINVAL;
		if (len != t.rlen) return -EINVAL;
		if (sig != t.rsig) return -EPERM;
		a->cpu_id_start = 0; a->cpu_id = (u32) -1;
		if (S.feature >= 24) a->node_id = 0;
		if (S.feature >= 28) a->mm_cid = 0;
		t.reg = false; t.area = nullptr; t.libc_reg = false;
		return 0;
	}
	if (flags) return -EINVAL;
	if (t.reg) {
		if (t.area != a || len != t.rlen) return -EINVAL;
		if (sig != t.rsig) return -EPERM;
		return -EBUSY;
	}
	if (len < ORIG || (len == ORIG && ((u64) a & 31)) ||
	    (len != ORIG && (((u64) a & (S.kalign - 1)) || len < S.feature))) return -EINVAL;
	if (!a) return -EFAULT;
	t.reg = true; t.libc_reg = false; t.area = a; t.rlen = len; t.rsig = sig;
	a->rseq_cs = 0;
	if (t.st == T_RUN) { if (t.cid < 0) assign_cid(t); k_update_area(t); }
	return 0;
}

} // namespace sim

extern "C" { extern char __start___rseq_cs[] __attribute__((weak)), __stop___rseq_cs[] __attribute__((weak)); }
namespace sim { const void *sim_rseq_cs_begin() { return __start___rseq_cs; } const void *sim_rseq_cs_end() { return __stop___rseq_cs; } }
