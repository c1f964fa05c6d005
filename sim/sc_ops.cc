// Scenario "ops": threads, signal handlers and a memory manager run the real
// restartable-sequence operations one machine instruction at a time. After every
// instruction all shared memory is compared with a shadow copy, and each change
// must be the documented effect of the operation in flight at that instant.
#include "sim.h"
#include "emu.h"
#include <sys/uio.h>
#include <unistd.h>
#include <sys/mman.h>
#include <algorithm>
extern "C" {
int rseq_register_current_thread(void);
int rseq_unregister_current_thread(void);
extern ptrdiff_t rseq_offset; extern unsigned int rseq_size;
extern u_int64_t __start___rseq_cs_ptr_array[] __attribute__((weak)), __stop___rseq_cs_ptr_array[] __attribute__((weak));
extern u_int64_t __start___rseq_exit_point_array[] __attribute__((weak)), __stop___rseq_exit_point_array[] __attribute__((weak));
}
namespace sim {

alignas(64) __thread u8 libc_area[64];
rseq_area *libc_area_of(u64 fs) { u64 self; asm("mov %%fs:0, %0" : "=r"(self)); return (rseq_area *) (fs + ((u64) libc_area - self)); }
ptrdiff_t libc_area_off() { u64 self; asm("mov %%fs:0, %0" : "=r"(self)); return (ptrdiff_t) ((u64) libc_area - self); }

namespace {

enum { C_PUSH = 100, C_MGR, C_REG, C_UNREG, C_RAW };
enum { NSLOT = 14, NNODE = 12, NBLK = 40 };
static u64 BASE = 0x0e0000000000ULL;
#define NODE_BASE (BASE + (1 << 20))
#define BLK_BASE (BASE + (2 << 20))
static const u64 PGSZ = 4096;
// A 32-bit guest uses the low half of each word; the other one stays zero.
static bool W32;
static inline intptr_t nar(intptr_t v) { return W32 ? (intptr_t) (u32) v : v; }
#define BIG nar(0x123456789abLL)
static const u32 SIG = 0x53053053;

static const char KNOWN_CID0[] = "unregistered-cid-index-0";
struct Slot {
	intptr_t w[4];
	intptr_t x[4];		// second words
	intptr_t head[3];	// lists: next at 0 (sentinel end), 8 (null end), 24 (sentinel end)
	intptr_t pw;		// indirect add: pointer to block
	intptr_t bidx;		// copy: index word
	intptr_t g0;
	u8 buf[192];
	u8 guard[512 - 14 * 8 - 192];
};
static_assert(sizeof(Slot) == 512, "slot");
static_assert(offsetof(Slot, buf) + 16 - offsetof(Slot, bidx) == SH_V_OFF && offsetof(Slot, x) - offsetof(Slot, w) == SH_V_2ND, "optu.c");
struct Priv { u8 src[192]; intptr_t load[4]; u8 guard[32]; };
struct Mem { Slot s[2][NSLOT]; Priv p[MAXT][2]; };
static_assert(sizeof(Mem) < (1 << 20), "mem");

static Mem *M, *SH;
struct Cell { intptr_t f[8]; };		// node or block content
static Cell nsh[NNODE + 1], bsh[NBLK];
enum NState { N_FREE, N_LIST, N_POPPED };
static int nstate[NNODE + 1]; static bool nretired[NNODE + 1], bretired[NBLK]; static int bused;
static bool retire_nodes;
static Cell *node(int i) { return (Cell *) (NODE_BASE + i * PGSZ); }
static Cell *blk(int i) { return (Cell *) (BLK_BASE + i * PGSZ); }
static const int SENT = NNODE;		// sentinel node, never retired
static const long voff[3] = { 0, 8, 24 };
static intptr_t list_end(int l) { return l == 1 ? 0 : l == 2 ? (intptr_t) node(0) ^ (1LL << (W32 ? 29 : 41)) : (intptr_t) node(SENT); }	// 2: an end mark like a node's address but for one bit

static const optab *T; static Plan *P; static int K_tab;
static std::set<u64> cs_set, cs_copies; static std::set<std::pair<u64, u64>> exits;
static bool chk_tables;
static u64 serial;
static std::set<int> sig_done;
static int n_unprep; static bool unload_phase;

// Old pointer values still allowed for indirect adds, per slot, until a fence ends.
static std::vector<intptr_t> oldptr[2][NSLOT];

static Stat st_ok("op:success"), st_abort("op:aborted"), st_mis("op:mismatch"), st_midab("op:abort_inside_sequence"), st_wrong("op:wrong_index"), st_unreg("op:unregistered"),
	st_sigop("op:in_signal_handler"), st_pop("op:pop"), st_retire("op:memory_retired"), st_unload("op:interrupt_after_unload"), st_exit("op:exit_point_taken"), st_len0("op:zero_length_copy"), st_alias("op:one_value_in_several_arguments");

} // namespace

struct StepCtx {
	octx c;
	int k, mode, shape; bool supported;
	int lastphase = 0;
	// attempt
	int commits = 0; bool spec = false; bool mismatch = false, idx_ok = false, idx_bad = false, excused = false;
	u64 ev0 = 0; bool unreg = false;
	int depth = 0;
	int natt = 0;
};
// Is this the final store of a release operation in progress?
bool ops_release_commit(u64 a) {
	StepCtx *s = cur->sc; if (!s || !(s->c.phase & 1) || a != (u64) s->c.v) return false;
	return s->shape == SH_RUNTIME ? s->c.mo == 3 : s->k == K_STORE2_REL || s->k == K_MEMCPY_REL;
}

namespace {

static inline intptr_t *shadow_of(const void *a) {
	u64 p = (u64) a;
	if (p >= (u64) M && p < (u64) M + sizeof(Mem)) return (intptr_t *) ((u8 *) SH + (p - (u64) M));
	if (p >= NODE_BASE && p < NODE_BASE + (NNODE + 1) * PGSZ) { u64 i = (p - NODE_BASE) / PGSZ, o = (p - NODE_BASE) % PGSZ; if (o < sizeof(Cell) && !nretired[i]) return (intptr_t *) ((u8 *) &nsh[i] + o); }
	if (p >= BLK_BASE && p < BLK_BASE + NBLK * PGSZ) { u64 i = (p - BLK_BASE) / PGSZ, o = (p - BLK_BASE) % PGSZ; if (o < sizeof(Cell) && !bretired[i]) return (intptr_t *) ((u8 *) &bsh[i] + o); }
	return nullptr;
}
static void hwrite(intptr_t *p, intptr_t v) { *p = v; *shadow_of(p) = v; }	// harness write

static bool is_retired(u64 a) {
	if (a >= NODE_BASE && a < NODE_BASE + (NNODE + 1) * PGSZ) return nretired[(a - NODE_BASE) / PGSZ];
	if (a >= BLK_BASE && a < BLK_BASE + NBLK * PGSZ) return bretired[(a - BLK_BASE) / PGSZ];
	return false;
}
static void set_page(u64 a, bool on) { mprotect((void *) a, PGSZ, on ? PROT_READ | PROT_WRITE : PROT_NONE); }

static bool index_matches(Thr &t, StepCtx *s) {
	return (s->mode == 0 ? t.cpu : t.cid) == s->c.acpu;
}

// Does the operation's comparison hold on the shadow memory right now?
static bool pre_holds(StepCtx *s, intptr_t *cur_v = nullptr) {
	octx &c = s->c;
	intptr_t *sv = shadow_of(c.v); if (!sv) return false;
	if (cur_v) *cur_v = *sv;
	switch (s->k) {
	case K_CBNE_STORE: case K_STORE2: case K_STORE2_REL: case K_MEMCPY: case K_MEMCPY_REL: return *sv == c.expect;
	case K_CBNE2: { intptr_t *s2 = shadow_of(c.v2); return *sv == c.expect && s2 && *s2 == c.expect2; }
	case K_POP: return *sv != c.expect;
	default: return true;
	}
}

static int slot_of(StepCtx *s) { u64 o = (u64) s->c.v - (u64) &M->s[s->mode][0]; return (int) (o / sizeof(Slot)); }

static bool is_head(StepCtx *s) { u64 o = ((u64) s->c.v - (u64) &M->s[0][0]) % sizeof(Slot); return o >= offsetof(Slot, head) && o < offsetof(Slot, pw); }
static void check_commit(Thr &t, StepCtx *s, intptr_t oldv, intptr_t newv, intptr_t *addr) {
	octx &c = s->c;
	const char *tn = T->name;
	if (!s->supported) violate("unsupported-commit", "operation %d with unsupported mode or memory order stored to memory [%s]", s->k, tn);
	if (!t.reg) {
		if (s->mode == 1 && c.acpu == 0) { snprintf(R->known, sizeof R->known, "%s", KNOWN_CID0); s->excused = true; }
		else violate("unreg-commit", "operation %d stored to memory for an unregistered thread (mode %d index %d) [%s]", s->k, s->mode, c.acpu, tn);
	} else if (!index_matches(t, s))
		violate("wrong-index", "operation %d committed with index %d while the thread is on cpu %d / cid %d (mode %d) [%s]", s->k, c.acpu, t.cpu, t.cid, s->mode, tn);
	if (s->commits++) violate("double-commit", "operation %d stored its final value twice in one attempt [%s]", s->k, tn);
	if (s->excused) return;
	if (!pre_holds(s)) violate("lost-update", "operation %d (mode %d shape %d) committed although the comparison no longer held [%s]", s->k, s->mode, s->shape, tn);
	intptr_t want = 0;
	switch (s->k) {
	case K_ADD: want = nar((intptr_t) ((u64) oldv + (u64) c.count)); break;
	case K_LLADD: want = nar((intptr_t) ((u64) oldv + (u64) c.count)); break;
	case K_POP: {
		intptr_t *nx = shadow_of((void *) (oldv + c.voffp));
		if (!nx) violate("bad-value", "pop removed something that is not a live node [%s]", tn);
		want = *nx;
		intptr_t *ld = shadow_of(c.load);
		if (*ld != oldv) violate("incomplete-publish", "pop committed before the popped pointer was stored [%s]", tn);
		if (newv == want) {
			u64 i = ((u64) oldv - NODE_BASE) / PGSZ;
			if ((u64) oldv != (u64) node((int) i) || i >= NNODE || nstate[i] != N_LIST) violate("lost-update", "pop returned node %llu which is not on a list [%s]", (unsigned long long) i, tn);
			nstate[i] = N_POPPED; st_pop.hit();
		}
		break;
	}
	default: want = c.newv; break;
	}
	if (s->k == K_CBNE_STORE && is_head(s) && (u64) newv >= NODE_BASE && (u64) newv < (u64) node(NNODE)) nstate[((u64) newv - NODE_BASE) / PGSZ] = N_LIST;
	if (newv != want) violate("bad-value", "operation %d (mode %d shape %d) stored %llx, expected %llx [%s]", s->k, s->mode, s->shape, (unsigned long long) newv, (unsigned long long) want, tn);
	if (s->k == K_STORE2 || s->k == K_STORE2_REL) {
		if (*shadow_of(c.v2) != c.newv2) violate("incomplete-publish", "second word not stored when the commit became visible [%s]", tn);
	} else if (s->k == K_MEMCPY || s->k == K_MEMCPY_REL) {
		if (c.len && memcmp(shadow_of(c.dst), c.src, c.len)) violate("incomplete-publish", "copied block incomplete when the commit became visible (len %zu) [%s]", (size_t) c.len, tn);
		if (!c.len) st_len0.hit();
	}
	(void) addr;
}

static void check_spec(Thr &t, StepCtx *s) {
	if (s->excused) return;
	if (!s->supported) violate("unsupported-commit", "operation %d with unsupported mode or memory order stored to memory [%s]", s->k, T->name);
	if (!t.reg) {
		if (s->mode == 1 && s->c.acpu == 0) { snprintf(R->known, sizeof R->known, "%s", KNOWN_CID0); s->excused = true; return; }
		violate("unreg-commit", "operation %d wrote memory for an unregistered thread [%s]", s->k, T->name);
	}
	if (!index_matches(t, s)) violate("wrong-index", "operation %d wrote to slot %d's memory while on cpu %d / cid %d (mode %d) [%s]", s->k, s->c.acpu, t.cpu, t.cid, s->mode, T->name);
	if (!pre_holds(s)) violate("spec-write", "operation %d wrote its destination although the comparison does not hold [%s]", s->k, T->name);
	s->spec = true;
}

static void word_changed(Thr &t, StepCtx *s, intptr_t *addr, intptr_t oldv, intptr_t newv, intptr_t *shp) {
	octx &c = s->c;
	bool commit = false;
	if (s->k == K_LLADD) {
		// the final store goes through two pointers
		auto target = [&](intptr_t p) -> intptr_t * { intptr_t *pp = shadow_of((void *) (p + c.voffp)); return pp ? (intptr_t *) *pp : nullptr; };
		intptr_t *sv = shadow_of(c.v);
		commit = sv && target(*sv) == addr;
		if (!commit) for (intptr_t o : oldptr[s->mode][slot_of(s)]) if (target(o) == addr) commit = true;
		if (!commit) violate("stray-write", "indirect add wrote to memory not reached through the current pointer [%s]", T->name);
	} else if (addr == c.v) commit = true;
	if (commit) { check_commit(t, s, oldv, newv, addr); *shp = newv; return; }
	if (s->k == K_POP && addr == c.load) {
		check_spec(t, s);
		if (newv != *shadow_of(c.v) && !s->excused) violate("bad-value", "pop stored a wrong loaded value [%s]", T->name);
		*shp = newv; return;
	}
	if ((s->k == K_STORE2 || s->k == K_STORE2_REL) && addr == c.v2) {
		check_spec(t, s);
		if (newv != c.newv2) violate("bad-value", "second word got %llx instead of %llx [%s]", (unsigned long long) newv, (unsigned long long) c.newv2, T->name);
		*shp = newv; return;
	}
	if (s->k == K_MEMCPY || s->k == K_MEMCPY_REL) {
		u8 *n = (u8 *) &newv, *o = (u8 *) &oldv;
		for (int b = 0; b < 8; b++) if (n[b] != o[b]) {
			u64 a = (u64) addr + b;
			if (a - (u64) c.dst >= c.len) violate("stray-write", "copy operation wrote outside its destination (offset %lld, len %zu) [%s]", (long long) (a - (u64) c.dst), (size_t) c.len, T->name);
			if (n[b] != (u8) c.src[a - (u64) c.dst]) violate("bad-value", "copy operation wrote a wrong byte [%s]", T->name);
		}
		check_spec(t, s);
		*shp = newv; return;
	}
	violate("stray-write", "operation %d wrote memory it has no business with (mode %d shape %d) [%s]", s->k, s->mode, s->shape, T->name);
}

static void attempt_end(Thr &t, StepCtx *s) {
	int r = s->c.ret; const char *tn = T->name;
	bool ev = t.events != s->ev0;
	trace_ev(0x0b, s->k, (u64) (i64) r, s->commits);
	if (s->excused) return;
	if (s->unreg && s->mode == 1 && s->c.acpu == 0 && s->supported && r == 1) { snprintf(R->known, sizeof R->known, "%s", KNOWN_CID0); return; }
	if (r == 0) {
		st_ok.hit();
		if (s->commits != 1) violate("lost-effect", "operation %d (mode %d shape %d) returned 0 without storing [%s]", s->k, s->mode, s->shape, tn);
	} else if (r == 1) {
		st_mis.hit();
		if (s->commits) violate("effect-on-failure", "operation %d returned 1 after storing [%s]", s->k, tn);
		if (s->spec) violate("effect-on-failure", "operation %d returned 1 after writing its destination [%s]", s->k, tn);
		if (!s->mismatch) violate("false-mismatch", "operation %d (mode %d shape %d) returned 1 but the comparison held throughout [%s]", s->k, s->mode, s->shape, tn);
		if (!s->supported || s->unreg) violate("bad-return", "operation %d returned 1 for an unregistered thread or unsupported request [%s]", s->k, tn);
		if (!s->idx_ok) violate("bad-return", "operation %d returned 1 although the index never matched [%s]", s->k, tn);
		if (s->k == K_ADD || s->k == K_LLADD) violate("bad-return", "add operation %d returned 1 [%s]", s->k, tn);
	} else if (r == -1) {
		st_abort.hit();
		if (s->commits) violate("effect-on-failure", "operation %d (mode %d shape %d) returned -1 after storing [%s]", s->k, s->mode, s->shape, tn);
		if (s->supported && !s->unreg && !ev && !s->idx_bad) violate("spurious-abort", "operation %d (mode %d shape %d) returned -1 although nothing interrupted it and the index was right [%s]", s->k, s->mode, s->shape, tn);
	} else violate("bad-return", "operation %d returned %d [%s]", s->k, r, tn);
}

struct csd { u32 v, f; u64 start, off, abort; };
static const csd *cs_desc_of(Thr &t) {
	if (!t.reg || !t.area->rseq_cs) return nullptr;
	return (csd const *) t.area->rseq_cs;
}

// Some architectures use a copy of the listed descriptor that lies near the code: the section is listed all the same.
static bool listed_copy(const csd *d) {
	for (u64 q : cs_set) {
		csd x; struct iovec l = { &x, sizeof x }, r = { (void *) q, sizeof x };
		if (process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t) sizeof x && x.start == d->start && x.off == d->off && x.abort == d->abort && x.v == d->v && x.f == d->f) return true;
	}
	return false;
}
static void check_tables(Thr &t, u64 rip) {
	const csd *d = cs_desc_of(t);
	if (!d) return;
	if (!cs_set.count((u64) d) && !cs_copies.count((u64) d)) { if (!listed_copy(d)) violate("unlisted-section", "critical section descriptor in use is not in the descriptor pointer table [%s]", T->name); cs_copies.insert((u64) d); }
	u64 prev = t.last_rip;
	if (prev && prev - d->start < d->off && rip - d->start >= d->off) {
		if (rip == d->start + d->off || rip == d->abort) return;
		st_exit.hit();
		if (!exits.count({ d->start, rip })) violate("unlisted-exit", "critical section left through an address that is not a listed exit point (operation %d) [%s]", t.sc ? t.sc->k : -1, T->name);
	}
}

static void oracle(Thr &t, u64 rip) {
	StepCtx *s = t.sc;
	if (chk_tables) check_tables(t, rip);
	bool in = false;
	if (s) {
		if (s->c.phase != s->lastphase) {
			if (s->c.phase & 1) {
				s->commits = 0; s->spec = s->mismatch = s->idx_ok = s->idx_bad = s->excused = false; s->ev0 = t.events; s->unreg = !t.reg; s->natt++;
			}
		}
		in = (s->c.phase & 1) != 0;
	}
	// what did this instruction change?
	if (memcmp(M, SH, sizeof(Mem))) {
		intptr_t *a = (intptr_t *) M, *b = (intptr_t *) SH;
		// destinations before the final store, should one instruction do both
		for (int pass = 0; pass < 2; pass++)
			for (size_t i = 0; i < sizeof(Mem) / 8; i++) if (a[i] != b[i]) {
				if (!s || !in) violate("stray-write", "shared memory changed outside of an operation (thread %d op %d) [%s]", t.id, t.op ? t.op->id : 0, T->name);
				if (pass == 0 && &a[i] == s->c.v) continue;
				word_changed(t, s, &a[i], b[i], a[i], &b[i]);
			}
	}
	for (int i = 0; i <= NNODE; i++) if (!nretired[i] && memcmp(node(i), &nsh[i], sizeof(Cell))) {
		if (!s || !in) violate("stray-write", "node changed outside of an operation [%s]", T->name);
		for (int k = 0; k < 8; k++) if (node(i)->f[k] != nsh[i].f[k]) word_changed(t, s, &node(i)->f[k], nsh[i].f[k], node(i)->f[k], &nsh[i].f[k]);
	}
	for (int i = 0; i < bused; i++) if (!bretired[i] && memcmp(blk(i), &bsh[i], sizeof(Cell))) {
		if (!s || !in) violate("stray-write", "block changed outside of an operation [%s]", T->name);
		for (int k = 0; k < 8; k++) if (blk(i)->f[k] != bsh[i].f[k]) word_changed(t, s, &blk(i)->f[k], bsh[i].f[k], blk(i)->f[k], &bsh[i].f[k]);
	}
	if (t.reg && !t.need_fixup && (t.area->cpu_id != (u32) t.cpu || (S.feature >= 28 && t.area->mm_cid != (u32) t.cid)))
		violate("area-corrupt", "operation overwrote the registered area's kernel-maintained fields [%s]", T->name);
	if (s) {
		if (in) {
			if (!s->mismatch && !s->commits && !pre_holds(s)) s->mismatch = true;
			if (t.reg && index_matches(t, s)) s->idx_ok = true; else s->idx_bad = true;
			if (!t.reg) s->unreg = true;
		} else if (s->c.phase != s->lastphase && s->c.phase) attempt_end(t, s);
		s->lastphase = s->c.phase;
	}
}

static rseq_area *lib_area(Thr &t) { return (rseq_area *) (t.fs + rseq_offset); }

// ------------------------------------------------------------ executing plan operations
static std::set<intptr_t> seen_values;	// a retry loop must not find its new value already there
static intptr_t uniq() {
	intptr_t v;
	do { u64 n = ++serial; v = nar((intptr_t) ((0x1000000 + (n << 8) + (u64) cur->id) | (n & 1 ? mix(n, 0x4e) >> 34 << 34 | 1ULL << 62 : 0))); } while (!seen_values.insert(v).second);
	return v;
}
static intptr_t pick_new(i64 sel, intptr_t expect) {
	intptr_t v = sel == 1 ? 7 : sel == 2 ? 9 : sel == 3 ? BIG : sel == 4 ? nar(-5) : sel == 5 ? 0 : sel == 6 ? expect ^ (intptr_t) (1ULL << ((W32 ? 0 : 32) + ++serial % 32)) : sel == 7 ? expect ^ (intptr_t) (1ULL << (++serial % (W32 ? 32 : 64))) : uniq();	// also values that differ in one bit
	if ((sel == 6 || sel == 7) && !seen_values.insert(v).second) return uniq();
	return v == expect ? uniq() : v;
}

static void post_check(StepCtx &s, int r) {
	octx &c = s.c; const char *tn = T->name;
	for (int i = 0; i < 4; i++) if (c.out[i] != c.in[i]) violate("clobber", "operation %d (mode %d shape %d) clobbered a caller value (return %d) [%s]", s.k, s.mode, s.shape, r, tn);
	if (c.pv != c.v || c.pv2 != c.v2 || c.pdst != c.dst || c.psrc != c.src || c.plen != (long) c.len || c.pexpect != c.expect || c.pnewv != c.newv || c.pcount != c.count || (int) c.pcpu != (s.shape == SH_RETRY ? c.acpu : c.cpu))
		violate("clobber", "operation %d (mode %d shape %d) changed an argument of its caller (return %d) [%s]", s.k, s.mode, s.shape, r, tn);
	if (r != c.ret) violate("bad-return", "return value not passed on [%s]", tn);
	if (c.phase & 1) violate("bad-return", "operation left without returning [%s]", tn);
}

static int run_ctx(StepCtx &s) {
	for (int i = 0; i < 4; i++) s.c.in[i] = nar((long) mix(S.plan->seed, serial * 4 + i + 77));
	cur->sc = &s; cur->last_rip = 0;
	opfn f = T->fn[s.k][s.mode][s.shape];
	int r = call_stepped(f, &s.c);
	cur->sc = nullptr; cur->last_rip = 0;
	post_check(s, r);
	if (cur->aborts) { st_midab.hit(cur->aborts); cur->aborts = 0; }
	return r;
}

static int choose_index(int mode, i64 sel) {
	Thr &t = *cur; rseq_area *a = lib_area(t);
	int now = mode == 0 ? (int) a->cpu_id_start : (int) a->mm_cid;
	switch (sel) { case 1: st_wrong.hit(); return (now + 1) % (S.ncpu > 1 ? S.ncpu : 2); case 2: st_wrong.hit(); return 1000; case 3: st_wrong.hit(); return -2; default: break; }
	// an index which agrees with the current one on part of its bits only
	if (sel >= 4 && sel < 10) { st_wrong.hit(); static const u32 d[] = { 0x100, 0x10000, 0x1000000, 0x80000000u, 0xff00, 0xffff0000u }; return (int) ((u32) now ^ d[sel - 4]); }
	return now;
}
static Slot *slot_for(int mode, int idx, Thr &t) {
	if (!t.reg && mode == 1 && idx == 0) return &M->s[1][6 + t.id];	// see the known finding: keep it private
	return &M->s[mode][idx >= 0 && idx < 6 ? idx : 0];
}

static void retire_node(int i) { st_retire.hit(); nretired[i] = true; set_page((u64) node(i), false); }
static void unretire_node(int i) { set_page((u64) node(i), true); nretired[i] = false; }

static void do_push(const Op &op, int depth) {
	int mode = (int) op.a[0], l = (int) (op.a[5] % 3);
	int n = -1;
	for (int i = l == 2 ? 0 : 1; i < NNODE; i++) if (nstate[i] == N_FREE) { n = i; break; }	// node 0 only on the list whose end mark resembles it
	if (n < 0) return;
	nstate[n] = N_POPPED;	// ours
	if (nretired[n]) unretire_node(n);
	for (int k = 0; k < 8; k++) hwrite(&node(n)->f[k], (intptr_t) (0x7ead0000 + k));
	for (int att = 0; att < 3; att++) {
		int idx = choose_index(mode, op.a[2]);
		Slot *sl = slot_for(mode, idx, *cur);
		StepCtx s; memset(&s.c, 0, sizeof s.c); s.k = K_CBNE_STORE; s.mode = mode; s.shape = SH_SINGLE; s.supported = true; s.depth = depth;
		octx &c = s.c;
		c.cpu = idx; c.v = &sl->head[l]; c.expect = *shadow_of(c.v); c.newv = (intptr_t) node(n);
		c.v2 = &sl->x[0]; c.dst = (char *) sl->buf; c.src = (char *) M->p[cur->id][depth].src; c.load = &M->p[cur->id][depth].load[0];
		hwrite((intptr_t *) ((char *) node(n) + voff[l]), c.expect);
		int r = run_ctx(s);
		if (r == 0 && !s.excused) return;
		if (r == 0) return;	// excused: node stays out of circulation
	}
	nstate[n] = N_FREE;
	if (retire_nodes) retire_node(n);
}

static int new_block() {
	if (bused >= NBLK) return -1;
	int b = bused++;
	set_page((u64) blk(b), true);
	for (int k = 0; k < 4; k++) { bsh[b].f[k] = (intptr_t) &blk(b)->f[4 + k]; bsh[b].f[4 + k] = 1000 * (b + 1) + k; }
	memcpy(blk(b), &bsh[b], sizeof(Cell));
	return b;
}

static void do_mgr(const Op &op) {
	int mode = (int) op.a[0], i = (int) (op.a[5] % (S.ncpu < 6 ? S.ncpu : 6));
	Slot *sl = &M->s[mode][i];
	int nb = new_block(); if (nb < 0) return;
	intptr_t old = *shadow_of(&sl->pw);
	int ob = (int) (((u64) old - BLK_BASE) / PGSZ);
	oldptr[mode][i].push_back(old);
	hwrite(&sl->pw, (intptr_t) blk(nb));
	yield_point(S_YIELD); yield_point(S_YIELD);
	k_fence(mode == 0 ? i : -1);
	auto &v = oldptr[mode][i]; v.erase(std::find(v.begin(), v.end(), old));
	yield_point(S_YIELD);
	st_retire.hit();
	bretired[ob] = true; set_page((u64) blk(ob), false);
	yield_point(S_YIELD);
}

static void exec_op(const Op &op, int depth) {
	Thr &t = *cur;
	switch (op.code) {
	case C_PUSH: do_push(op, depth); return;
	case C_MGR: do_mgr(op); return;
	case C_REG: if (!t.reg && !P->c("libc")) { if (rseq_register_current_thread()) violate("register-failed", "registration failed"); } return;
	case C_UNREG: if (t.reg && !P->c("libc")) { if (rseq_unregister_current_thread()) violate("register-failed", "unregistration failed"); } return;
	}
	int k = op.code, mode = (int) op.a[0], shape = (int) op.a[1];
	if (!t.reg) st_unreg.hit();
	if (!T->fn[k][mode][shape]) return;
	StepCtx s; memset(&s.c, 0, sizeof s.c); s.k = k; s.mode = mode; s.shape = shape; s.depth = depth; s.supported = true;
	octx &c = s.c;
	int idx = choose_index(mode, shape == SH_RETRY ? 0 : op.a[2]);
	Slot *sl = slot_for(mode, idx, t);
	Priv &pv = M->p[t.id][depth];
	int wi = (int) (op.a[5] & 3);
	c.cpu = idx; c.maxatt = 4;
	c.v = &sl->w[wi]; c.v2 = &sl->x[wi]; c.dst = (char *) sl->buf + 16 + (op.a[6] & 7); c.src = (char *) pv.src + 8 + ((op.a[6] >> 3) & 7); c.load = &pv.load[wi];
	c.len = (size_t) op.a[4]; c.count = nar(op.a[3]) ? nar(op.a[3]) : 1; c.voffp = 8 * (op.a[6] & 3);
	if (k == K_MEMCPY || k == K_MEMCPY_REL) {
		c.v = &sl->bidx;
		for (int i = 0; i < 192; i++) pv.src[i] = (u8) mix(serial * 7 + 1, i);
		memcpy(SH->p[t.id][depth].src, pv.src, 192);
		if (shape == SH_CONST) c.len = 16; else if (shape == SH_CONST2) c.len = k == K_MEMCPY ? 0 : 3;
	}
	int l = (int) (op.a[5] % 3);
	if (k == K_POP) {
		if (shape == SH_CONST) l = 1; else if (shape == SH_CONST2) l = 0;
		c.v = &sl->head[l]; c.voffp = voff[l];
	}
	if (k == K_LLADD) {
		c.v = &sl->pw;
		if (shape == SH_CONST) { c.voffp = 8; c.count = 3; } else if (shape == SH_CONST2) { c.voffp = 0; c.count = nar(-5); }
	}
	intptr_t curv = *shadow_of(c.v), curv2 = *shadow_of(c.v2);
	c.expect = k == K_POP ? list_end(l) : op.a[7] & 1 ? pick_new((op.a[7] >> 1) & 7, curv) : curv;
	c.expect2 = op.a[7] & 16 ? pick_new((op.a[7] >> 5) & 7, curv2) : curv2;
	c.newv2 = pick_new((op.a[7] >> 8) & 7, curv2);
	if (shape == SH_CONST || shape == SH_CONST2) {
		bool c2 = shape == SH_CONST2;
		switch (k) {
		case K_CBNE_STORE: c.expect = c2 ? BIG : 7; break;
		case K_ADD: c.count = c2 ? BIG : 3; break;
		case K_CBNE2: if (!c2) { c.expect = 7; c.expect2 = 9; } else c.expect2 = BIG; break;
		case K_STORE2: case K_STORE2_REL: if (!c2) c.expect = 7; c.newv2 = c2 ? BIG : nar(-5); break;
		case K_MEMCPY: case K_MEMCPY_REL: if (!c2) c.expect = 7; break;
		}
	}
	c.newv = shape == SH_RETRY ? uniq() : pick_new((op.a[7] >> 11) & 7, c.expect);
	if (shape == SH_RUNTIME) {
		c.mo = (int) (op.a[3] >> 8 & 7); c.mode = (op.a[2] >> 8) ? (int) (op.a[2] >> 8) : mode;
		if (c.mode == 5) c.mode = -1;
		c.cpu = idx; c.count = (op.a[3] & 0xff) + 1;
		bool rel_ok = k >= K_STORE2;
		s.supported = (c.mode == 0 || c.mode == 1) && (c.mo == 0 || (c.mo == 3 && rel_ok));
		// the run-time entry of the other table half behaves by its mode argument
		if (c.mode == 0 || c.mode == 1) { if (c.mode != mode) s.supported = false; }
	}
	if (shape == SH_RETRY) {
		if (!t.reg) return;	// a retry loop never ends for an unregistered thread
		c.v_base = (intptr_t *) ((char *) &M->s[mode][0] + ((char *) c.v - (char *) sl));
		c.v2_base = (intptr_t *) ((char *) &M->s[mode][0] + ((char *) c.v2 - (char *) sl));
		c.dst_base = (char *) &M->s[mode][0] + (c.dst - (char *) sl); c.stride = sizeof(Slot);
	}
	if (shape >= SH_AL0) {
		// one variable, several arguments: the context says what the call means
		int n = shape - SH_AL0; bool mc = k == K_MEMCPY || k == K_MEMCPY_REL;
		st_alias.hit();
		switch (k) {
		case K_CBNE_STORE: if (n == 1) c.expect = (intptr_t) c.v; else c.newv = n == 0 ? (intptr_t) c.v : n == 2 ? nar(c.cpu) : (intptr_t) (c.v + 1); break;
		case K_ADD: c.count = n == 0 ? (intptr_t) c.v : n == 1 ? nar(c.cpu) : n == 2 ? (intptr_t) (c.v + 1) : nar(-(intptr_t) c.v); break;
		case K_LLADD: if (n == 0 && !c.voffp) c.voffp = 8; c.count = n == 0 ? c.voffp : n == 1 ? (intptr_t) c.v : n == 2 ? nar(c.cpu) : nar(-(intptr_t) c.v); break;
		case K_CBNE2: if (n == 0) c.expect2 = c.expect; else if (n == 1) c.newv = (intptr_t) c.v2; else if (n == 2) c.newv = c.expect2; else c.v2 = (intptr_t *) ((char *) c.v + SH_V_2ND); break;
		case K_STORE2: case K_STORE2_REL: if (n == 0) c.newv2 = c.newv; else if (n == 1) { c.newv2 = (intptr_t) c.v; c.newv = (intptr_t) c.v2; } else if (n == 2) c.newv2 = c.expect; else c.v2 = (intptr_t *) ((char *) c.v + SH_V_2ND); break;
		}
		if (mc && n == 0) c.newv = (intptr_t) c.len;
		if (mc && n == 1) c.newv = k == K_MEMCPY ? (intptr_t) c.dst : (intptr_t) c.src;
		if (mc && n == 2) { if (k == K_MEMCPY && (u64) curv <= 64) c.len = (size_t) curv; c.expect = k == K_MEMCPY ? (intptr_t) c.len : (intptr_t) c.dst; }
		if (mc && n == 3) c.dst = (char *) c.v + SH_V_OFF;
		// a store that changes nothing is not seen
		if (k == K_ADD || k == K_LLADD ? c.count == 0 : k != K_POP && c.newv == c.expect) return;
	}
	if (depth) st_sigop.hit();
	int r = run_ctx(s);
	trace_ev(0x0b5, op.id, (u64) (i64) r, s.natt);
	if (k == K_POP && r == 0 && !s.excused) {
		u64 i = ((u64) *shadow_of(c.load) - NODE_BASE) / PGSZ;
		if (i >= NNODE || nstate[i] != N_POPPED) violate("lost-update", "pop handed out a node that was not popped [%s]", T->name);
		nstate[i] = N_FREE;
		if (retire_nodes) retire_node((int) i);
	}
}

static void run_ops(Plan &p) {
	P = &p; Sim &s = S;
	K_tab = (int) p.c("tab"); T = optabs[K_tab % noptabs];
	if (p.c("guest") && !guests.empty()) { guest_now = guests[(p.c("guest") - 1) % guests.size()]; T = &guest_now->tab; R->stat[guest_now->stat]++; if (!guest_now->broken.empty()) violate_of("C01", "not-assembled", "the sequences do not assemble [%s]:%s", guest_now->name.c_str(), guest_now->broken.c_str()); if (guest_now->w32) { W32 = true; BASE = emu_shared_lo = 0x38000000; } }
	chk_tables = p.c("tables") != 0;
	s.ncpu = (int) p.c("ncpu", 2); s.feature = (u32) p.c("feature", 28); s.rand_cid = p.c("randcid") != 0;
	s.cap = 600000;
	s.p_step = p.c("p_step") * 1e-6; s.p_yield = p.c("p_yield") * 1e-6; s.p_opb = p.c("p_opb") * 1e-6;
	s.w_sw = (int) p.c("w_sw"); s.w_pre = (int) p.c("w_pre"); s.w_mig = (int) p.c("w_mig"); s.w_sig = (int) p.c("w_sig"); s.w_resched = (int) p.c("w_res");
	s.fault_mask = 0;
	retire_nodes = p.c("retire") != 0;
	W.aux_feature = s.feature <= 20 ? 0 : s.feature; W.aux_align = 32;
	bool libc = p.c("libc") != 0;
	W.has_off = W.has_size = W.has_flags = libc;
	W.libc_off = libc_area_off(); W.libc_size = 32;
	void *m = mmap((void *) BASE, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	mmap((void *) NODE_BASE, (NNODE + 1) * PGSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	mmap((void *) BLK_BASE, NBLK * PGSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	M = (Mem *) m; SH = new Mem;
	retired_hook = is_retired;
	// initial contents
	const intptr_t init[] = { 7, 9, BIG, 0, nar(-5), 7, 1, 7 };
	for (int md = 0; md < 2; md++) for (int i = 0; i < NSLOT; i++) {
		Slot &sl = M->s[md][i];
		for (int k = 0; k < 4; k++) { sl.w[k] = init[(p.c("init") + i + k) & 7]; sl.x[k] = init[(p.c("init") + 3 * i + k + 1) & 7]; }
		for (int l = 0; l < 3; l++) sl.head[l] = list_end(l);
		sl.bidx = init[(p.c("init") + 2 * i) & 7]; sl.g0 = 0x1111;
		memset(sl.buf, 0xE0 + i, sizeof sl.buf); memset(sl.guard, 0x3C, sizeof sl.guard);
		int b = new_block(); sl.pw = b >= 0 ? (intptr_t) blk(b) : 0;
	}
	memset(M->p, 0x21, sizeof M->p);
	for (auto &a : M->p) for (auto &b : a) for (auto &l : b.load) l = nar(l);
	memcpy(SH, M, sizeof(Mem));
	for (int i = 0; i <= NNODE; i++) { for (int k = 0; k < 8; k++) nsh[i].f[k] = 0x5e471 + k; memcpy(node(i), &nsh[i], sizeof(Cell)); nstate[i] = N_FREE; }
	nstate[SENT] = N_POPPED;
	{	// lists that start with nodes on them
		Rng r(mix(p.seed, 0x11f)); i64 n = p.c("prefill");
		for (int i = 0; i < n && i < NNODE - 3; i++) {
			int l = i ? (int) r.below(3) : 2, md = (int) r.below(2), k = (int) r.below(3); Slot &sl = M->s[md][k], &sh = SH->s[md][k];
			long f = voff[l] / 8; node(i)->f[f] = nsh[i].f[f] = sl.head[l]; sl.head[l] = sh.head[l] = (intptr_t) node(i); nstate[i] = N_LIST;
		}
	}
	if (guest_now) { cs_set.insert(guest_now->cs_ptrs.begin(), guest_now->cs_ptrs.end()); exits.insert(guest_now->exits.begin(), guest_now->exits.end()); }
	else for (u64 *q = __start___rseq_cs_ptr_array; q && q < __stop___rseq_cs_ptr_array; q++) cs_set.insert(*q);
	if (!guest_now) for (u64 *q = __start___rseq_exit_point_array; q && q + 1 < __stop___rseq_exit_point_array; q += 2) exits.insert({ q[0], q[1] });

	lib_ctor();
	s.step_oracle = oracle;
	s.on_abort = [](const char *) {
		// The self-checking build notices when the known finding lets an interrupted sequence carry on.
		StepCtx *c = cur->sc;
		if (!c || !c->unreg || cur->reg || c->mode != 1 || c->c.acpu != 0 || !c->supported || !T->compare_twice) return false;
		snprintf(R->known, sizeof R->known, "%s", KNOWN_CID0);
		return true;
	};
	s.signal_handler = [](Thr &t) {
		if (unload_phase) return;
		for (auto &o : P->ops) if (o.tid == t.id && o.sig && !sig_done.count(o.id)) {
			sig_done.insert(o.id);
			op_begin(o); exec_op(o, 1); op_end();
			return;
		}
	};
	int nthr = (int) p.c("nthr", 2);
	n_unprep = nthr;
	for (int i = 0; i < nthr; i++) {
		Thr &t = spawn([i, libc]() {
			Thr &t = *cur;
			bool unreg = (P->c("unreg") >> i) & 1;
			if (libc) { }
			else if (!unreg && rseq_register_current_thread()) violate("register-failed", "registration failed");
			for (auto &o : P->ops) if (o.tid == i && !o.sig) { op_begin(o); exec_op(o, 0); op_end(); }
			if (P->c("unload")) {
				// last sequence done: no further operation may run here, not even in a handler
				static Op uop; uop.id = 900000; t.op = &uop;
				int sv = S.w_sig; S.w_sig = 0; auto h = S.signal_handler; t.in_sig = true;
				StepCtx s0; memset(&s0.c, 0, sizeof s0.c); s0.k = -1; s0.mode = 0; s0.shape = 0; s0.supported = false;
				cur->sc = nullptr; cur->last_rip = 0;
				opfn f = (opfn) (P->c("unload") == 2 ? T->clear_rseq_cs : T->prepare_unload);
				call_stepped(f, &s0.c);
				(void) sv; (void) h;
				if (--n_unprep == 0) {
					unload_phase = true;
					if (guest_now) k_mark_unloaded(guest_now->cs_lo, guest_now->cs_hi); else k_mark_unloaded((u64) sim_rseq_cs_begin(), (u64) sim_rseq_cs_end());
					wake_all(&n_unprep);
				} else while (n_unprep) block_on(&n_unprep);
				for (int k = 0; k < 3; k++) {
					yield_point(S_YIELD);
					st_unload.hit();
					int cpu = k == 1 ? (t.cpu + 1) % S.ncpu : t.cpu;
					k_preempt(t); k_place(t, cpu); k_resume(t, nullptr);
				}
			}
		}, (int) ((p.c("cpu0") >> (4 * i)) & 15) % s.ncpu);
		if (libc) k_libc_register(t, libc_area_of(t.fs), 32, SIG);
	}
	run_threads();
	if (memcmp(M, SH, sizeof(Mem))) violate("stray-write", "shared memory differs at the end [%s]", T->name);
}

static void gen_ops(Plan &p, Rng &r, const std::string &prop) {
	auto &c = p.cfg;
	int nthr = (int) r.range(1, 4), ncpu = (int) r.range(1, 4);
	if (prop == "C06" && nthr < 2) nthr = 2;
	c["nthr"] = nthr; c["ncpu"] = ncpu; c["tab"] = (i64) r.below(noptabs); c["init"] = (i64) r.below(8); if (r.p(0.7)) c["prefill"] = (i64) r.range(1, 9);
	if (!guests.empty() && r.p(getenv("SIM_GUESTS") ? 1 : 0.25)) c["guest"] = 1 + (i64) r.below(guests.size());
	if (const char *e = getenv("SIM_GUESTS")) if (c["guest"]) while (strncmp(guests[(size_t) c["guest"] - 1]->arch, e, strlen(e)) && *e != '1') c["guest"] = 1 + (i64) r.below(guests.size());
	c["feature"] = r.pick<i64>({ 28, 28, 28, 32 });
	c["libc"] = r.p(0.35); c["randcid"] = r.p(0.5);
	c["cpu0"] = (i64) r.below(1 << 16);
	static const i64 ps[] = { 2000, 8000, 20000, 50000, 120000 };
	c["p_step"] = ps[r.below(5)]; c["p_yield"] = 30000; c["p_opb"] = r.pick<i64>({ 50000, 300000 });
	c["w_sw"] = (i64) r.below(4); c["w_pre"] = (i64) r.below(5); c["w_mig"] = (i64) r.below(4); c["w_sig"] = r.p(0.6) ? (i64) r.below(4) : 0; c["w_res"] = 1;
	c["tables"] = prop == "C08"; c["retire"] = prop == "C06" ? 1 : r.p(0.2);
	c["unload"] = prop == "C07" ? (r.p(0.85) ? 1 : 2) : 0;
	if (prop == "C03" && !c["libc"]) c["unreg"] = (i64) r.below(1 << nthr);
	if (prop == "C04") { c["p_step"] = r.pick<i64>({ 20000, 60000, 150000 }); }
	int id = 1;
	double p_wrong = prop == "C03" ? 0.35 : prop == "C02" ? 0.1 : 0.03, p_mis = prop == "C02" ? 0.35 : 0.12;
	double p_rt = prop == "C03" ? 0.4 : 0.12;
	// swarm: some kinds only
	int kinds = (int) r.below(1 << K_NR); if (r.p(0.4) || !kinds) kinds = (1 << K_NR) - 1;
	if (prop == "C05") kinds = 1 << K_STORE2 | 1 << K_STORE2_REL | 1 << K_MEMCPY | 1 << K_MEMCPY_REL;
	if (prop == "C06") kinds = 1 << K_LLADD | 1 << K_POP;
	int mode_bias = (int) r.below(3);	// 0: cpu, 1: cid, 2: both
	for (int t = 0; t < nthr; t++) {
		int n = (int) r.range(1, prop == "C07" ? 3 : 7);
		bool mgr = prop == "C06" && t == 0 && r.p(0.8);
		for (int i = 0; i < n; i++) {
			Op o; o.id = id++; o.tid = t;
			o.sig = c["w_sig"] && r.p(0.3) ? 1 : 0;
			int k; do k = (int) r.below(K_NR); while (!(kinds >> k & 1));
			o.code = k;
			o.a[0] = mode_bias == 2 ? (i64) r.below(2) : mode_bias;
			o.a[1] = r.p(p_rt) ? SH_RUNTIME : r.p(0.2) ? (i64) r.range(SH_AL0, SH_AL3) : r.pick<i64>({ SH_SINGLE, SH_SINGLE, SH_RETRY, SH_RETRY, SH_CONST, SH_CONST2 });
			o.a[2] = r.p(p_wrong) ? (i64) r.range(1, 9) : 0;
			o.a[3] = r.pick<i64>({ 1, -1, 3, 1 << 20, (i64) r.next(), -(1LL << 31), 0x80000000LL, 1LL << 40 });
			o.a[4] = r.pick<i64>({ 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, (i64) r.below(100) });
			if (o.a[4] > 33 && r.p(0.6)) o.a[4] = (i64) r.below(24);
			o.a[5] = (i64) (r.p(0.7) ? r.below(2) : r.below(12));
			o.a[6] = (i64) r.below(64);
			o.a[7] = (i64) r.below(1 << 14) & ~0x11; if (r.p(p_mis)) o.a[7] |= 1; if (r.p(p_mis)) o.a[7] |= 16;
			if (o.a[1] == SH_RUNTIME) {
				int mo = r.p(0.4) ? (int) r.below(8) : (k == K_STORE2_REL || k == K_MEMCPY_REL) ? 3 : 0;
				o.a[3] = (o.a[3] & 0x7f) | (mo << 8);
				i64 md = r.p(0.25) ? r.pick<i64>({ 2, 3, 4, 5 }) : 0;
				o.a[2] |= md << 8;
				if (md) o.a[2] &= ~0xffLL;
			}
			if (k == K_POP && r.p(0.5)) o.code = C_PUSH;
			if (mgr && r.p(0.7)) { o.code = C_MGR; o.sig = 0; o.a[5] = (i64) r.below(6); }
			if (o.code == C_MGR && o.a[0] == 1 && r.p(0.3)) o.a[0] = 0;
			if (prop == "C03" && !c["libc"] && r.p(0.08)) { o.code = r.p(0.5) ? C_REG : C_UNREG; o.sig = 0; }
			p.ops.push_back(o);
		}
	}
}
static RegSc reg_ops(Scenario{ "ops", gen_ops, run_ops });

} // namespace
} // namespace sim
