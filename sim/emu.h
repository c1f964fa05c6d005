// Emulated processors running the operations compiled for other architectures.
// Guest memory is host memory (64-bit guests; big-endian ones see data, though
// not code, in host order), so the oracle of scenario "ops" applies unchanged.
#pragma once
#include "sim.h"
namespace sim {
struct Guest;
struct Cpu {
	u64 r[34] = { 0 };		// general registers (zero register handled by each decoder)
	u64 pc = 0;
	u64 lr = 0, ctr = 0;
	u32 cr = 0; bool N = false, Z = false, C = false, V = false; int cc = 0; bool so = false;
	u64 tp = 0, ctx = 0, csf = 0;	// csf: where the area's 64-bit pointer field is
	Guest *g = nullptr;
	// what is ordered before a store: set by accesses to shared memory, cleared by barriers
	bool pend_ld = false, pend_st = false;
};
typedef bool (*StepFn)(Cpu &);		// one instruction; false: not known to the emulator
struct Guest {
	const char *arch; std::string name; u64 base = 0; u32 sig = 0; bool be = false;
	StepFn step; optab tab;
	u64 cs_lo = 0, cs_hi = 0; std::vector<u64> cs_ptrs; std::vector<std::pair<u64, u64>> exits;
	void (*enter)(Cpu &, u64 fn, u64 arg, u64 sp, u64 ret); u64 (*result)(Cpu &);
	u64 img_lo = ~0ULL, img_hi = 0, text_lo = 0, text_hi = 0, p_off = 0, p_size = 0, p_flags = 0;
	bool tso = false, w32 = false; int stat = 0;
	std::string broken, nomem;	// set: the operations, or the ordering helpers, do not assemble
};
extern std::vector<Guest *> guests;
extern Guest *guest_now;
void guests_load();
Guest *guest_of(u64 fn);
int emu_call(Guest *g, u64 fn, octx *c);
bool ops_release_commit(u64 a);
void step_hook(ucontext_t *uc, bool sched);
extern u64 emu_shared_lo;
bool emu_shared(u64 a);		// shared test memory: its accesses count for ordering
void emu_store_hook(Cpu &c, u64 a, bool release);
// memory
// Scenario "mem": its words go through a simulated memory system (sc_mem.cc).
extern bool wm_on, wm_native; extern u64 wm_lo, wm_hi;
inline bool wm_at(u64 a) { return wm_on && a >= wm_lo && a < wm_hi; }
u64 wm_load(u64 a, int size, bool acquire); void wm_store(u64 a, int size, u64 v, bool release);
enum { WF_RR = 1, WF_RW = 2, WF_WW = 4, WF_WR = 8, WF_LW = 7, WF_ALL = 15 };	// what a fence orders
void wm_fence(int what); void wm_pre(u64 rip); void wm_post(); void wm_event();
// 32-bit guests see low host memory as it is, and the call context and the thread's memory through two windows.
const u32 W32_CTX = 0xC0000000, W32_TP = 0xD0100000;
// A big-endian one has the significant half of a 64-bit field second, where the host has it first.
inline u64 gtr(Cpu &c, u64 a) {
	if (!c.g->w32) return a;
	u32 x = (u32) a;
	if (x >= W32_TP - 0x100000) { a = c.tp + (u64) (i64) (int) (x - W32_TP); return c.g->be && a - c.csf < 8 ? a ^ 4 : a; }
	return x >= W32_CTX ? c.ctx + (x - W32_CTX) : x;
}
template <class T> inline T gld(Cpu &c, u64 a, bool acquire = false) { a = gtr(c, a); if (wm_at(a)) return (T) wm_load(a, sizeof(T), acquire); if (emu_shared(a)) c.pend_ld = true; T v; __builtin_memcpy(&v, (void *) a, sizeof v); return v; }
template <class T> inline void gst(Cpu &c, u64 a, T v, bool release = false) { a = gtr(c, a); if (wm_at(a)) { wm_store(a, sizeof(T), (u64) v, release); return; } bool s = emu_shared(a); if (s) emu_store_hook(c, a, release); __builtin_memcpy((void *) a, &v, sizeof v); if (s) c.pend_st = true; }
inline void gbar(Cpu &c, int what = WF_ALL) { if (what & WF_RW) c.pend_ld = false; if (what & WF_WW) c.pend_st = false; if (wm_on) wm_fence(what); }
inline i64 sx(u64 v, int bits) { return (i64) (v << (64 - bits)) >> (64 - bits); }
bool step_a64(Cpu &); bool step_rv64(Cpu &); bool step_ppc64(Cpu &); bool step_s390(Cpu &); bool step_la64(Cpu &); bool step_mips64(Cpu &); bool step_rv32(Cpu &); bool step_mips32(Cpu &); bool step_i386(Cpu &); bool step_a32(Cpu &); bool step_ppc32(Cpu &);
}
