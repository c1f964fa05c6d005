// Reference model of pools and items shared by the pool, set and fork scenarios.
#pragma once
#include "sim.h"
#include <rseq/mempool.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
namespace sim {
enum { F_ZERO = 1, F_ROBUST = 2, F_GLOBAL = 4, F_NAMED = 8, F_POISON = 16, F_DEFATTR = 32, F_INIT = 64, F_INITW = 128, F_POLFIRST = 256, F_NUMA = 512, F_LONGNAME = 1024 };
struct PCfg {
	u64 req = 8, stride = 4096; int ncpu = 1; int flags = 0; u64 poison = 0, maxr = 0;
	// derived
	u64 item = 8, per = 1; bool zero = false, robust = false, global = false, poisoned = false, init = false;
	void derive() {
		item = 8; while (item < req) item <<= 1;
		robust = flags & F_ROBUST; global = flags & F_GLOBAL; init = flags & F_INIT;
		zero = flags & F_ZERO;
		if (init && (flags & F_POLFIRST)) zero = false;	// setting an init callback selects the init policy
		if (global) { zero = true; ncpu = 1; }
		if (flags & F_DEFATTR) { robust = global = init = zero = false; stride = 65536; flags &= F_DEFATTR | F_NAMED; maxr = 0; }
		poisoned = (flags & F_POISON) || robust;
		if (robust && !(flags & F_POISON)) poison = zero ? 0 : 0x5555555555555555ULL;
		per = stride / item;
	}
};
struct Region { u64 len; int cpu; int count; };
struct PoolM {
	bool exists = false, closing = false; int idx = 0, gen = 0, owner = 0;
	PCfg c; struct rseq_mempool *h = nullptr;
	int inprog = 0; u64 upper = 0, peak = 0, calls = 0; u64 unit = 0;
	bool bcap = false;			// a limit was met: capacity is judged
	std::set<u64> bases, used; std::map<u64, Region> regions; std::set<u64> freed;
	std::vector<u64 *> watch;		// in-progress allocations: highest occupancy seen
	void up() { upper++; for (u64 *w : watch) if (upper > *w) *w = upper; if (upper > peak) peak = upper; }
};
struct Item { int st = 0; u64 ptr = 0; int pool = -1; u64 len = 0; std::vector<u8> exp; };	// st 0 free, 1 busy, 2 live
// Caller's buffer ending right before an inaccessible page.
struct IBuf {
	enum { CAP = 128 << 10 }; u8 *end = nullptr; u64 n = 0;
	void resize(u64 k) {
		if (!end) { u8 *p = (u8 *) mmap(nullptr, CAP + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(p, CAP, PROT_READ | PROT_WRITE); end = p + CAP; }
		if (k > CAP) violate("harness", "buffer of %llu bytes", (unsigned long long) k);
		n = k;
	}
	u8 *data() { return end - n; } u64 size() const { return n; } u8 &operator[](u64 i) { return end[i - n]; }
	u64 sum() { u64 h = n; for (u64 i = 0; i < n; i++) h = h * 1000003 + end[i - n]; return h; }
};
enum { K_MALLOC = 0, K_ZMALLOC, K_INIT };

inline char *cptr(u64 ptr, int cpu, u64 stride) { return stride == RSEQ_MEMPOOL_STRIDE && (cpu & 1) ? rseq_percpu_ptr((char *) ptr, cpu) : rseq_percpu_ptr((char *) ptr, cpu, stride); }
// Frees through one of the public forms.
inline void pfree(u64 ptr, u64 stride, bool global, u64 sel) {
	bool dflt = stride == RSEQ_MEMPOOL_STRIDE && (sel & 1); sel >>= 1;
	if (global && (sel & 1)) { if (dflt) rseq_mempool_free((char *) ptr); else rseq_mempool_free((char *) ptr, stride); }
	else if (dflt) rseq_mempool_percpu_free((char *) ptr);
	else if (sel & 2) rseq_mempool_percpu_free((u64 *) ptr, stride);
	else librseq_mempool_percpu_free((void *) ptr, stride);
}
inline u8 patb(u64 seed, u64 off) { return (u8) (mix(seed, off >> 3) >> ((off & 7) * 8)); }
inline void patfill(u8 *d, u64 seed, u64 off, u64 n) { for (u64 i = 0; i < n; i++) d[i] = patb(seed, off + i); }
int pagemap_private(u64 page, bool filebacked);	// 1 private copy, 0 not, -1 unknown
}
