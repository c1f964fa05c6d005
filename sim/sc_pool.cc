// Scenario "pool": threads create, use, exhaust, grow, misuse and destroy pools
// while resource requests fail.
#include "pool.h"
namespace sim {
static int pm_fd = -1; static int pm_pid;
int pagemap_private(u64 page, bool filebacked) {
	if (pm_fd < 0 || pm_pid != getpid()) { pm_fd = open("/proc/self/pagemap", O_RDONLY | O_CLOEXEC); pm_pid = getpid(); }
	u64 v; if (pm_fd < 0 || pread(pm_fd, &v, 8, (off_t) (page / 4096 * 8)) != 8) return -1;
	if (!(v >> 63)) return (v >> 62 & 1) ? 1 : 0;
	return filebacked ? !(v >> 61 & 1) : (int) (v >> 56 & 1);
}
namespace {
enum { O_CREATE = 1, O_DESTROY, O_ALLOC, O_FREE, O_WRITE, O_CHECK, O_FILL, O_DRAIN, O_BAD, O_MISUSE, O_NUMA, O_PTR, O_FORK };
enum { NP = 4, NI = 512 };
static Plan *P; static PoolM pools[NP]; static Item items[NI];
static std::map<u64, std::pair<u64, int>> owned;	// byte ranges of live items: start -> (end, item)
static std::set<u64> priv_pages; static bool pm_on;
static int expecting = -1; static const char *expect_what; static Stat *expect_stat;
static Stat st_create("pool:created"), st_cfail("pool:create_failed"), st_alloc("pool:allocated"), st_grow("pool:grown"), st_full("pool:exhausted"), st_gfail("pool:growth_failed"),
	st_recycle("pool:recycled_items"), st_destroy("pool:destroyed"), st_dfail("pool:destroy_refused"), st_dretry("pool:destroy_retried"), st_mis_df("misuse:double_free"),
	st_mis_po("misuse:write_after_free"), st_mis_leak("misuse:leak"), st_mis_fl("misuse:free_list"), st_conc("pool:overlapping_calls"), st_cow("pool:private_pages_justified"), st_shared("pool:pages_left_shared"),
	st_poison("pool:poison_checked"), st_cb("pool:init_callbacks"), st_numa("pool:numa_batches"), st_bad("pool:invalid_arguments"), st_page("pool:larger_pages");

#define ALLP "C14 C15 C16 C17 C18 C19 C20 C23 C24"
static const u64 MUSTFAIL = ~(1ULL << S_F_CLOSE | 1ULL << S_F_MUNMAP);

// ---------------------------------------------------------------- init callback
static std::vector<u64> cb_added[MAXT + 1];	// regions announced during the thread's current call
static u64 numa_node_of(int cpu) { return (u64) cpu * 7 % 5; }
struct NumaJob { u64 addr, len; int cpu, flags; std::set<u64> seen; int calls = 0; int fail_at = -1; int fail_err = 0; int part_at = -1; bool failed = false; bool bad_node = false; };
static NumaJob *numa[MAXT + 1];
static void numa_drop(PoolM &m) { for (u64 a : cb_added[cur->id]) m.regions.erase(a); cb_added[cur->id].clear(); }
static int numa_call(u64 addr, u64 len, int cpu, int flags, int fail_at, int fail_err, int part_at, bool bad_node) {
	NumaJob j; j.addr = addr; j.len = len; j.cpu = cpu; j.flags = flags; j.fail_at = fail_at; j.fail_err = fail_err; j.part_at = part_at; j.bad_node = bad_node;
	numa[cur->id] = &j; u64 h0 = cur->hard; cur->hard = 0; errno = 0;
	int r = rseq_mempool_range_init_numa((void *) addr, len, cpu, flags); int e = errno;
	bool nodefail = bad_node || (cur->hard >> S_F_NUMANODE & 1);
	cur->hard |= h0; numa[cur->id] = nullptr;
	trace_ev(0x40, (u64) r, j.seen.size(), j.calls);
	if (!flags) { if (r != -1 || e != EINVAL || j.calls) violate_of("C23", "numa-flags", "NUMA helper without flags returned %d (errno %d)", r, e); return r; }
	if (nodefail) { if (r != -1) violate_of("C23", "numa-lost-error", "NUMA helper returned %d although the CPU has no node", r); if (j.calls) violate_of("C23", "numa-node", "pages were moved although the CPU has no node"); return r; }
	if (j.failed) { if (r >= 0) violate_of("C23", "numa-lost-error", "NUMA helper returned %d although moving pages failed", r); if (r != -1) violate_of("C23", "numa-lost-error", "NUMA helper returned %d instead of -1", r);
		if (e != fail_err) violate_of("C23", "numa-errno", "NUMA helper reports errno %d, page move failed with %d", e, fail_err); return r; }
	if (r != 0 && j.part_at < 0) violate_of("C23", "numa-false-error", "NUMA helper returned %d although every move succeeded", r);
	if (r == 0 && j.seen.size() != len / W.page) violate_of("C23", "numa-missed", "NUMA helper moved %zu of %llu pages", j.seen.size(), (unsigned long long) (len / W.page));
	return r;
}
static long on_move_pages(int pid, unsigned long n, void **pages, const int *nodes, int *status, int flags) {
	NumaJob *j = numa[cur->id]; if (!j) violate_of("C23", "numa-stray", "page move outside the helper");
	st_numa.hit(); int k = j->calls++;
	if (k == j->fail_at) { j->failed = true; errno = j->fail_err; return -1; }
	if (pid) violate_of("C23", "numa-pid", "moves pages of another process");
	if (flags != j->flags) violate_of("C23", "numa-flags", "NUMA flags %d instead of %d", flags, j->flags);
	for (unsigned long i = 0; i < n; i++) {
		u64 a = (u64) pages[i];
		if (a < j->addr || a + W.page > j->addr + j->len || (a & (W.page - 1))) violate_of("C23", "numa-outside", "page %lu of batch %d lies outside the region", i, k);
		if (!j->seen.insert(a).second) violate_of("C23", "numa-twice", "page moved twice");
		if (!nodes || nodes[i] != (int) numa_node_of(j->cpu)) violate_of("C23", "numa-node", "page %lu of batch %d goes to node %d instead of %llu", i, k, nodes ? nodes[i] : -1, (unsigned long long) numa_node_of(j->cpu));
		status[i] = nodes[i];
	}
	if (k == j->part_at && n) { status[0] = -EBUSY; return 1; }
	return 0;
}

static int init_cb(void *priv, void *addr, size_t len, int cpu) {
	PoolM *m = (PoolM *) priv;
	if (m < pools || m >= pools + NP) violate_of("C23", "cb-priv", "init callback got a wrong private pointer");
	PCfg &c = m->c; u64 a = (u64) addr;
	st_cb.hit();
	trace_ev(0x41, m->idx, (u64) cpu, len);
	yield_point(S_YIELD);
	if (!c.init) violate_of("C23", "cb-stray", "callback of a pool without one");
	if (len != c.stride) violate_of("C23", "cb-len", "init callback got length %zu, stride is %llu", len, (unsigned long long) c.stride);
	if (c.global ? cpu != -1 : (cpu < 0 || cpu >= c.ncpu)) violate_of("C23", "cb-cpu", "init callback got CPU %d", cpu);
	auto &rg = m->regions[a];
	if (rg.count) violate_of("C23", "cb-twice", "init callback called twice for the same memory (CPU %d then %d)", rg.cpu, cpu);
	rg = Region{ len, cpu, 1 }; cb_added[cur->id].push_back(a);
	{ if (!L.pages.covers(a, a + len, m->owner)) violate_of("C23 C14", "cb-foreign", "init callback got memory that is not the pool's"); }
	if (c.flags & F_INITW) { patfill((u8 *) addr, mix(m->owner, (u64) (i64) cpu), 0, len); for (u64 pg = a; pg < a + len; pg += 4096) priv_pages.insert(pg); }
	if (c.flags & F_NUMA) { int r = numa_call(a, len, cpu < 0 ? 0 : cpu, 2, -1, 0, -1, false); if (r) { numa_drop(*m); errno = EIO; return -1; } }
	if (int e = fault(S_F_INITCB, { ENOMEM, EIO, EPERM })) { errno = e; return -1; }
	return 0;
}

// ---------------------------------------------------------------- items
static int cpu_of_region(PoolM &m, int c) { return m.c.global ? -1 : c; }
static void own_add(PoolM &m, int it) {
	Item &x = items[it];
	for (int c = 0; c < m.c.ncpu; c++) {
		u64 a = (u64) cptr(x.ptr, c, m.c.stride), e = a + x.len;
		auto i = owned.lower_bound(a);
		if ((i != owned.end() && i->first < e) || (i != owned.begin() && std::prev(i)->second.first > a))
			violate_of("C14 C16", "overlap", "a new item (pool %d, length %llu) shares memory with a live item, CPU %d", m.idx, (unsigned long long) x.len, c);
		owned[a] = { e, it };
	}
}
static void own_del(PoolM &m, int it) { Item &x = items[it]; for (int c = 0; c < m.c.ncpu; c++) owned.erase((u64) cptr(x.ptr, c, m.c.stride)); }

static void check_item(int it, const char *when) {
	Item &x = items[it]; if (x.st != 2) return;
	PoolM &m = pools[x.pool];
	for (int c = 0; c < m.c.ncpu; c++) {
		const u8 *p = (const u8 *) cptr(x.ptr, c, m.c.stride), *q = x.exp.data() + c * x.len;
		if (memcmp(p, q, x.len)) {
			u64 o = 0; while (p[o] == q[o]) o++;
			violate_of("C14 C15 C19", "content-changed", "byte %llu of a live item (pool %d, length %llu, CPU %d) changed from %02x to %02x, %s", (unsigned long long) o, x.pool, (unsigned long long) x.len, c, q[o], p[o], when);
		}
	}
}
static bool idle(PoolM &m, int self = 0) { return m.inprog == self; }
static void check_poison(PoolM &m, u64 ptr, const char *when) {
	PCfg &c = m.c; st_poison.hit();
	u64 link = 0; int nl = 0;
	for (int k = 0; k < c.ncpu; k++) {
		const u64 *w = (const u64 *) cptr(ptr, k, c.stride);
		for (u64 i = 0; i < c.item / 8; i++) {
			if (w[i] == c.poison) continue;
			if (i == 0 && !c.robust) {	// the allocator's own link
				if (nl++ && (w[0] != link || c.zero)) violate_of("C20", "poison-missing", "first word of a freed item holds %llx on CPU %d, %llx on another CPU, %s", (unsigned long long) w[0], k, (unsigned long long) link, when);
				link = w[0];
				if (link && L.pages.owner(link) == PageMap::NONE) violate_of("C20", "poison-missing", "first word of a freed item holds %llx on CPU %d (poison %llx), %s", (unsigned long long) link, k, (unsigned long long) c.poison, when);
				continue;
			}
			violate_of(c.robust ? "C20 C19" : "C20", "poison-missing", "word %llu of a freed item (length %llu) holds %llx on CPU %d, poison is %llx, %s", (unsigned long long) i, (unsigned long long) c.item, (unsigned long long) w[i], k, (unsigned long long) c.poison, when);
		}
	}
}
static void check_all(const char *when) {
	u64 budget = 1 << 18; int start = cur->op ? cur->op->id * 7 % NI : 0;
	for (int i = 0; i < NI && budget; i++) { int k = (start + i) % NI; if (items[k].st == 2) { check_item(k, when); u64 n = items[k].exp.size(); budget = budget > n ? budget - n : 0; } }
	for (auto &m : pools) if (m.exists && idle(m) && m.c.poisoned) { int n = 0; for (u64 f : m.freed) { if (n++ > 24) break; check_poison(m, f, when); } }
	for (auto &m : pools) if (m.exists && idle(m)) {
		u64 need = m.peak ? (m.peak + m.c.per - 1) / m.c.per : 1; if (need < 1) need = 1;
		u64 pg = ledger_pages(m.owner);
		if (m.unit && pg > need * m.unit) violate_of("C16 C17", "needless-growth", "pool %d maps %llu pages, %llu simultaneous items need at most %llu", m.idx, (unsigned long long) pg, (unsigned long long) m.peak, (unsigned long long) (need * m.unit));
		if (ledger_fds(m.owner)) violate_of("C17 C18", "fd-left", "pool %d keeps a file descriptor open", m.idx);
	}
}

// ---------------------------------------------------------------- pages (C24)
static void pm_check(PoolM &m, u64 ptr, bool is_free, bool needs_nonzero, bool fresh_base) {
	if (!pm_on) return;
	PCfg &c = m.c;
	for (int k = 0; k < c.ncpu; k++) {
		u64 a = (u64) cptr(ptr, k, c.stride), p0 = a & ~4095ULL, p1 = (a + c.item + 4095) & ~4095ULL;
		bool had = false; for (u64 p = p0; p < p1; p += 4096) if (priv_pages.count(p)) had = true;
		u64 q0 = p0, q1 = p1;
		if (fresh_base) { q0 = a & ~(c.stride - 1); q1 = q0 + c.stride; }
		for (u64 p = q0; p < q1; p += 4096) {
			if (priv_pages.count(p)) continue;
			int v = pagemap_private(p, !c.zero);
			if (v < 0) violate("no-pagemap", "cannot read the page map");
			if (!v) { if (p >= p0 && p < p1) st_shared.hit(); continue; }
			bool initem = p >= p0 && p < p1;
			bool ok = initem && (had || (c.zero && needs_nonzero) || (c.zero && !c.robust && is_free && k == 0 && p == p0));
			if (!ok) violate_of("C24", "page-not-shared", "%s made a page of CPU %d private although its content was already right (pool %d, %s policy, item length %llu)", is_free ? "freeing" : "allocating", k, m.idx, c.zero ? "zero" : "init", (unsigned long long) c.item);
			st_cow.hit();
			priv_pages.insert(p);
		}
	}
}

// ---------------------------------------------------------------- operations
static int do_alloc(PoolM &m, int it, int kind, u64 ilen, u64 seed) {
	progress();
	Thr &t = *cur; Item &x = items[it]; PCfg &c = m.c;
	static IBuf bufs[MAXT + 1];
	x.st = 1; x.pool = m.idx; x.len = c.item;
	if (m.inprog) st_conc.hit(); bool alone0 = !m.inprog;
	m.inprog++; u64 calls0 = ++m.calls;
	u64 mx = m.upper; m.up(); u64 watch = m.upper; m.watch.push_back(&watch); (void) mx;
	u64 lim = c.maxr ? c.maxr * c.per : ~0ULL;
	u64 have = (m.bases.empty() ? 1 : m.bases.size()) * c.per;
	IBuf &buf = bufs[t.id];
	u64 pg0 = ledger_pages(m.owner), hp0 = ledger_heap(m.owner);
	t.owner = m.owner; t.hard = 0; cb_added[t.id].clear();
	void *r; errno = 0;
	bool wrap = c.global || (seed & 1);
	if (kind == K_MALLOC) r = wrap ? rseq_mempool_malloc(m.h) : rseq_mempool_percpu_malloc(m.h);
	else if (kind == K_ZMALLOC) r = wrap ? rseq_mempool_zmalloc(m.h) : rseq_mempool_percpu_zmalloc(m.h);
	else {
		buf.resize(ilen ? ilen : 1);
		if (seed % 5 == 0) memset(buf.data(), 0, buf.size());
		else if (seed % 5 == 1 && c.poisoned) for (u64 i = 0; i < ilen; i++) buf[i] = (u8) (c.poison >> (i % 8 * 8));
		else patfill(buf.data(), seed, 0, ilen);
		u64 sum = buf.sum();
		r = wrap ? rseq_mempool_malloc_init(m.h, buf.data(), ilen) : rseq_mempool_percpu_malloc_init(m.h, buf.data(), ilen);
		if (buf.sum() != sum) violate_of("C15", "source-changed", "the caller's initial content was overwritten");
	}
	int e = errno;
	t.owner = -1; m.inprog--;
	for (size_t i = 0; i < m.watch.size(); i++) if (m.watch[i] == &watch) { m.watch.erase(m.watch.begin() + i); break; }
	bool alone = alone0 && m.calls == calls0 && m.inprog == 0;
	u64 occ = watch - 1;		// most items others can have held at one time during the call
	trace_ev(0x20, r != nullptr, e, t.hard);
	if (!r) {
		numa_drop(m);
		x.st = 0; m.upper--;
		if (kind == K_INIT && ilen > c.item) { if (e != EINVAL) violate_of("C17 C15", "bad-errno", "oversized initialised allocation fails with errno %d", e); }
		else {
			if (e != ENOMEM) violate_of("C16 C17", "bad-errno", "allocation fails with errno %d instead of ENOMEM", e);
			if (occ < have) violate_of("C16", "capacity-lost", "allocation fails although at most %llu of %llu items of the existing ranges were in use (pool %d)", (unsigned long long) occ, (unsigned long long) have, m.idx);
			if (occ < lim && !t.hard) violate_of("C16 C17", "capacity-lost", "allocation fails although at most %llu of %llu items were in use and nothing failed (pool %d)", (unsigned long long) occ, (unsigned long long) lim, m.idx);
			if (occ >= lim) st_full.hit(); else st_gfail.hit();
		}
		if (alone && (ledger_pages(m.owner) != pg0 || ledger_heap(m.owner) != hp0 || ledger_fds(m.owner)))
			violate_of("C17", "trace-left", "failed allocation keeps resources: pages %llu -> %llu, heap blocks %llu -> %llu, descriptors %llu", (unsigned long long) pg0, (unsigned long long) ledger_pages(m.owner), (unsigned long long) hp0, (unsigned long long) ledger_heap(m.owner), (unsigned long long) ledger_fds(m.owner));
		return -1;
	}
	if (kind == K_INIT && ilen > c.item) violate_of("C15 C17 C14", "oversized", "initialised allocation of %llu bytes accepted by a pool of %llu", (unsigned long long) ilen, (unsigned long long) c.item);
	if (t.hard & MUSTFAIL) violate_of("C17", "failure-ignored", "allocation succeeded although a resource request failed (sites %llx)", (unsigned long long) t.hard);
	st_alloc.hit();
	x.ptr = (u64) r;
	u64 base = x.ptr & ~(c.stride - 1);
	if ((x.ptr & (c.stride - 1)) + c.item > c.stride || (x.ptr & 7)) violate_of("C14", "straddle", "item of %llu bytes at offset %llu of a %llu byte region", (unsigned long long) c.item, (unsigned long long) (x.ptr & (c.stride - 1)), (unsigned long long) c.stride);
	for (int k = 0; k < c.ncpu; k++) {
		u64 a = (u64) cptr(x.ptr, k, c.stride);
		if (a != x.ptr + (u64) k * c.stride) violate_of("C14", "percpu-ptr", "rseq_percpu_ptr gives a wrong address for CPU %d", k);
		{ if (!L.pages.covers(a, a + c.item, m.owner)) violate_of("C14", "foreign-memory", "item lies outside the pool's memory, CPU %d", k); }
		if (c.init) {
			auto i = m.regions.upper_bound(a); bool ok = i != m.regions.begin();
			if (ok) { --i; ok = a + c.item <= i->first + i->second.len && i->second.cpu == cpu_of_region(m, k) && i->second.count == 1; }
			if (!ok) violate_of("C23", "not-initialised", "item handed out in memory that was not initialised for CPU %d", k);
		}
	}
	own_add(m, it);
	bool fresh_base = m.bases.insert(base).second;
	if (fresh_base && m.bases.size() > 1) st_grow.hit();
	bool fresh = m.used.insert(x.ptr).second; if (!fresh) st_recycle.hit();
	m.freed.erase(x.ptr);
	if (m.upper > lim) { u64 live = 0; for (auto &y : items) if (y.st == 2 && y.pool == m.idx) live++; if (live + 1 > lim) violate_of("C16", "capacity-invented", "pool %d serves %llu live items, its limit is %llu", m.idx, (unsigned long long) live + 1, (unsigned long long) lim); }
	if (c.maxr && m.bases.size() > c.maxr) violate_of("C16", "too-many-ranges", "pool %d uses %zu ranges, its limit is %llu", m.idx, m.bases.size(), (unsigned long long) c.maxr);
	// content
	x.exp.resize(c.ncpu * c.item);
	for (int k = 0; k < c.ncpu; k++) {
		const u8 *p = (const u8 *) cptr(x.ptr, k, c.stride);
		memcpy(x.exp.data() + k * c.item, p, c.item);
		if (kind == K_ZMALLOC) { for (u64 o = 0; o < c.item; o++) if (p[o]) violate_of("C15", "not-zeroed", "byte %llu of a zeroed item of %llu is %02x on CPU %d (%s)", (unsigned long long) o, (unsigned long long) c.item, p[o], k, fresh ? "fresh" : "recycled"); }
		else if (kind == K_INIT) { for (u64 o = 0; o < ilen; o++) if (p[o] != buf[o]) violate_of("C15", "not-initialised-content", "byte %llu of an initialised item (%llu of %llu) is %02x instead of %02x on CPU %d (%s)", (unsigned long long) o, (unsigned long long) ilen, (unsigned long long) c.item, p[o], buf[o], k, fresh ? "fresh" : "recycled"); }
		if (fresh && (c.flags & F_INITW) && kind != K_ZMALLOC) {
			u64 off = x.ptr - base, from = kind == K_INIT ? ilen : 0, sd = mix(m.owner, (u64) (i64) cpu_of_region(m, k));
			for (u64 o = from; o < c.item; o++) if (p[o] != patb(sd, off + o)) violate_of("C23 C14", "init-lost", "fresh item does not hold what the init callback wrote, byte %llu CPU %d", (unsigned long long) o, k);
		}
	}
	x.st = 2;
	if (!alone && pm_on) for (int k = 0; k < c.ncpu; k++) for (u64 a = (u64) cptr(x.ptr, k, c.stride), g = a & ~4095ULL; g < a + c.item; g += 4096) priv_pages.insert(g);
	if (alone) {
		bool nz = false; if (kind == K_INIT) for (u64 i = 0; i < ilen; i++) if (buf[i]) nz = true;
		pm_check(m, x.ptr, false, nz, fresh_base);
	}
	return it;
}
static void do_free(int it) {
	progress();
	Thr &t = *cur; Item &x = items[it]; PoolM &m = pools[x.pool]; PCfg &c = m.c;
	check_item(it, "before its free");
	own_del(m, it);
	x.st = 1; if (m.inprog) st_conc.hit(); bool alone0 = !m.inprog;
	m.inprog++; u64 calls0 = ++m.calls; u64 ptr = x.ptr;
	t.owner = m.owner; t.hard = 0;
	pfree(ptr, c.stride, c.ncpu == 1, (u64) it);
	t.owner = -1; m.inprog--; m.upper--;
	bool alone = alone0 && m.calls == calls0 && m.inprog == 0;
	x.st = 0; x.exp.clear();
	if (!alone && pm_on) for (int k = 0; k < c.ncpu; k++) for (u64 a = (u64) cptr(ptr, k, c.stride), g = a & ~4095ULL; g < a + c.item; g += 4096) priv_pages.insert(g);
	bool taken = owned.count(ptr);
	trace_ev(0x21, alone);
	if (!taken) m.freed.insert(ptr);
	if (m.inprog) {	// somebody may be taking it right now; do not look
		if (!taken) m.freed.erase(ptr);
		return;
	}
	if (!taken && c.poisoned) check_poison(m, ptr, "right after its free");
	if (alone) pm_check(m, ptr, true, c.poisoned && c.poison, false);
}

static Stat st_decoy("pool:attributes_set_again");
static bool do_create(const Op &o, PoolM &m) {
	Thr &t = *cur;
	int idx = (int) (&m - pools), gen = m.gen + 1;
	PoolM n; n.idx = idx; n.gen = gen; n.owner = 100 + idx + gen * 16;
	n.c.req = (u64) o.a[1]; n.c.stride = (u64) o.a[2]; n.c.ncpu = (int) o.a[3]; n.c.flags = (int) o.a[4]; n.c.poison = (u64) o.a[5]; n.c.maxr = (u64) o.a[6];
	int defcpu = (int) P->c("defcpu", 2);
	n.c.derive(); if (n.c.flags & F_DEFATTR) n.c.ncpu = defcpu;
	m = n; m.inprog = 1;
	PCfg &c = m.c;
	struct rseq_mempool_attr *a = nullptr;
	t.owner = m.owner; t.hard = 0; cb_added[t.id].clear();
	int ar = 0;
	if (!(c.flags & F_DEFATTR)) {
		errno = 0; a = rseq_mempool_attr_create(); int e = errno;
		if (!a) { t.owner = -1; m.inprog = 0;
			if (!t.hard) violate_of("C17", "attr-failed", "attribute creation failed although nothing failed");
			if (e != ENOMEM) violate_of("C17", "bad-errno", "attribute creation failed with errno %d", e);
			return false; }
		u64 d = mix((u64) o.id * 31 + (u64) o.a[1], 0xdec0);
		if (d % 3 == 0) {	// earlier settings, all of them overridden below
			st_decoy.hit();
			if (d >> 8 & 1) ar |= rseq_mempool_attr_set_global(a, W.page * 16);
			if (d >> 9 & 1) ar |= rseq_mempool_attr_set_percpu(a, W.page * 2, 7);
			if (c.init) ar |= rseq_mempool_attr_set_init(a, nullptr, nullptr);
			ar |= rseq_mempool_attr_set_populate_policy(a, c.flags & F_ZERO ? RSEQ_MEMPOOL_POPULATE_COW_INIT : RSEQ_MEMPOOL_POPULATE_COW_ZERO);
			if (c.flags & F_POISON) ar |= rseq_mempool_attr_set_poison(a, ~c.poison);
			ar |= rseq_mempool_attr_set_max_nr_ranges(a, 1 + (d >> 10) % 4); if (!c.maxr) ar |= rseq_mempool_attr_set_max_nr_ranges(a, 0);
		}
		bool early = d >> 16 & 1;
		if (early && (c.flags & F_POISON)) ar |= rseq_mempool_attr_set_poison(a, c.poison);
		if (!c.maxr && (d >> 20) % 4 == 0) ar |= rseq_mempool_attr_set_max_nr_ranges(a, d >> 24 & 1 ? (1UL << 32) + 1 : (1UL << 63) + 1);	// as good as none
		int pol = c.flags & F_ZERO ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT;
		if (c.flags & F_POLFIRST) ar |= rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy) pol);
		if (c.init) ar |= rseq_mempool_attr_set_init(a, init_cb, &m);
		if (!(c.flags & F_POLFIRST)) ar |= rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy) pol);
		u64 sarg = c.stride == 65536 && (o.id & 1) ? 0 : c.stride;	// 0: default
		ar |= c.global ? rseq_mempool_attr_set_global(a, sarg) : rseq_mempool_attr_set_percpu(a, sarg, c.ncpu == defcpu && (o.id & 2) ? 0 : c.ncpu);	// 0: as detected
		if (c.robust) ar |= rseq_mempool_attr_set_robust(a);
		if (c.maxr) ar |= rseq_mempool_attr_set_max_nr_ranges(a, c.maxr);
		if (!early && (c.flags & F_POISON)) ar |= rseq_mempool_attr_set_poison(a, c.poison);
		if (ar) violate_of(ALLP, "attr-refused", "valid attribute refused");
	}
	static const std::string lname(400, 'n');
	t.hard = 0; errno = 0;
	m.h = rseq_mempool_create(c.flags & F_NAMED ? (c.flags & F_LONGNAME ? lname.c_str() : "sim") : nullptr, c.req, a);
	int e = errno; u64 hard = t.hard;
	// the attribute object is independent from now on
	if (a) {
		rseq_mempool_attr_set_poison(a, 0x1111); rseq_mempool_attr_set_max_nr_ranges(a, 1); rseq_mempool_attr_set_robust(a); rseq_mempool_attr_set_percpu(a, 4096, 1);
		rseq_mempool_attr_set_init(a, nullptr, nullptr);
		rseq_mempool_attr_destroy(a);
	}
	t.owner = -1;
	trace_ev(0x22, m.h != nullptr, e, hard);
	if (!m.h) {
		numa_drop(m); m.inprog = 0;
		st_cfail.hit();
		if (!(hard & MUSTFAIL)) violate_of("C17", "create-failed", "valid pool creation failed (errno %d) although nothing failed", e);
		if (e != ENOMEM && e != t.hard_errno) violate_of("C17", "bad-errno", "pool creation failed with errno %d", e);
		if (ledger_pages(m.owner) || ledger_heap(m.owner) || ledger_fds(m.owner))
			violate_of("C17 C18", "trace-left", "failed pool creation keeps %llu pages, %llu heap blocks, %llu descriptors", (unsigned long long) ledger_pages(m.owner), (unsigned long long) ledger_heap(m.owner), (unsigned long long) ledger_fds(m.owner));
		return false;
	}
	if (hard & MUSTFAIL) violate_of("C17 C23", "failure-ignored", "pool creation succeeded although a resource request failed (sites %llx)", (unsigned long long) hard);
	st_create.hit();
	if (ledger_fds(m.owner)) violate_of("C17 C18", "fd-left", "pool creation keeps a file descriptor open");
	m.unit = ledger_pages(m.owner);
	if (c.init && m.regions.size() != (u64) c.ncpu) violate_of("C23", "cb-count", "pool creation called the init callback for %zu of %d CPUs", m.regions.size(), c.ncpu);
	errno = 0; int nc = rseq_mempool_get_max_nr_cpus(m.h);
	if (c.global ? nc != -1 || errno != EINVAL : nc != c.ncpu) violate_of("C23", "cpu-count", "pool reports %d CPUs, configured %d%s", nc, c.ncpu, c.global ? " (global)" : "");
	m.inprog = 0; m.exists = true;
	return true;
}
static void drop_items(PoolM &m) { for (int i = 0; i < NI; i++) if (items[i].st == 2 && items[i].pool == m.idx) { check_item(i, "before destroy"); own_del(m, i); items[i].st = 0; items[i].exp.clear(); m.upper--; } }
static void drain(PoolM &m) { for (int i = 0; i < NI; i++) if (items[i].st == 2 && items[i].pool == m.idx) do_free(i); }
static void forget_pages(PoolM &m) { for (u64 b : m.bases) for (u64 p = b; p < b + (u64) m.c.ncpu * m.c.stride; p += 4096) priv_pages.erase(p); for (auto &r : m.regions) for (u64 p = r.first; p < r.first + r.second.len; p += 4096) priv_pages.erase(p); }
static void do_destroy(PoolM &m, bool faults) {
	progress();
	Thr &t = *cur;
	bool anybusy = false; for (auto &x : items) if (x.st == 1 && x.pool == m.idx) anybusy = true;
	if (anybusy || m.inprog || m.closing) return;
	m.closing = true;	// nobody else may use it any more
	if (m.c.robust) drain(m); else drop_items(m);
	m.exists = false;
	forget_pages(m);
	for (int tries = 0; ; tries++) {
		u64 pg0 = ledger_pages(m.owner);
		t.owner = m.owner; t.hard = 0; t.unmap_faults = faults && tries < 3; t.nofaults = tries >= 3;
		errno = 0; int r = rseq_mempool_destroy(m.h); int e = errno;
		t.owner = -1; t.unmap_faults = false; t.nofaults = false;
		trace_ev(0x23, (u64) (i64) r, e, t.hard);
		if (t.hard >> S_F_MUNMAP & 1) {
			st_dfail.hit();
			if (r == 0) violate_of("C18", "destroy-false-success", "destroy returned 0 although unmapping failed (%llu of %llu pages still mapped)", (unsigned long long) ledger_pages(m.owner), (unsigned long long) pg0);
			if (r != -1 || e != t.hard_errno) violate_of("C18", "bad-errno", "destroy returned %d with errno %d, unmapping failed with %d", r, e, t.hard_errno);
			st_dretry.hit();
			if (tries > 6) violate_of("C18", "destroy-never", "destroy never completes");
			continue;
		}
		if (r) violate_of("C18", "destroy-failed", "destroy returned %d (errno %d) although nothing failed", r, e);
		break;
	}
	st_destroy.hit(); m.closing = false;
	if (ledger_pages(m.owner) || ledger_heap(m.owner) || ledger_fds(m.owner))
		violate_of("C18", "leak", "destroyed pool leaves %llu pages, %llu heap blocks, %llu descriptors", (unsigned long long) ledger_pages(m.owner), (unsigned long long) ledger_heap(m.owner), (unsigned long long) ledger_fds(m.owner));
}

// ---------------------------------------------------------------- misuse of robust pools
static bool on_abort(const char *) { if (expecting == cur->id) { expect_stat->hit(); trace_ev(0x30); return true; } return false; }
static void expect(const char *w, Stat &s) { expecting = cur->id; expect_what = w; expect_stat = &s; }
static void do_misuse(const Op &o, PoolM &m) {
	if (!m.exists || m.closing || !m.c.robust) return;
	for (auto &p : pools) if (p.inprog) return;		// only between calls
	for (auto &x : items) if (x.st == 1) return;
	S.sched_on = false; S.faults_on = false;
	Thr &t = *cur; PCfg &c = m.c; int kind = (int) o.a[1]; u64 s = (u64) o.a[2];
	auto pick = [&](u64 salt) { size_t k = mix(s, salt) % m.freed.size(); auto i = m.freed.begin(); std::advance(i, k); return *i; };
	auto back = [&] { S.sched_on = true; S.faults_on = true; };
	if (kind == 1 || kind == 3) if (o.a[3] & 1) drain(m);
	if (kind != 2 && m.freed.empty()) { back(); return; }
	t.owner = m.owner;
	if (kind == 0) {
		u64 f = pick(1);
		expect("double free", st_mis_df);
		pfree(f, c.stride, c.ncpu == 1, f >> 3);
		expecting = -1;
		violate_of("C19", "missed-double-free", "freeing an item twice was not detected (pool %d, %zu freed items)", m.idx, m.freed.size());
	}
	if (kind == 1) {
		u64 f = pick(2); int k = (int) (mix(s, 3) % (u64) c.ncpu); u64 off = mix(s, 4) % 3 == 0 ? c.item - 1 - mix(s, 5) % 8 : mix(s, 5) % c.item;
		u8 *b = (u8 *) cptr(f, k, c.stride) + off; u8 v = (u8) mix(s, 6); if (v == *b) v ^= 0x40;
		*b = v;
		bool by_destroy = o.a[3] & 2;
		if (!by_destroy) {	// take items until this one comes up
			for (u64 n = 0; n < m.used.size() + 2; n++) {
				expect("write after free", st_mis_po);
				void *r = n & 1 ? rseq_mempool_percpu_zmalloc(m.h) : rseq_mempool_percpu_malloc(m.h);
				expecting = -1;
				if ((u64) r == f) violate_of("C19", "missed-corruption", "a freed item was written at byte %llu of %llu on CPU %d and handed out again", (unsigned long long) off, (unsigned long long) c.item, k);
				if (!r) break;
			}
			violate_of("C19 C16", "freed-item-unavailable", "the freed item never came up again");
		}
		drain(m); t.owner = m.owner;
		expect("write after free", st_mis_po);
		int r = rseq_mempool_destroy(m.h);
		expecting = -1;
		violate_of("C19", "missed-corruption", "destroy returned %d although a freed item was written at byte %llu of %llu on CPU %d", r, (unsigned long long) off, (unsigned long long) c.item, k);
	}
	if (kind == 2) {
		int live = 0, keep = -1; for (int i = 0; i < NI; i++) if (items[i].st == 2 && items[i].pool == m.idx) { live++; if (mix(s, i) % (u64) live == 0) keep = i; }
		if (!live) { t.owner = -1; back(); return; }
		if (o.a[3] & 1) { for (int i = 0; i < NI; i++) if (i != keep && items[i].st == 2 && items[i].pool == m.idx) do_free(i); t.owner = m.owner; }
		expect("leak", st_mis_leak);
		int r = rseq_mempool_destroy(m.h);
		expecting = -1;
		violate_of("C19", "missed-leak", "destroy returned %d although items are still allocated", r);
	}
	if (kind == 3) {
		drain(m); t.owner = m.owner;
		// find the links: words outside the CPUs' memory, at the items' offsets, that lead to one another
		std::vector<u64 *> links;
		for (u64 f : m.freed) for (int k = c.ncpu; k < c.ncpu + 2; k++) {
			u64 a = f + (u64) k * c.stride; 
			if (L.pages.owner(a) != m.owner) continue;
			links.push_back((u64 *) a);
		}
		// the list's area is the one where some word points into the same area
		std::vector<u64 *> real;
		for (u64 *l : links) { bool ok = false; for (u64 *q : links) if (*l == (u64) q) ok = true; if (ok) real.push_back(l); }
		if (real.empty()) { t.owner = -1; back(); return; }
		u64 *l = real[mix(s, 7) % real.size()]; u64 old = *l, nv = 0;
		switch (mix(s, 8) % 4) {
		case 0: nv = 0; break;
		case 1: nv = (u64) l; break;				// loop
		case 2: { u64 *q = real[mix(s, 9) % real.size()]; nv = (u64) q; break; }
		case 3: nv = mix(s, 10) & 0x7fff0000fff8ULL; break;	// anywhere
		}
		if (nv == old) nv = 0;
		*l = nv;
		expect("free list", st_mis_fl);
		int r = rseq_mempool_destroy(m.h);
		expecting = -1;
		violate_of("C19", "missed-free-list", "destroy returned %d although the free list was corrupted (%llx -> %llx, %zu freed items)", r, (unsigned long long) old, (unsigned long long) nv, m.freed.size());
	}
	t.owner = -1; back();
}

static void do_bad(const Op &o) {
	Thr &t = *cur; t.owner = 50 + t.id; st_bad.hit();
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	if (!a) { t.owner = -1; return; }
	u64 stride = 65536, len = 64; int ncpu = 2, r = 0; bool setpol = false;
	auto nul = [&](int rc, const char *w) { if (rc != -1 || errno != EINVAL) violate_of("C17", "null-attr", "%s without attribute returned %d (errno %d)", w, rc, errno); errno = 0; };
	errno = 0;
	switch (o.a[1] % 9) {
	case 0: stride = W.page; len = W.page + 1; break;
	case 1: stride = 3 * 4096; break;
	case 2: stride = o.a[2] & 1 ? W.page / 2 : 2048; len = 8; break;
	case 3: ncpu = -1 - (int) (o.a[2] % 5); break;
	case 4: setpol = true; break;
	case 5: len = 65537 + (u64) o.a[2] % 100000; break;
	case 6: nul(rseq_mempool_attr_set_robust(nullptr), "set_robust"); nul(rseq_mempool_attr_set_percpu(nullptr, 4096, 1), "set_percpu"); nul(rseq_mempool_attr_set_global(nullptr, 4096), "set_global");
		nul(rseq_mempool_attr_set_max_nr_ranges(nullptr, 1), "set_max_nr_ranges"); nul(rseq_mempool_attr_set_poison(nullptr, 1), "set_poison"); nul(rseq_mempool_attr_set_init(nullptr, init_cb, nullptr), "set_init");
		nul(rseq_mempool_attr_set_populate_policy(nullptr, RSEQ_MEMPOOL_POPULATE_COW_ZERO), "set_populate_policy"); errno = 0; nul(rseq_mempool_get_max_nr_cpus(nullptr), "get_max_nr_cpus");
		if (rseq_mempool_destroy(nullptr)) violate_of("C17 C18", "null-pool", "destroying no pool fails");
		len = 70000; break;
	case 7: len = (1ULL << 63) + 1 + (u64) o.a[2] % 1000; break;
	case 8: stride = 0x7fff; len = 1; break;
	}
	if (o.a[3] & 1) { r = rseq_mempool_attr_set_global(a, stride); if (o.a[1] % 9 == 3) { r = rseq_mempool_attr_set_percpu(a, stride, ncpu); } } else r = rseq_mempool_attr_set_percpu(a, stride, ncpu);
	if (setpol) r |= rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy) (2 + o.a[2] % 7));
	if (o.a[3] & 2) r |= rseq_mempool_attr_set_robust(a);
	if (!r) {
		errno = 0; t.hard = 0;
		struct rseq_mempool *p = rseq_mempool_create("bad", len, a); int e = errno;
		trace_ev(0x24, p != nullptr, e);
		if (p) violate_of("C17", "bad-accepted", "invalid pool parameters accepted (item %llu, stride %llu, %d CPUs, variant %d)", (unsigned long long) len, (unsigned long long) stride, ncpu, (int) (o.a[1] % 9));
		if (e != EINVAL) violate_of("C17", "bad-errno", "invalid pool parameters give errno %d", e);
	}
	rseq_mempool_attr_destroy(a);
	if (ledger_pages(t.owner) || ledger_heap(t.owner) || ledger_fds(t.owner)) violate_of("C17", "trace-left", "rejected pool creation keeps resources");
	t.owner = -1;
}

static int free_slot(u64 want) { int s = (int) (want % NI); for (int i = 0; i < NI; i++) if (!items[(s + i) % NI].st) return (s + i) % NI; return -1; }
static bool usable(int i, int pool) { return items[i].st == 2 && (pool < 0 || items[i].pool == pool) && !pools[items[i].pool].closing; }
static int live_slot(u64 want, int pool) { int n = 0; for (int i = 0; i < NI; i++) n += usable(i, pool); if (!n) return -1; int k = (int) (want % (u64) n); for (int i = 0; i < NI; i++) if (usable(i, pool) && k-- == 0) return i; return -1; }

// ---------------------------------------------------------------- fork
#include "fork.inc"
static void exec(const Op &o) {
	switch (o.code) {
	case O_CREATE: { PoolM &m = pools[o.a[0]]; if (!m.exists && !m.inprog && !m.closing) do_create(o, m); break; }
	case O_DESTROY: { PoolM &m = pools[o.a[0]]; if (m.exists && !m.closing) do_destroy(m, o.a[1]); break; }
	case O_ALLOC: { PoolM &m = pools[o.a[0]]; int it = free_slot((u64) o.a[1]); if (!m.exists || m.closing || it < 0) break; u64 il = (u64) o.a[3]; if (il > m.c.item && !o.a[5]) il = m.c.item - il % (m.c.item + 1); do_alloc(m, it, (int) o.a[2], il, (u64) o.a[4]); break; }
	case O_FREE: { int it = live_slot((u64) o.a[1], (int) o.a[0]); if (it >= 0) do_free(it); break; }
	case O_WRITE: {
		int it = live_slot((u64) o.a[1], -1); if (it < 0) break;
		Item &x = items[it]; PoolM &m = pools[x.pool];
		u64 off = 0, n = x.len; if (o.a[3] & 1) { off = mix(o.a[4], 1) % x.len; n = 1 + mix(o.a[4], 2) % (x.len - off); }
		for (int c = 0; c < m.c.ncpu; c++) {
			if (!(o.a[2] >> c & 1)) continue;
			u8 *p = (u8 *) cptr(x.ptr, c, m.c.stride) + off;
			if (o.a[3] & 2) memset(p, o.a[3] & 4 ? 0 : 0xff, n); else patfill(p, mix(o.a[4], c), off, n);
			memcpy(x.exp.data() + c * x.len + off, p, n);
			for (u64 g = (u64) p & ~4095ULL; g < (u64) p + n; g += 4096) priv_pages.insert(g);
		}
		break;
	}
	case O_CHECK: check_all("later"); break;
	case O_FILL: {
		PoolM &m = pools[o.a[0]];
		int n = (int) o.a[1]; if (m.c.item >= 1024 && n > 12) n = 12;
		for (int i = 0; i < n && m.exists && !m.closing; i++) { int it = free_slot((u64) i); if (it < 0 || do_alloc(m, it, i % 3 == 2 ? K_ZMALLOC : K_MALLOC, 0, (u64) o.a[4] + i) < 0) break; }
		break;
	}
	case O_DRAIN: { PoolM &m = pools[o.a[0]]; if (m.exists && !m.closing) drain(m); break; }
	case O_BAD: do_bad(o); break;
	case O_FORK: do_fork(o, (u64) o.a[1], (int) o.a[2], 0); break;
	case O_MISUSE: do_misuse(o, pools[o.a[0]]); break;
	case O_NUMA: {
		u64 addr = 0x200000000000ULL + (u64) o.a[1] * W.page;
		numa_call(addr, (u64) o.a[2] * W.page, (int) o.a[3], (int) o.a[4], (int) o.a[5], EPERM, (int) o.a[6], o.a[7]);
		break;
	}
	case O_PTR: {
		u64 st = 1ULL << (12 + (u64) o.a[1] % 10); int cpu = (int) ((u64) o.a[2] & 0x7fffffff); char *b = (char *) (0x10000ULL * (1 + (u64) o.a[3] % 1000));
		if ((u64) rseq_percpu_ptr(b, cpu, st) != (u64) b + (u64) cpu * st || (u64) rseq_percpu_ptr(b, cpu) != (u64) b + (u64) cpu * 65536) violate_of("C14", "percpu-ptr", "rseq_percpu_ptr gives a wrong address for CPU %d stride %llu", cpu, (unsigned long long) st);
		break;
	}
	}
}

static void run_pool(Plan &p) {
	P = &p; Sim &s = S;
	s.ncpu = 4; s.cap = 30000000; pm_on = p.c("pm");
	s.p_yield = p.c("p_yield") * 1e-6; s.p_opb = p.c("p_opb") * 1e-6; s.w_sw = 3; s.w_pre = 1; s.w_mig = 1; s.w_resched = 0;
	s.p_fault = p.c("p_fault") * 1e-6; s.fault_mask = (u64) p.c("fmask");
	W.has_off = W.has_size = W.has_flags = false;
	int defcpu = (int) p.c("defcpu", 2); W.possible = defcpu > 1 ? "0-" + std::to_string(defcpu - 1) : "0";
	W.numa_node = [](int c) { NumaJob *j = numa[cur->id]; if (j && j->bad_node) { errno = EINVAL; return -1; } return (int) numa_node_of(c); };
	W.move_pages = on_move_pages;
	s.on_abort = on_abort; s.invariant = [] { check_all("after an operation"); };
	W.page = (u64) p.c("page", 4096); W.page_unknown = p.c("nopage") != 0; if (W.page != 4096) st_page.hit();
	seams_setup((u64) p.c("mseed"), (int) p.c("skew"));
	lib_ctor();
	int nthr = (int) p.c("nthr");
	for (int i = 0; i < nthr; i++) spawn([i] { for (auto &o : P->ops) if (o.tid == i) { op_begin(o); exec(o); op_end(); } }, i % 4);
	run_threads();
	// quiet end: faults stopped, everything must still work and go away
	s.faults_on = false; s.sched_on = false;
	check_all("at the end");
	spawn([] {
		static Op eo; eo.id = 888888; op_begin(eo);
		for (auto &m : pools) if (m.exists) {
			// progress: once failures stop, capacity is back
			int it = free_slot(0);
			u64 lim = m.c.maxr ? m.c.maxr * m.c.per : ~0ULL;
			if (it >= 0 && m.upper < lim) { if (do_alloc(m, it, K_ZMALLOC, 0, 0) < 0) violate_of("C17 C16", "not-usable", "pool %d cannot serve although resources are back", m.idx); do_free(it); }
			do_destroy(m, false);
		}
	}, 0);
	s.th[nthr].cpu = 0;
	run_threads();
	for (auto &m : pools) if (m.exists) violate_of("C18", "not-destroyed", "pool %d could not be destroyed", m.idx);
	u64 hp = 0; for (auto &h : L.heap) if (h.second.second >= 50) hp++;
	if (hp || !L.pages.empty() || !L.fds.empty()) violate_of("C18 C17", "leak", "after all pools are gone: %llu pages, %llu heap blocks, %zu descriptors", (unsigned long long) L.pages.size(), (unsigned long long) hp, L.fds.size());
}

static u64 gen_page;
static void gen_create(Op &o, Rng &r, const std::string &prop, int idx) {
	o.code = O_CREATE; o.a[0] = idx;
	u64 stride = r.pick<u64>({ 4096, 4096, 8192, 16384, 65536, 65536 }); while (stride < gen_page) stride *= 2;
	u64 item; switch (r.below(6)) { case 0: item = 1 + r.below(16); break; case 1: item = 8ULL << r.below(5); break; case 2: item = stride >> r.below(4); break; case 3: item = (stride >> r.below(3)) - r.below(3); break; case 4: item = 1 + r.below(stride); break; default: item = 64; }
	if (prop == "C16" || prop == "C17") if (r.p(0.6)) item = stride >> r.below(5);
	if (item < 1) item = 1;
	int fl = 0; i64 ncpu = r.pick<i64>({ 1, 1, 2, 2, 3, 4, 5 });
	if (r.p(0.5)) fl |= F_ZERO;
	if (r.p(prop == "C19" ? 0.97 : prop == "C24" ? 0.35 : 0.4)) fl |= F_ROBUST;
	if (r.p(0.12)) fl |= F_GLOBAL;
	if (r.p(0.6)) fl |= F_NAMED; if (r.p(0.1)) fl |= F_LONGNAME;
	if (r.p(prop == "C20" ? 0.7 : 0.25)) fl |= F_POISON;
	if (r.p(0.04)) fl = F_DEFATTR | (fl & F_NAMED);
	if (r.p(prop == "C23" ? 0.9 : 0.3)) { fl |= F_INIT; if (r.p(prop == "C24" ? 0.1 : 0.5)) fl |= F_INITW; if (r.p(0.3)) fl |= F_POLFIRST; if (r.p(0.3)) fl |= F_NUMA; }
	if ((fl & F_DEFATTR) && item > 65536) item = 64;
	if (stride * (u64) ncpu > 65536 * 3 && r.p(0.6)) ncpu = 2;
	o.a[1] = (i64) item; o.a[2] = (i64) stride; o.a[3] = ncpu; o.a[4] = fl; o.a[5] = r.pick<i64>({ 0, 1, -1, 0x5555555555555555LL, (i64) r.next(), (i64) 0x8000000000000000ULL, (i64) 0xff00000000000000ULL, 0xff });
	o.a[6] = r.p(prop == "C16" ? 0.75 : 0.45) ? (i64) r.range(1, 3) : 0;
}
static void gen_pool(Plan &p, Rng &r, const std::string &prop) {
	auto &c = p.cfg;
	int nthr = r.pick<int>({ 1, 2, 2, 3, 3, 4 });
	if (prop == "C24") nthr = 1;
	if (prop == "C19" || prop == "C18" || prop == "C22" || prop == "C23") nthr = r.pick<int>({ 1, 1, 2, 3 });
	c["nthr"] = nthr; c["pm"] = prop == "C24";
	c["p_yield"] = nthr == 1 ? 0 : r.pick<i64>({ 500, 3000, 15000, 60000 }); c["p_opb"] = r.pick<i64>({ 50000, 300000 });
	c["mseed"] = (i64) (r.next() >> 1); c["skew"] = (i64) r.below(4); c["defcpu"] = (i64) r.range(1, 4);
	bool faults = r.p(prop == "C17" ? 0.95 : prop == "C18" ? 0.7 : prop == "C23" ? 0.5 : prop == "C16" ? 0.5 : 0.25);
	if (faults) {
		c["p_fault"] = r.pick<i64>({ 20000, 60000, 150000, 400000 }); u64 m = 0;
		for (int s : { S_F_MMAP, S_F_MMAP_FIXED, S_F_MADVISE, S_F_MEMFD, S_F_FTRUNC, S_F_CLOSE, S_F_MALLOC, S_F_CALLOC, S_F_STRDUP, S_F_INITCB, S_F_NUMANODE }) if (r.p(0.45)) m |= 1ULL << s;
		if (prop == "C18") m |= 1ULL << S_F_MUNMAP; else if (r.p(0.3)) m |= 1ULL << S_F_MUNMAP;
		c["fmask"] = (i64) m;
	}
	gen_page = !c["pm"] && r.p(0.12) ? r.pick<u64>({ 8192, 16384, 65536 }) : 4096; if (gen_page != 4096) c["page"] = (i64) gen_page; else if (r.p(0.03)) c["nopage"] = 1;
	int np = (int) r.pick<int>({ 1, 1, 2, 3 }); int id = 1;
	auto add = [&](Op o) { o.id = id++; p.ops.push_back(o); };
	for (int i = 0; i < np; i++) { Op o; o.tid = i % nthr; gen_create(o, r, prop, i); add(o); }
	int w[14] = { 0 };
	w[O_ALLOC] = 10; w[O_FREE] = (int) r.range(4, 10); w[O_WRITE] = 8; w[O_CHECK] = 1; w[O_FILL] = r.p(prop == "C16" ? 0.9 : 0.4) ? 2 : 0; w[O_DRAIN] = 1; w[O_CREATE] = 1; w[O_DESTROY] = prop == "C18" ? 2 : r.p(0.4);
	w[O_BAD] = prop == "C17" ? 1 : 0; w[O_NUMA] = prop == "C23" ? 2 : 0; w[O_PTR] = prop == "C14" ? 1 : 0; w[O_FORK] = prop == "C22" ? 1 : 0;
	int tot = 0; for (int x : w) tot += x;
	int per = (int) r.pick<int>({ 6, 12, 25, 40 }) ; if (nthr > 2 && per > 25) per = 25;
	for (int t = 0; t < nthr; t++) for (int i = 0; i < per; i++) {
		Op o; o.tid = t; int x = (int) r.below(tot); int code = 0; for (int k = 0; k < 14; k++) if ((x -= w[k]) < 0) { code = k; break; }
		o.code = code; o.a[0] = (i64) r.below(np);
		switch (code) {
		case O_CREATE: gen_create(o, r, prop, (int) r.below(np)); break;
		case O_ALLOC: o.a[1] = (i64) r.below(NI); o.a[2] = (i64) r.below(3); o.a[3] = (i64) (r.p(0.5) ? r.below(65537) : r.below(80)); o.a[4] = (i64) (r.next() >> 1); o.a[5] = r.p(0.05); break;
		case O_FREE: o.a[1] = (i64) r.below(1 << 20); if (r.p(0.4)) o.a[0] = -1; break;
		case O_WRITE: o.a[1] = (i64) r.below(1 << 20); o.a[2] = r.p(0.3) ? 31 : (i64) (1 << r.below(5)); o.a[3] = (i64) r.below(8); o.a[4] = (i64) (r.next() >> 1); break;
		case O_FILL: o.a[1] = (i64) r.range(1, 140); o.a[4] = (i64) (r.next() >> 1); break;
		case O_BAD: o.a[1] = (i64) r.below(1000); o.a[2] = (i64) r.below(1 << 20); o.a[3] = (i64) r.below(4); break;
		case O_DESTROY: o.a[1] = r.p(0.7); break;
		case O_NUMA: o.a[1] = (i64) r.below(1000); o.a[2] = r.pick<i64>({ 0, 1, 16, 4095, 4096, 4097, 8192, 8193, (i64) r.below(20000) }); o.a[3] = (i64) r.below(64); o.a[4] = r.p(0.1) ? 0 : r.pick<i64>({ 2, 4 });
			o.a[5] = r.p(0.2) ? (i64) r.below(3) : -1; o.a[6] = r.p(0.2) ? (i64) r.below(3) : -1; o.a[7] = r.p(0.05); break;
		case O_FORK: o.a[1] = (i64) (r.next() >> 1); o.a[2] = (i64) r.range(1, 14); break;
		case O_PTR: o.a[1] = (i64) r.below(100); o.a[2] = (i64) (r.next() >> 1); o.a[3] = (i64) (r.next() >> 1); break;
		}
		add(o);
	}
	if (prop == "C22" && r.p(0.8)) { Op o; o.tid = (int) r.below(nthr); o.code = O_FORK; o.a[1] = (i64) (r.next() >> 1); o.a[2] = (i64) r.range(2, 20); add(o); }
	if (prop == "C19" && r.p(0.85)) {
		// a misuse at some point, sometimes late
		int n = (int) r.range(1, 3);
		for (int i = 0; i < n; i++) { Op o; o.tid = (int) r.below(nthr); o.code = O_MISUSE; o.a[0] = (i64) r.below(np); o.a[1] = (i64) r.below(4); o.a[2] = (i64) (r.next() >> 1); o.a[3] = (i64) r.below(4); add(o); }
	}
}
static RegSc reg_pool(Scenario{ "pool", gen_pool, run_pool });
} // namespace
} // namespace sim
