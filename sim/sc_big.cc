// Scenario "big": pools whose regions or CPU counts are far larger than a test
// would use (offsets beyond 2 and 4 GiB, hundreds of CPUs). Contents are
// followed at sample words only: both ends of every item on selected CPUs.
#include "pool.h"
namespace sim {
namespace {
enum { O_CREATE = 1, O_DESTROY, O_ALLOC, O_FREE, O_FILL, O_WRITE, O_HUGE, O_SET };
enum { NP = 2, NI = 48 };
struct BigItem { int st = 0; u64 ptr = 0; int pool = 0; std::map<u64, u64> w; };	// sample words: address -> value
static Plan *P; static PoolM pools[NP]; static BigItem items[NI]; static std::vector<int> cpus[NP];
static u64 serial;
static Stat st_create("big:created"), st_alloc("big:allocated"), st_4g("big:beyond_4GiB"), st_cpu("big:over_64_cpus"), st_full("big:exhausted"), st_words("big:sample_words"), st_recycle("big:recycled_items"), st_huge("big:impossible_geometry"), st_set("big:sets_across_size_classes"), st_setreq("big:set_requests"), st_setfb("big:set_fell_back_over_classes");

static int cb(void *priv, void *addr, size_t len, int cpu) {
	PoolM *m = (PoolM *) priv; PCfg &c = m->c; u64 a = (u64) addr;
	if (len != c.stride) violate_of("C23", "cb-len", "init callback got length %zu, stride is %llu", len, (unsigned long long) c.stride);
	if (cpu < 0 || cpu >= c.ncpu) violate_of("C23", "cb-cpu", "init callback got CPU %d of %d", cpu, c.ncpu);
	if (m->regions.count(a)) violate_of("C23", "cb-twice", "init callback called twice for the same memory (CPU %d then %d)", m->regions[a].cpu, cpu);
	if (!L.pages.covers(a, a + len, m->owner)) violate_of("C23 C14", "cb-foreign", "init callback got memory that is not the pool's");
	m->regions[a] = Region{ len, cpu, 1 };
	return 0;
}
static void check_item(BigItem &x, const char *when) {
	for (auto &k : x.w) { st_words.hit(); if (*(u64 *) k.first != k.second) violate_of("C14 C15", "content-changed", "a word of a live item (pool %d, item length %llu, CPU %llu) changed from %llx to %llx, %s", x.pool, (unsigned long long) pools[x.pool].c.item, (unsigned long long) ((k.first - x.ptr) / pools[x.pool].c.stride), (unsigned long long) k.second, (unsigned long long) *(u64 *) k.first, when); }
}
static void check_all() { for (auto &x : items) if (x.st == 2) check_item(x, "after an operation"); }
static bool word_ok(const PCfg &c, u64 off) { return off + 8 <= c.item; }
static void put(BigItem &x, int cpu, u64 off) {
	PoolM &m = pools[x.pool]; if (!word_ok(m.c, off)) return;
	u64 a = (u64) cptr(x.ptr, cpu, m.c.stride) + off, v = mix(++serial, a) | 1;
	*(u64 *) a = v; x.w[a] = v;
}
static void write_item(BigItem &x, u64 seed) {
	PoolM &m = pools[x.pool];
	for (int k : cpus[x.pool]) { if (seed & 1) put(x, k, 0); if (seed & 2) put(x, k, m.c.item - 8); if (seed & 4) put(x, k, (m.c.item / 2) & ~7ULL); seed = seed * 0x9e3779b97f4a7c15ULL + 11; }
}
static bool do_alloc(int pi, int it, int kind, u64 seed) {
	progress();
	PoolM &m = pools[pi]; PCfg &c = m.c; BigItem &x = items[it]; Thr &t = *cur;
	if (kind == K_ZMALLOC && c.item > 8192) kind = K_MALLOC;
	u64 lim = c.maxr * c.per; u8 buf[64]; u64 ilen = c.item < 64 ? c.item : 64; patfill(buf, seed, 0, 64);
	t.owner = m.owner; t.hard = 0; errno = 0; m.inprog++; x.st = 1; x.pool = pi; x.w.clear();
	u64 up0 = m.upper; m.up();
	bool shared = m.inprog > 1;
	void *r = kind == K_MALLOC ? rseq_mempool_percpu_malloc(m.h) : kind == K_ZMALLOC ? rseq_mempool_percpu_zmalloc(m.h) : rseq_mempool_percpu_malloc_init(m.h, buf, ilen);
	int e = errno; t.owner = -1; m.inprog--;
	if (!r) {
		x.st = 0; m.upper--;
		if (e != ENOMEM) violate_of("C16 C17", "bad-errno", "allocation fails with errno %d instead of ENOMEM", e);
		if (!shared && up0 < lim && S.nthr == 1) violate_of("C16", "capacity-lost", "allocation fails although %llu of %llu items were in use (stride %llu, %d CPUs, item %llu)", (unsigned long long) up0, (unsigned long long) lim, (unsigned long long) c.stride, c.ncpu, (unsigned long long) c.item);
		st_full.hit(); return false;
	}
	x.ptr = (u64) r; st_alloc.hit();
	u64 live = 0; for (auto &y : items) if (y.st == 2 && y.pool == pi) live++;
	if (live + 1 > lim) violate_of("C16", "capacity-invented", "pool %d serves %llu live items, its limit is %llu", pi, (unsigned long long) live + 1, (unsigned long long) lim);
	u64 off = x.ptr & (c.stride - 1);
	if (off + c.item > c.stride || (x.ptr & 7)) violate_of("C14", "straddle", "item of %llu bytes at offset %llu of a %llu byte region", (unsigned long long) c.item, (unsigned long long) off, (unsigned long long) c.stride);
	if (off + (u64) c.ncpu * c.stride > (1ULL << 32)) st_4g.hit();
	for (int k = 0; k < c.ncpu; k++) {
		u64 a = (u64) cptr(x.ptr, k, c.stride);
		if (a != x.ptr + (u64) k * c.stride) violate_of("C14", "percpu-ptr", "rseq_percpu_ptr gives a wrong address for CPU %d", k);
		if (!L.pages.covers(a, a + c.item, m.owner)) violate_of("C14", "foreign-memory", "item lies outside the pool's memory, CPU %d of %d", k, c.ncpu);
		if (c.init) {
			auto i = m.regions.find(a - off);
			if (i == m.regions.end() || i->second.cpu != k) violate_of("C23", "not-initialised", "item handed out in memory that was not initialised for CPU %d", k);
		}
	}
	for (auto &y : items) if (y.st == 2 && &y != &x) {
		PCfg &d = pools[y.pool].c;
		bool same = (x.ptr - off) == (y.ptr - (y.ptr & (d.stride - 1))) && y.pool == pi;
		if (same ? (x.ptr < y.ptr + d.item && y.ptr < x.ptr + c.item) : false) violate_of("C14 C16", "overlap", "a new item (pool %d, length %llu) shares memory with a live item", pi, (unsigned long long) c.item);
	}
	if (!m.used.insert(x.ptr).second) st_recycle.hit();
	m.freed.erase(x.ptr);
	for (int k : cpus[pi]) {
		u64 a = (u64) cptr(x.ptr, k, c.stride);
		if (kind == K_ZMALLOC) { for (u64 o = 0; o < c.item; o += 8) if (*(u64 *) (a + o)) violate_of("C15", "not-zeroed", "word at %llu of a zeroed item of %llu is set on CPU %d of %d", (unsigned long long) o, (unsigned long long) c.item, k, c.ncpu); x.w[a] = 0; x.w[a + c.item - 8] = 0; }
		else if (kind == K_INIT) { if (memcmp((void *) a, buf, ilen)) violate_of("C15", "not-initialised-content", "initialised item (%llu of %llu) differs on CPU %d of %d", (unsigned long long) ilen, (unsigned long long) c.item, k, c.ncpu); x.w[a] = *(u64 *) a; }
	}
	x.st = 2;
	write_item(x, seed >> 7);
	return true;
}
static void do_free(int it) {
	progress();
	BigItem &x = items[it]; PoolM &m = pools[x.pool]; PCfg &c = m.c; Thr &t = *cur;
	check_item(x, "before its free");
	x.st = 1; t.owner = m.owner; t.hard = 0; m.inprog++;
	pfree(x.ptr, c.stride, c.ncpu == 1, mix((u64) it, x.ptr));
	t.owner = -1; m.inprog--; m.upper--; x.st = 0;
	if (c.poisoned && S.nthr == 1) for (int k : cpus[x.pool]) {
		u64 *w = (u64 *) cptr(x.ptr, k, c.stride);
		for (u64 o = c.robust ? 0 : 1; o < c.item / 8; o++) if (w[o] != c.poison) violate_of("C20", "poison-missing", "word %llu of a freed item (length %llu) holds %llx on CPU %d of %d, poison is %llx", (unsigned long long) o, (unsigned long long) c.item, (unsigned long long) w[o], k, c.ncpu, (unsigned long long) c.poison);
	}
	x.w.clear();
}
static void do_create(const Op &o) {
	int i = (int) o.a[0]; PoolM &m = pools[i]; if (m.exists || m.closing) return; Thr &t = *cur;
	int g = m.gen + 1; m = PoolM(); m.gen = g; m.idx = i; m.owner = 100 + i + g * 16;
	PCfg &c = m.c; c.req = (u64) o.a[1]; c.stride = (u64) o.a[2]; c.ncpu = (int) o.a[3]; c.flags = (int) o.a[4]; c.poison = (u64) o.a[5]; c.maxr = (u64) o.a[6]; c.derive();
	m.closing = true;
	cpus[i].clear();
	for (int k = 0; k < c.ncpu; k++) if (c.ncpu <= 40 || k < 3 || k >= c.ncpu - 3 || !(k & (k - 1)) || !(k & (k + 1)) || k % 61 == (int) (o.a[7] % 61)) cpus[i].push_back(k);
	t.owner = m.owner; errno = 0;
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); int ar = !a;
	ar |= rseq_mempool_attr_set_percpu(a, c.stride, c.ncpu);
	if (c.init) ar |= rseq_mempool_attr_set_init(a, cb, &m);
	ar |= rseq_mempool_attr_set_populate_policy(a, c.zero ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	if (c.robust) ar |= rseq_mempool_attr_set_robust(a);
	if (c.flags & F_POISON) ar |= rseq_mempool_attr_set_poison(a, c.poison);
	ar |= rseq_mempool_attr_set_max_nr_ranges(a, c.maxr);
	if (ar) violate_of("C14 C16 C23", "attr-refused", "valid attribute refused");
	m.h = rseq_mempool_create("big", c.req, a); int e = errno;
	rseq_mempool_attr_destroy(a); t.owner = -1;
	if (!m.h) violate_of("C14 C16 C17 C23", "create-failed", "pool with stride %llu, %d CPUs, item %llu cannot be created (errno %d)", (unsigned long long) c.stride, c.ncpu, (unsigned long long) c.item, e);
	if (rseq_mempool_get_max_nr_cpus(m.h) != c.ncpu) violate_of("C23", "cpu-count", "pool reports %d CPUs, configured %d", rseq_mempool_get_max_nr_cpus(m.h), c.ncpu);
	if (c.init && m.regions.size() != (u64) c.ncpu) violate_of("C23", "cb-count", "pool creation called the init callback for %zu of %d CPUs", m.regions.size(), c.ncpu);
	m.closing = false; m.exists = true; st_create.hit(); if (c.ncpu > 64) st_cpu.hit();
}
static void do_destroy(PoolM &m) {
	for (int i = 0; i < NI; i++) if (items[i].st && items[i].pool == m.idx) { if (items[i].st == 1) return; }
	if (m.inprog) return;
	m.exists = false; m.closing = true;
	for (int i = 0; i < NI; i++) if (items[i].st == 2 && items[i].pool == m.idx) do_free(i);
	Thr &t = *cur; t.owner = m.owner; errno = 0; int r = rseq_mempool_destroy(m.h), e = errno; t.owner = -1; m.closing = false;
	if (r) violate_of("C18", "destroy-failed", "destroy returned %d (errno %d)", r, e);
	if (ledger_pages(m.owner) || ledger_heap(m.owner) || ledger_fds(m.owner)) violate_of("C18", "leak", "destroyed pool (stride %llu, %d CPUs) leaves %llu pages, %llu heap blocks, %llu descriptors", (unsigned long long) m.c.stride, m.c.ncpu, (unsigned long long) ledger_pages(m.owner), (unsigned long long) ledger_heap(m.owner), (unsigned long long) ledger_fds(m.owner));
}
// Geometry that does not fit in memory or in an address: refused, without a trace.
static void do_huge(const Op &o) {
	Thr &t = *cur; static int n; int owner = 4000 + n++ % 64;
	PCfg c; c.req = (u64) o.a[1]; c.stride = (u64) o.a[2]; c.ncpu = (int) o.a[3]; c.flags = (int) o.a[4]; c.derive();
	static PoolM m; m = PoolM(); m.owner = owner; m.c = c;
	t.owner = owner; errno = 0;
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); int ar = !a;
	ar |= rseq_mempool_attr_set_percpu(a, c.stride, c.ncpu); int e = errno;
	if (ar && e != EINVAL) violate_of("C17", "bad-errno", "attribute refused with errno %d", e);
	if (c.init) rseq_mempool_attr_set_init(a, cb, &m);
	rseq_mempool_attr_set_populate_policy(a, c.zero ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	if (c.robust) rseq_mempool_attr_set_robust(a);
	errno = 0;
	struct rseq_mempool *h = ar ? nullptr : rseq_mempool_create("huge", c.req, a); e = errno;
	rseq_mempool_attr_destroy(a); t.owner = -1; st_huge.hit();
	if (h) violate_of("C14 C16 C17 C23", "impossible-pool", "a pool of %d CPUs with a stride of 0x%llx was created, which is no valid geometry or fits no address space", c.ncpu, (unsigned long long) c.stride);
	if (!ar && e != ENOMEM && e != EINVAL) violate_of("C17", "bad-errno", "pool of %d CPUs with a stride of 0x%llx refused with errno %d", c.ncpu, (unsigned long long) c.stride, e);
	if (ledger_pages(owner) || ledger_heap(owner) || ledger_fds(owner)) violate_of("C17 C18", "trace-left", "refused pool (stride 0x%llx, %d CPUs) leaves %llu pages, %llu heap blocks, %llu descriptors", (unsigned long long) c.stride, c.ncpu, (unsigned long long) ledger_pages(owner), (unsigned long long) ledger_heap(owner), (unsigned long long) ledger_fds(owner));
}
// A set of pools spread over the whole range of size classes: every request is
// served by the smallest pool that has room, whatever its length.
static void do_set(const Op &o) {
	Thr &t = *cur; static int n; int owner = 6000 + n++ * 16; Rng r((u64) o.a[1]); st_set.hit();
	struct SPool { u64 item, stride; int ncpu; u64 cap, used; struct rseq_mempool *h; int owner; };
	std::vector<SPool> ps; std::map<u64, int> where;	// region start -> pool
	t.owner = owner; errno = 0;
	struct rseq_mempool_set *set = rseq_mempool_set_create();
	if (!set) violate_of("C21", "create-failed", "set creation failed");
	auto dead = [&](u64 len) { void *x = (len & 1) ? rseq_mempool_set_percpu_malloc(set, len) : rseq_mempool_set_malloc(set, len); if (x || errno != ENOMEM) violate_of("C21", "empty-set", "an empty set serves %llu bytes", (unsigned long long) len); };
	errno = 0; dead(1 + r.below(100)); errno = 0; dead(~0ULL - r.below(3));
	int np = (int) r.range(1, 7);
	for (int i = 0; i < np; i++) {
		int k = (int) r.range(3, 33); u64 item = 1ULL << k, stride = item < 4096 ? 4096 : item; stride <<= r.below(2); if (stride > 1ULL << 33) stride = item;
		SPool p{ item, stride, (int) r.range(1, 3), stride / item, 0, nullptr, owner + 1 + i };
		bool dup = false; for (auto &q : ps) dup |= q.item == item;
		if (!dup && p.cap > 8) { p.stride = stride = 4096; p.cap = stride / item; }
		t.owner = p.owner;
		struct rseq_mempool_attr *a = rseq_mempool_attr_create();
		int ar = rseq_mempool_attr_set_percpu(a, p.stride, p.ncpu) | rseq_mempool_attr_set_max_nr_ranges(a, 1);
		rseq_mempool_attr_set_populate_policy(a, r.p(0.8) ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
		p.h = ar ? nullptr : rseq_mempool_create("s", item - (item > 8 ? r.below(item / 2) : 0), a); rseq_mempool_attr_destroy(a);
		if (!p.h) violate_of("C21 C17", "create-failed", "pool of %llu bytes cannot be created (errno %d)", (unsigned long long) item, errno);
		errno = 0; int ret = rseq_mempool_set_add_pool(set, p.h), e = errno;
		if (dup) {
			if (ret != -1 || e != EBUSY) violate_of("C21", "add-duplicate", "adding a second pool of %llu bytes returned %d (errno %d)", (unsigned long long) item, ret, e);
			if (rseq_mempool_destroy(p.h)) violate_of("C21 C18", "destroy-failed", "a refused pool cannot be destroyed");
		} else {
			if (ret) violate_of("C21", "add-refused", "adding the first pool of %llu bytes is refused (errno %d)", (unsigned long long) item, e);
			for (auto &g : L.pages.m) if (g.second.second == p.owner) { where[g.first] = (int) ps.size(); g.second.second = owner; }
			for (auto &h : L.heap) if (h.second.second == p.owner) h.second.second = owner;
			for (auto &h : L.fds) if (h.second == p.owner) h.second = owner;
			ps.push_back(p);
		}
	}
	std::vector<std::pair<u64, int>> got;
	auto pool_at = [&](u64 a) { auto i = where.upper_bound(a); if (i == where.begin()) return -1; --i; auto g = L.pages.m.find(i->first); return g != L.pages.m.end() && a < g->second.first ? i->second : -1; };
	int nreq = (int) r.range(6, 40); t.owner = owner;
	for (int i = 0; i < nreq; i++) {
		if (!got.empty() && r.p(0.25)) { size_t k = r.below(got.size()); SPool &p = ps[got[k].second]; pfree(got[k].first, p.stride, p.ncpu == 1, r.next()); p.used--; got.erase(got.begin() + (long) k); continue; }
		u64 len; switch (r.below(8)) {
		case 0: len = r.below(10); break;
		case 1: case 2: case 3: len = ps[r.below(ps.size())].item + r.below(3) - 1; break;
		case 4: len = (1ULL << r.range(3, 63)) + r.below(3) - 1; break;
		case 5: len = (ps[r.below(ps.size())].item >> 1) + r.below(2); break;
		case 6: len = r.p(0.5) ? ~0ULL - r.below(3) : (1ULL << 63) + r.below(100); break;
		default: len = 1 + r.below(1ULL << r.range(3, 33)); break;
		}
		SPool *best = nullptr, *fit = nullptr;
		for (auto &p : ps) if (p.item >= len) { if (!fit || p.item < fit->item) fit = &p; if (p.used < p.cap && (!best || p.item < best->item)) best = &p; }
		st_setreq.hit(); if (best && best != fit) st_setfb.hit(); errno = 0;
		bool init = len && len <= 4096 && r.p(0.4), z = !init && len <= 8192 && (!best || best->item <= (1 << 20)) && r.p(0.4); u8 buf[4096]; if (init) patfill(buf, r.next(), 0, len);
		bool w = r.p(0.5);
		void *x = init ? (w ? rseq_mempool_set_malloc_init(set, buf, len) : rseq_mempool_set_percpu_malloc_init(set, buf, len)) : z ? (w ? rseq_mempool_set_zmalloc(set, len) : rseq_mempool_set_percpu_zmalloc(set, len)) : w ? rseq_mempool_set_malloc(set, len) : rseq_mempool_set_percpu_malloc(set, len);
		int e = errno;
		if (!x) { if (best) violate_of("C21", "capacity-ignored", "request of %llu bytes failed although the pool of %llu bytes has room", (unsigned long long) len, (unsigned long long) best->item); if (e != ENOMEM) violate_of("C21 C17", "bad-errno", "set allocation of %llu bytes fails with errno %d", (unsigned long long) len, e); continue; }
		int k = pool_at((u64) x);
		if (k < 0) violate_of("C21 C14", "foreign-memory", "item of %llu bytes does not belong to any pool", (unsigned long long) len);
		SPool &p = ps[k];
		if (p.item < len) violate_of("C21 C14", "too-small", "request of %llu bytes served from a pool of %llu", (unsigned long long) len, (unsigned long long) p.item);
		if (!best || &p != best) violate_of("C21", best && p.item > best->item ? "not-smallest" : "capacity-invented", "request of %llu bytes served by the pool of %llu bytes, expected %llu", (unsigned long long) len, (unsigned long long) p.item, (unsigned long long) (best ? best->item : 0));
		for (auto &g : got) if (g.second == k && g.first == (u64) x) violate_of("C21 C14", "overlap", "the same item was handed out twice");
		for (int c = 0; c < p.ncpu; c++) {
			u8 *b = (u8 *) cptr((u64) x, c, p.stride);
			if (init && memcmp(b, buf, len)) violate_of("C15 C21", "not-initialised-content", "item of %llu bytes is not initialised on CPU %d", (unsigned long long) len, c);
			if (z) for (u64 q = 0; q < p.item; q += q < 64 ? 1 : 61) if (b[q]) violate_of("C15 C21", "not-zeroed", "byte %llu of a zeroed item is set on CPU %d", (unsigned long long) q, c);
			if (p.item <= 1 << 16) memset(b, 0xa5, p.item); else { memset(b, 0xa5, 4096); memset(b + p.item - 4096, 0xa5, 4096); }
		}
		p.used++; got.push_back({ (u64) x, k });
	}
	errno = 0; int dr = rseq_mempool_set_destroy(set);
	if (dr) violate_of("C18", "destroy-failed", "set destroy returned %d (errno %d)", dr, errno);
	t.owner = -1;
	u64 pg = ledger_pages(owner), hp = ledger_heap(owner), fd = ledger_fds(owner);
	for (int i = 0; i < np; i++) { pg += ledger_pages(owner + 1 + i); hp += ledger_heap(owner + 1 + i); fd += ledger_fds(owner + 1 + i); }
	if (pg || hp || fd) violate_of("C18", "leak", "destroyed set leaves %llu pages, %llu heap blocks, %llu descriptors", (unsigned long long) pg, (unsigned long long) hp, (unsigned long long) fd);
}
static int slot(i64 sel, int st, int pool) { for (int i = 0; i < NI; i++) { int k = (int) ((sel + i) % NI); if (items[k].st == st && (pool < 0 || items[k].pool == pool)) return k; } return -1; }
static void exec(const Op &o) {
	PoolM &m = pools[o.a[0]];
	switch (o.code) {
	case O_CREATE: do_create(o); break;
	case O_HUGE: do_huge(o); break;
	case O_SET: do_set(o); break;
	case O_DESTROY: if (m.exists && m.h) do_destroy(m); break;
	case O_ALLOC: { int it = slot(o.a[1], 0, -1); if (m.exists && m.h && it >= 0) do_alloc((int) o.a[0], it, (int) o.a[2], (u64) o.a[4]); break; }
	case O_FILL: for (int k = 0; k < 20 && m.exists && m.h; k++) { int it = slot(o.a[1], 0, -1); if (it < 0 || !do_alloc((int) o.a[0], it, (int) o.a[2], mix((u64) o.a[4], k))) break; } break;
	case O_FREE: { int it = slot(o.a[1], 2, (int) o.a[0]); if (m.exists && m.h && it >= 0) do_free(it); break; }
	case O_WRITE: { int it = slot(o.a[1], 2, (int) o.a[0]); if (m.exists && it >= 0) write_item(items[it], (u64) o.a[4]); break; }
	}
}
static void run_big(Plan &p) {
	P = &p; Sim &s = S; s.ncpu = 4; s.cap = 60000000;
	s.p_yield = p.c("p_yield") * 1e-6; s.p_opb = 0.1; s.w_sw = 3; s.w_pre = 1; s.w_mig = 1; s.w_resched = 0;
	W.has_off = W.has_size = W.has_flags = false; W.possible = "0-3";
	s.invariant = [] { check_all(); };
	seams_setup((u64) p.c("mseed"), (int) p.c("skew"));
	lib_ctor();
	int nthr = (int) p.c("nthr");
	for (int i = 0; i < nthr; i++) spawn([i] { for (auto &o : P->ops) if (o.tid == i) { op_begin(o); exec(o); op_end(); } }, i % 4);
	run_threads();
	s.faults_on = false; s.sched_on = false; check_all();
	spawn([] { static Op eo; eo.id = 888888; op_begin(eo); for (auto &m : pools) if (m.exists) do_destroy(m); }, 0);
	s.th[nthr].cpu = 0; run_threads();
	for (auto &m : pools) if (m.exists) violate_of("C18", "not-destroyed", "pool %d could not be destroyed", m.idx);
	u64 hp = 0; for (auto &h : L.heap) if (h.second.second >= 50) hp++;
	if (hp || !L.pages.empty() || !L.fds.empty()) violate_of("C18", "leak", "after all pools are gone: %llu pages, %llu heap blocks, %zu descriptors", (unsigned long long) L.pages.size(), (unsigned long long) hp, L.fds.size());
}
static void gen_create(Op &o, Rng &r, int idx) {
	o.code = O_CREATE; o.a[0] = idx; u64 stride; i64 ncpu; int fl = 0; u64 item;
	if (r.p(0.4)) {		// long regions
		stride = 1ULL << r.range(28, 32); i64 mx = (i64) ((1ULL << 34) / stride); ncpu = (i64) r.range(1, mx < 8 ? (u64) mx : 8);
		item = r.p(0.7) ? stride >> r.below(4) : (stride >> r.below(3)) - r.below(100);
		if (item < (stride >> 3)) item = stride >> 3;
	} else {		// many CPUs
		stride = 4096ULL << r.below(8); ncpu = r.pick<i64>({ 33, 63, 64, 65, 127, 128, 129, 192, 255, 256, 257, 300, 513 });
		item = r.p(0.5) ? stride >> r.below(3) : 8ULL << r.below(9);
		if (stride <= 65536 && r.p(0.5)) fl |= F_POISON;
		if (stride <= 16384 && r.p(0.4)) fl |= F_ROBUST;
	}
	if (item > stride) item = stride;
	if (r.p(0.5)) fl |= F_ZERO; if (r.p(0.5)) fl |= F_INIT;
	if ((fl & F_POISON) && (fl & F_ZERO) && item * (u64) ncpu > (1 << 20)) fl &= ~(F_POISON | F_ROBUST);
	o.a[1] = (i64) item; o.a[2] = (i64) stride; o.a[3] = ncpu; o.a[4] = fl; o.a[5] = (i64) r.next(); o.a[6] = (i64) r.range(1, 2); o.a[7] = (i64) r.below(1000);
}
static void gen_huge(Op &o, Rng &r) {
	o.code = O_HUGE; int k = (int) r.range(33, 63); u64 wrap = 1ULL << (64 - k); i64 n;	// wrap * stride == 2^64
	do { switch (r.below(4)) {
	case 0: n = (i64) (wrap + r.below(4)); break;
	case 1: n = (i64) (wrap * r.range(1, 3) / 2 + r.below(3)) - 1; break;
	case 2: n = (i64) (wrap * r.range(1, 4)) - (i64) r.below(3); break;
	default: n = r.pick<i64>({ 0x7fffffff, 0x40000000, 0x40000001, 1 << 20 }); break;
	} if (n < 1 || n > 0x7fffffff || ((unsigned __int128) n << k) < ((unsigned __int128) 1 << 40)) { k = (int) r.range(34, 62); wrap = 1ULL << (64 - k); n = 0; } } while (!n);
	u64 odd = 0; if (r.p(0.3)) { k = (int) r.range(32, 34); n = 1; odd = 1ULL << r.range(12, (u64) k - 1); }	// a length that is no power of two
	o.a[1] = (i64) (8ULL << r.below(9)); o.a[2] = (i64) (1ULL << k | odd); o.a[3] = n; o.a[4] = (r.p(0.5) ? F_ZERO : 0) | (r.p(0.4) ? F_INIT : 0) | (r.p(0.4) ? F_ROBUST : 0);
}
static void gen_big(Plan &p, Rng &r, const std::string &prop) {
	auto &c = p.cfg; int nthr = r.p(0.7) ? 1 : 2, np = r.p(0.7) ? 1 : 2;
	c["nthr"] = nthr; c["p_yield"] = nthr == 1 ? 0 : 5000; c["mseed"] = (i64) (r.next() >> 1); c["skew"] = (i64) r.below(4);
	int id = 1; auto add = [&](Op o) { o.id = id++; p.ops.push_back(o); };
	double pset = prop == "C21" ? 0.9 : 0.05, phuge = prop == "C17" ? 0.5 : 0.1;
	for (int i = 0; i < np; i++) { Op o; gen_create(o, r, i); add(o); }
	for (int t = 0; t < nthr; t++) { int n = (int) r.range(3, 12); for (int i = 0; i < n; i++) {
		Op o; o.tid = t; int x = (int) r.below(20);
		o.code = x < 7 ? O_ALLOC : x < 12 ? O_FREE : x < 15 ? O_WRITE : x < 18 ? O_FILL : x < 19 ? O_DESTROY : O_CREATE;
		if (r.p(phuge)) { gen_huge(o, r); add(o); continue; }
		if (r.p(pset)) { o.code = O_SET; o.a[1] = (i64) (r.next() >> 1); add(o); continue; }
		int pi = (int) r.below(np); if (o.code == O_CREATE) gen_create(o, r, pi); else { o.a[0] = pi; o.a[1] = (i64) r.below(NI); o.a[2] = (i64) r.below(3); o.a[4] = (i64) (r.next() >> 1); }
		add(o);
	} }
}
static RegSc reg_big(Scenario{ "big", gen_big, run_big });
} // namespace
} // namespace sim
