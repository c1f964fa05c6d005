// Scenario "set": pool sets under exhaustion, failing growth and concurrent adds.
#include "pool.h"
#include <algorithm>
namespace sim {
namespace {
enum { O_MKPOOL = 1, O_MKSET, O_ADD, O_SALLOC, O_SFREE, O_SWRITE, O_SDESTROY, O_PDESTROY, O_SFILL, O_SDRAIN };
enum { NS = 2, NP = 12, NI = 512 };
struct SP : PoolM { int in = -1; int state = 0; bool changed = false; };	// state: 0 outside, 1 being added, 2 inside
struct Call { u64 len; std::vector<int> tent; };	// pools that may hold an item of this call
struct Set { std::vector<Call *> active; bool exists = false, closing = false; struct rseq_mempool_set *h = nullptr; int owner = 0, gen = 0, inprog = 0; u64 calls = 0; };
static Plan *P; static SP pools[NP]; static Set sets[NS]; static Item items[NI]; static int item_set[NI];
static std::map<u64, int> page_pool;	// page -> pool it was last handed to
static std::map<u64, std::pair<u64, int>> owned;
static std::set<int> cb_failed[MAXT + 1];
static Stat st_ok("set:allocated"), st_fb("set:fell_back_to_larger"), st_full("set:exhausted"), st_gf("set:growth_failed"), st_add("set:pools_added"), st_busy("set:add_refused"), st_addrace("set:concurrent_adds"), st_des("set:destroyed"), st_desf("set:destroy_refused"), st_setfail("set:create_failed"), st_big("set:request_too_large"), st_setconc("set:overlapping_calls");
static const u64 MUSTFAIL = ~(1ULL << S_F_CLOSE | 1ULL << S_F_MUNMAP);

static int cb(void *priv, void *addr, size_t len, int cpu) {
	SP *m = (SP *) priv; int id = (int) (m - pools);
	yield_point(S_YIELD);
	for (u64 p = (u64) addr; p < (u64) addr + len; p += 4096) page_pool[p] = id;
	trace_ev(0x61, id, (u64) cpu);
	if (int e = fault(S_F_INITCB, { ENOMEM, EIO, EPERM })) { cb_failed[cur->id].insert(id); errno = e; return -1; }
	return 0;
}
static void relabel(int from, int to) { for (auto &p : L.pages.m) if (p.second.second == from) p.second.second = to; for (auto &h : L.heap) if (h.second.second == from) h.second.second = to; for (auto &f : L.fds) if (f.second == from) f.second = to; }
static int pool_of(u64 ptr) { auto i = page_pool.find(ptr & ~4095ULL); return i == page_pool.end() ? -1 : i->second; }

static void check_item(int it, const char *when) {
	Item &x = items[it]; if (x.st != 2) return; SP &m = pools[x.pool];
	for (int c = 0; c < m.c.ncpu; c++) { const u8 *p = (u8 *) cptr(x.ptr, c, m.c.stride), *q = x.exp.data() + c * x.len; if (memcmp(p, q, x.len)) { u64 o = 0; while (p[o] == q[o]) o++; violate_of("C14 C15 C21", "content-changed", "byte %llu of a live item from a set (pool of %llu bytes, CPU %d) changed from %02x to %02x, %s", (unsigned long long) o, (unsigned long long) x.len, c, q[o], p[o], when); } }
}
static void check_all(const char *when) { for (int i = 0; i < NI; i++) check_item(i, when); }

static void mkpool(const Op &o) {
	Thr &t = *cur; SP &m = pools[o.a[0]]; if (m.exists || m.inprog) return;
	int gen = m.gen + 1; SP n; n.idx = (int) o.a[0]; n.gen = gen; n.owner = 100 + n.idx + gen * 16;
	n.c.req = (u64) o.a[1]; n.c.stride = (u64) o.a[2]; n.c.ncpu = (int) o.a[3]; n.c.flags = (int) o.a[4]; n.c.poison = (u64) o.a[5]; n.c.maxr = (u64) o.a[6]; n.c.derive();
	m = n; m.inprog = 1; PCfg &c = m.c;
	t.owner = m.owner; cb_failed[t.id].clear();
	t.nofaults = true;	// creation failures belong to the pool scenario
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	int r = c.init ? rseq_mempool_attr_set_init(a, cb, &m) : 0;
	r |= rseq_mempool_attr_set_populate_policy(a, c.zero ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	r |= c.global ? rseq_mempool_attr_set_global(a, c.stride) : rseq_mempool_attr_set_percpu(a, c.stride, c.ncpu);
	if (c.robust) r |= rseq_mempool_attr_set_robust(a);
	if (c.maxr) r |= rseq_mempool_attr_set_max_nr_ranges(a, c.maxr);
	if (c.flags & F_POISON) r |= rseq_mempool_attr_set_poison(a, c.poison);
	m.h = rseq_mempool_create("set", c.req, a);
	rseq_mempool_attr_destroy(a); t.nofaults = false;
	t.owner = -1; m.inprog = 0;
	if (r || !m.h) violate_of("C17 C21", "create-failed", "pool creation failed");
	if (!c.init) for (auto &p : L.pages.m) if (p.second.second == m.owner) for (u64 g = p.first; g < p.second.first; g += 4096) page_pool[g] = m.idx;
	m.unit = ledger_pages(m.owner); m.exists = true;
}
static void add(const Op &o) {
	Thr &t = *cur; SP &m = pools[o.a[0]]; Set &s = sets[o.a[1]]; int si = (int) o.a[1];
	if (!m.exists || m.inprog || m.state || !s.exists || s.closing) return;
	bool must_busy = false, may_busy = false;
	for (auto &q : pools) if (&q != &m && q.exists && q.in == si && q.c.item == m.c.item) { may_busy = true; if (q.state == 2) must_busy = true; if (q.state == 1) st_addrace.hit(); }
	m.state = 1; m.in = si; m.inprog++; s.inprog++; s.calls++;
	for (Call *k : s.active) if (m.c.item >= k->len) { k->tent.push_back((int) o.a[0]); m.upper++; }
	u64 hp0 = ledger_heap(m.owner), pg0 = ledger_pages(m.owner);
	t.owner = m.owner; t.hard = 0; errno = 0;
	int r = rseq_mempool_set_add_pool(s.h, m.h), e = errno;
	t.owner = -1; m.inprog--; s.inprog--;
	trace_ev(0x62, (u64) (i64) r, e);
	for (auto &q : pools) if (&q != &m && q.exists && q.in == si && q.state && q.c.item == m.c.item) may_busy = true;
	if (r) {
		st_busy.hit(); m.state = 0; m.in = -1; m.upper = 0;
		for (Call *k : s.active) k->tent.erase(std::remove(k->tent.begin(), k->tent.end(), (int) o.a[0]), k->tent.end());
		if (r != -1 || e != EBUSY) violate_of("C21", "bad-errno", "adding a pool returned %d (errno %d)", r, e);
		if (!may_busy) violate_of("C21", "add-refused", "adding a pool of %llu bytes refused although the set has none of this size", (unsigned long long) m.c.item);
		if (ledger_heap(m.owner) != hp0 || ledger_pages(m.owner) != pg0) violate_of("C21 C17", "add-side-effect", "refused pool lost resources");
	} else {
		st_add.hit();
		if (must_busy) violate_of("C21", "add-duplicate", "a second pool of %llu bytes was accepted", (unsigned long long) m.c.item);
		for (auto &q : pools) if (&q != &m && q.exists && q.in == si && q.state == 2 && q.c.item == m.c.item) violate_of("C21", "add-duplicate", "two pools of %llu bytes were accepted", (unsigned long long) m.c.item);
		relabel(m.owner, s.owner); m.owner = s.owner; m.state = 2;
		for (auto &q : pools) if (q.exists && q.in == si) q.changed = true;
	}
}
static int free_slot(u64 w) { int s = (int) (w % NI); for (int i = 0; i < NI; i++) if (!items[(s + i) % NI].st) return (s + i) % NI; return -1; }

static bool salloc(int si, int kind, u64 len, u64 seed) {
	progress();
	Thr &t = *cur; Set &s = sets[si]; int it = free_slot(seed);
	if (!s.exists || s.closing || it < 0) return false;
	static IBuf bufs[MAXT + 1]; IBuf &buf = bufs[t.id];
	struct Cand { int id; u64 watch, have, lim; };
	std::vector<Cand> cand; std::set<int> maybe;
	for (int i = 0; i < NP; i++) { SP &m = pools[i]; if (!m.exists || m.in != si) continue; if (m.state == 2) cand.push_back(Cand{ i, 0, (m.bases.empty() ? 1 : m.bases.size()) * m.c.per, m.c.maxr ? m.c.maxr * m.c.per : ~0ULL }); }
	std::sort(cand.begin(), cand.end(), [](const Cand &a, const Cand &b) { return pools[a.id].c.item < pools[b.id].c.item; });
	for (auto &c : cand) { SP &m = pools[c.id]; c.watch = m.upper; m.watch.push_back(&c.watch); }
	items[it].st = 1; items[it].pool = -1; item_set[it] = si;
	bool alone = !s.inprog; if (s.inprog) st_setconc.hit();
	s.inprog++; u64 calls0 = ++s.calls;
	// every pool that may serve this call may hold one more item for its duration
	Call call{ len, {} };
	for (int i = 0; i < NP; i++) if (pools[i].exists && pools[i].in == si && pools[i].c.item >= len) { call.tent.push_back(i); pools[i].upper++; for (u64 *w : pools[i].watch) { bool mine = false; for (auto &c : cand) if (w == &c.watch) mine = true; if (!mine && pools[i].upper > *w) *w = pools[i].upper; } }
	s.active.push_back(&call);
	u64 pg0 = ledger_pages(s.owner), hp0 = ledger_heap(s.owner);
	t.owner = s.owner; t.hard = 0; t.nhard = 0; cb_failed[t.id].clear(); errno = 0;
	void *r; bool wrap = seed & 1;
	if (kind == K_MALLOC) r = wrap ? rseq_mempool_set_malloc(s.h, len) : rseq_mempool_set_percpu_malloc(s.h, len);
	else if (kind == K_ZMALLOC) r = wrap ? rseq_mempool_set_zmalloc(s.h, len) : rseq_mempool_set_percpu_zmalloc(s.h, len);
	else {
		u64 bl = len < 70000 ? len : 70000; buf.resize(bl); if (seed % 5 == 0) memset(buf.data(), 0, bl); else patfill(buf.data(), seed, 0, bl);
		r = wrap ? rseq_mempool_set_malloc_init(s.h, buf.data(), len) : rseq_mempool_set_percpu_malloc_init(s.h, buf.data(), len);
	}
	int e = errno; t.owner = -1; s.inprog--;
	alone = alone && s.calls == calls0 && !s.inprog;
	s.active.erase(std::find(s.active.begin(), s.active.end(), &call));
	for (int x : call.tent) pools[x].upper--;
	for (auto &c : cand) { auto &w = pools[c.id].watch; for (size_t i = 0; i < w.size(); i++) if (w[i] == &c.watch) { w.erase(w.begin() + i); break; } }
	int pk = r ? pool_of((u64) r) : -1;
	trace_ev(0x63, r != nullptr, (u64) pk, e);
	// may pool j have been unable to serve at some moment of the call?
	u32 growfail = 0; bool only_cb = !(t.hard & MUSTFAIL & ~(1ULL << S_F_INITCB));
	auto judge = [&](u64 below) {
		for (auto &c : cand) {
			SP &m = pools[c.id]; if (m.c.item < len || m.c.item >= below) continue;
			u64 occ = c.watch;
			bool full = occ >= c.have && occ >= c.lim;
			if (full) continue;
			bool grow = occ >= c.have && (t.hard & MUSTFAIL);
			if (grow && only_cb && m.c.init && !cb_failed[t.id].count(c.id)) grow = false;
			if (!grow) violate_of("C21", r ? "not-smallest" : "capacity-ignored", "request of %llu bytes %s although the pool of %llu bytes had room (at most %llu of %llu items in use, %s)", (unsigned long long) len, r ? "served by a larger pool" : "failed", (unsigned long long) m.c.item, (unsigned long long) occ, (unsigned long long) (c.lim == ~0ULL ? c.have : c.lim), t.hard ? "with failures" : "no failure");
			growfail++;
		}
		if (growfail > t.nhard) violate_of("C21", "capacity-ignored", "%u pools passed over for failing growth, only %u requests failed", growfail, t.nhard);
	};
	if (!r) {
		items[it].st = 0;
		if (e != ENOMEM) violate_of("C21 C17", "bad-errno", "set allocation of %llu bytes fails with errno %d", (unsigned long long) len, e);
		judge(~0ULL);
		if (growfail) st_gf.hit(); else if (len > 65536) st_big.hit(); else st_full.hit();
		if (alone && (ledger_pages(s.owner) != pg0 || ledger_heap(s.owner) != hp0 || ledger_fds(s.owner))) violate_of("C17", "trace-left", "failed set allocation keeps resources");
		return false;
	}
	if (pk < 0) violate_of("C21 C14", "foreign-memory", "item does not belong to any pool");
	SP &m = pools[pk]; PCfg &c = m.c; Item &x = items[it];
	if (m.in != si || !m.exists) violate_of("C21", "wrong-set", "item comes from a pool that is not in the set");
	if (c.item < len) violate_of("C21 C14", "too-small", "request of %llu bytes served from a pool of %llu", (unsigned long long) len, (unsigned long long) c.item);
	judge(c.item);
	if (growfail) st_gf.hit();
	for (auto &q : cand) if (pools[q.id].c.item >= len && pools[q.id].c.item < c.item) { st_fb.hit(); break; }
	st_ok.hit();
	m.upper++; for (u64 *w : m.watch) if (m.upper > *w) *w = m.upper;
	x.ptr = (u64) r; x.pool = pk; x.len = c.item; m.bases.insert(x.ptr & ~(c.stride - 1));
	for (int k = 0; k < c.ncpu; k++) {
		u64 a = (u64) cptr(x.ptr, k, c.stride), en = a + x.len; auto i = owned.lower_bound(a);
		if ((i != owned.end() && i->first < en) || (i != owned.begin() && std::prev(i)->second.first > a)) violate_of("C14 C21", "overlap", "item from a set shares memory with a live item");
		owned[a] = { en, it };
		{ if (!L.pages.covers(a, en, s.owner, m.owner)) violate_of("C14 C21", "foreign-memory", "item lies outside the set's memory, CPU %d", k); }
	}
	x.exp.resize(c.ncpu * c.item);
	for (int k = 0; k < c.ncpu; k++) {
		const u8 *p = (u8 *) cptr(x.ptr, k, c.stride); memcpy(x.exp.data() + k * c.item, p, c.item);
		if (kind == K_ZMALLOC) { for (u64 q = 0; q < c.item; q++) if (p[q]) violate_of("C15 C21", "not-zeroed", "byte %llu of a zeroed item from a set is %02x on CPU %d", (unsigned long long) q, p[q], k); }
		else if (kind == K_INIT) for (u64 q = 0; q < len; q++) if (p[q] != buf[q]) violate_of("C15 C21", "not-initialised-content", "byte %llu of an initialised item from a set (%llu of %llu) is %02x instead of %02x on CPU %d", (unsigned long long) q, (unsigned long long) len, (unsigned long long) c.item, p[q], buf[q], k);
	}
	x.st = 2;
	return true;
}
static void sfree(int it) {
	progress();
	Thr &t = *cur; Item &x = items[it]; SP &m = pools[x.pool]; Set &s = sets[item_set[it]];
	check_item(it, "before its free");
	for (int k = 0; k < m.c.ncpu; k++) owned.erase((u64) cptr(x.ptr, k, m.c.stride));
	x.st = 1; s.inprog++; s.calls++; t.owner = s.owner; t.hard = 0;
	pfree(x.ptr, m.c.stride, m.c.ncpu == 1, (u64) it);
	t.owner = -1; s.inprog--; m.upper--; x.st = 0; x.exp.clear();
	trace_ev(0x64, x.pool);
}
static void drain(int si) { for (int i = 0; i < NI; i++) if (items[i].st == 2 && item_set[i] == si) sfree(i); }
static bool usable(int i, int si) { return items[i].st == 2 && item_set[i] == si && !sets[si].closing; }
static int live_slot(u64 w, int si) { int n = 0; for (int i = 0; i < NI; i++) n += usable(i, si); if (!n) return -1; int k = (int) (w % (u64) n); for (int i = 0; i < NI; i++) if (usable(i, si) && !k--) return i; return -1; }

static void forget(SP &m) { for (auto i = page_pool.begin(); i != page_pool.end(); ) if (i->second == m.idx) i = page_pool.erase(i); else ++i; }
static bool sdestroy(int si, bool faults) {
	progress();
	Thr &t = *cur; Set &s = sets[si]; if (!s.exists || s.closing || s.inprog) return false;
	for (int i = 0; i < NI; i++) if (items[i].st == 1 && item_set[i] == si) return false;
	s.closing = true;
	bool robust = false; for (auto &m : pools) if (m.exists && m.in == si && m.c.robust) robust = true;
	if (robust) drain(si);
	else for (int i = 0; i < NI; i++) if (items[i].st == 2 && item_set[i] == si) { check_item(i, "before destroy"); SP &m = pools[items[i].pool]; for (int k = 0; k < m.c.ncpu; k++) owned.erase((u64) cptr(items[i].ptr, k, m.c.stride)); items[i].st = 0; items[i].exp.clear(); }
	t.owner = s.owner; t.hard = 0; t.unmap_faults = faults; errno = 0;
	int r = rseq_mempool_set_destroy(s.h), e = errno;
	t.owner = -1; t.unmap_faults = false;
	trace_ev(0x65, (u64) (i64) r, e);
	if (t.hard >> S_F_MUNMAP & 1) {
		st_desf.hit();
		if (r == 0) violate_of("C18", "destroy-false-success", "set destroy returned 0 although unmapping failed");
		if (r != -1 || e != t.hard_errno) violate_of("C18", "bad-errno", "set destroy returned %d with errno %d, unmapping failed with %d", r, e, t.hard_errno);
		finish_run();		// using the set after this is undefined
	}
	if (r) violate_of("C18", "destroy-failed", "set destroy returned %d (errno %d) although nothing failed", r, e);
	if (ledger_pages(s.owner) || ledger_heap(s.owner) || ledger_fds(s.owner)) violate_of("C18", "leak", "destroyed set leaves %llu pages, %llu heap blocks, %llu descriptors", (unsigned long long) ledger_pages(s.owner), (unsigned long long) ledger_heap(s.owner), (unsigned long long) ledger_fds(s.owner));
	st_des.hit();
	for (auto &m : pools) if (m.exists && m.in == si) { forget(m); m.exists = false; m.state = 0; m.in = -1; }
	s.exists = false; s.closing = false;
	return true;
}
static void pdestroy(SP &m) {	// a pool that is in no set
	if (!m.exists || m.state || m.inprog) return;
	m.state = 3; forget(m); Thr &t = *cur; t.owner = m.owner;
	int r = rseq_mempool_destroy(m.h); t.owner = -1;
	if (r) violate_of("C18 C21", "destroy-failed", "pool destroy returned %d", r);
	if (ledger_pages(m.owner) || ledger_heap(m.owner)) violate_of("C18 C21", "leak", "destroyed pool leaves resources");
	m.state = 0; m.exists = false;
}
static void exec(const Op &o) {
	int si = (int) o.a[0];
	switch (o.code) {
	case O_MKPOOL: mkpool(o); break;
	case O_MKSET: {
		Set &s = sets[si]; if (s.exists || s.inprog || s.closing) break; Thr &t = *cur;
		int gen = ++s.gen; s.owner = 1000 + si + gen * 16; s.inprog = 1; t.owner = s.owner; t.hard = 0; errno = 0; struct rseq_mempool_set *h = rseq_mempool_set_create(); int e = errno; t.owner = -1; s.inprog = 0; s.h = h;
		if (!h) { st_setfail.hit(); if (!t.hard) violate_of("C17", "set-create", "set creation failed although nothing failed"); if (e != ENOMEM) violate_of("C17", "bad-errno", "set creation fails with errno %d", e); if (ledger_heap(s.owner)) violate_of("C17", "trace-left", "failed set creation keeps memory"); break; }
		if (t.hard) violate_of("C17", "failure-ignored", "set creation succeeded although memory was refused");
		s.exists = true; break;
	}
	case O_ADD: add(o); break;
	case O_SALLOC: salloc(si, (int) o.a[1], (u64) o.a[2], (u64) o.a[3]); break;
	case O_SFREE: { int i = live_slot((u64) o.a[1], si); if (i >= 0) sfree(i); break; }
	case O_SWRITE: {
		int i = live_slot((u64) o.a[1], si); if (i < 0) break; Item &x = items[i]; SP &m = pools[x.pool];
		for (int c = 0; c < m.c.ncpu; c++) { if (!(o.a[2] >> c & 1)) continue; u8 *p = (u8 *) cptr(x.ptr, c, m.c.stride); patfill(p, mix(o.a[3], c), 0, x.len); memcpy(x.exp.data() + c * x.len, p, x.len); }
		break;
	}
	case O_SFILL: for (int i = 0; i < (int) o.a[1]; i++) if (!salloc(si, K_MALLOC, (u64) o.a[2], (u64) o.a[3] + i)) break; break;
	case O_SDRAIN: if (sets[si].exists && !sets[si].closing) for (int i = 0; i < NI; i++) if (usable(i, si)) sfree(i); break;
	case O_SDESTROY: sdestroy(si, o.a[1]); break;
	case O_PDESTROY: pdestroy(pools[o.a[1]]); break;
	}
}
static void run_set(Plan &p) {
	P = &p; Sim &s = S; s.ncpu = 4; s.cap = 60000000;
	s.p_yield = p.c("p_yield") * 1e-6; s.p_opb = p.c("p_opb") * 1e-6; s.w_sw = 3; s.w_pre = 1; s.w_mig = 1; s.w_resched = 0;
	s.p_fault = p.c("p_fault") * 1e-6; s.fault_mask = (u64) p.c("fmask");
	W.has_off = W.has_size = W.has_flags = false; W.possible = "0-1";
	s.invariant = [] { check_all("after an operation"); };
	W.page = (u64) p.c("page", 4096);
	seams_setup((u64) p.c("mseed"), (int) p.c("skew"));
	lib_ctor();
	int nthr = (int) p.c("nthr");
	for (int i = 0; i < nthr; i++) spawn([i] { for (auto &o : P->ops) if (o.tid == i) { op_begin(o); exec(o); op_end(); } }, i % 4);
	run_threads();
	s.faults_on = false; s.sched_on = false; check_all("at the end");
	spawn([] { static Op eo; eo.id = 888888; op_begin(eo);
		for (int i = 0; i < NS; i++) if (sets[i].exists) {
			// progress: once failures stop, every size is served again if its pool has room
			for (auto &m : pools) if (m.exists && m.in == i) salloc(i, K_ZMALLOC, m.c.item, 0);
			if (!sdestroy(i, false)) violate_of("C18", "not-destroyed", "set cannot be destroyed");
		}
		for (auto &m : pools) pdestroy(m); }, 0);
	run_threads();
	u64 hp = 0; for (auto &h : L.heap) if (h.second.second >= 50) hp++;
	if (hp || !L.pages.empty() || !L.fds.empty()) violate_of("C18", "leak", "after all sets are gone: %llu pages, %llu heap blocks, %zu descriptors", (unsigned long long) L.pages.size(), (unsigned long long) hp, L.fds.size());
}
static void gen_set(Plan &p, Rng &r, const std::string &prop) {
	auto &c = p.cfg; int nthr = r.pick<int>({ 1, 1, 2, 3 }); c["nthr"] = nthr;
	c["p_yield"] = nthr == 1 ? 0 : r.pick<i64>({ 1000, 8000, 40000 }); c["p_opb"] = r.pick<i64>({ 50000, 300000 });
	c["mseed"] = (i64) (r.next() >> 1); c["skew"] = (i64) r.below(4);
	if (r.p(prop == "C17" ? 0.9 : 0.5)) {
		c["p_fault"] = r.pick<i64>({ 30000, 150000, 500000 }); u64 m = 0;
		if (r.p(0.5)) m = 1ULL << S_F_INITCB; else for (int s : { S_F_MMAP, S_F_MMAP_FIXED, S_F_MADVISE, S_F_MEMFD, S_F_FTRUNC, S_F_CLOSE, S_F_CALLOC, S_F_INITCB }) if (r.p(0.45)) m |= 1ULL << s;
		if (prop == "C18" || r.p(0.1)) m |= 1ULL << S_F_MUNMAP;
		c["fmask"] = (i64) m;
	}
	int id = 1, ns = r.p(0.7) ? 1 : 2; auto addop = [&](Op o) { o.id = id++; p.ops.push_back(o); };
	u64 stride = r.pick<u64>({ 4096, 4096, 8192, 65536 }); if (r.p(0.1)) { u64 pg = r.pick<u64>({ 8192, 65536 }); c["page"] = (i64) pg; while (stride < pg) stride *= 2; }
	std::vector<u64> sizes; int np = (int) r.range(1, 6);
	auto gp = [&](int t, int idx) {
		Op o; o.tid = t; o.code = O_MKPOOL; o.a[0] = idx; u64 sz = r.p(0.4) ? 8ULL << r.below(6) : stride >> r.below(8); if (sz > stride) sz = stride; if (r.p(0.3) && sz > 8) sz -= r.below(sz / 2);
		sizes.push_back(sz); int fl = 0; if (r.p(0.5)) fl |= F_ZERO; if (r.p(0.25)) fl |= F_ROBUST; if (r.p(0.15)) fl |= F_GLOBAL; if (r.p(0.2)) fl |= F_POISON;
		i64 maxr = r.p(0.6) ? (i64) r.range(1, 2) : 0; if (maxr != 1 || r.p(0.6)) fl |= F_INIT;
		o.a[1] = (i64) sz; o.a[2] = (i64) stride; o.a[3] = r.pick<i64>({ 1, 2, 2, 3 }); o.a[4] = fl; o.a[5] = (i64) (r.next() >> 1); o.a[6] = maxr; addop(o);
	};
	for (int i = 0; i < ns; i++) { Op o; o.tid = 0; o.code = O_MKSET; o.a[0] = i; addop(o); }
	for (int i = 0; i < np; i++) { int t = (int) r.below(nthr); gp(t, i); Op o; o.tid = t; o.code = O_ADD; o.a[0] = i; o.a[1] = (i64) r.below(ns); addop(o); }
	int per = r.pick<int>({ 8, 20, 40 });
	for (int t = 0; t < nthr; t++) for (int i = 0; i < per; i++) {
		Op o; o.tid = t; o.a[0] = (i64) r.below(ns); int x = (int) r.below(40);
		auto len = [&]() -> u64 { u64 s = sizes[r.below(sizes.size())]; switch (r.below(6)) { case 0: return s; case 1: return s + 1; case 2: return s - r.below(s); case 3: return r.below(3); case 4: return r.p(0.02) ? r.pick<u64>({ ~0ULL, 1ULL << 63, (1ULL << 63) + 1, 1ULL << 40 }) : 1 + r.below(stride * 2); default: return s / 2 + 1; } };
		if (x < 16) { o.code = O_SALLOC; o.a[1] = (i64) r.below(3); o.a[2] = (i64) len(); o.a[3] = (i64) (r.next() >> 1); }
		else if (x < 23) { o.code = O_SFREE; o.a[1] = (i64) r.below(1 << 20); }
		else if (x < 29) { o.code = O_SWRITE; o.a[1] = (i64) r.below(1 << 20); o.a[2] = (i64) r.range(1, 7); o.a[3] = (i64) (r.next() >> 1); }
		else if (x < 32) { o.code = O_SFILL; o.a[1] = (i64) r.range(2, 100); o.a[2] = (i64) len(); if (o.a[2] > 1024 && o.a[1] > 10) o.a[1] = 10; o.a[3] = (i64) (r.next() >> 1); }
		else if (x < 33) o.code = O_SDRAIN;
		else if (x < 36) { o.code = O_ADD; o.a[0] = (i64) r.below(NP); o.a[1] = (i64) r.below(ns); }
		else if (x < 38) { gp(t, np + (int) r.below(NP - np)); continue; }
		else if (x < 39) { o.code = O_PDESTROY; o.a[1] = (i64) r.below(NP); }
		else { if (r.p(0.7)) continue; o.code = r.p(0.5) ? O_SDESTROY : O_MKSET; o.a[1] = 1; }
		addop(o);
	}
}
static RegSc reg_set(Scenario{ "set", gen_set, run_set });
} // namespace
} // namespace sim
