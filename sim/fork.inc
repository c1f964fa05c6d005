// Part of the pool scenario: a real fork at this point of the history. Parent and
// child then take turns, step by step, so that the run stays repeatable.
#include <sys/wait.h>
#include <signal.h>
#include <sys/syscall.h>
static Stat st_fork("fork:forks"), st_fk_nest("fork:grandchildren"), st_fk_busy("fork:with_calls_in_progress"), st_fk_idest("fork:init_pool_destroyed_in_child"), st_fk_live("fork:init_pool_destroyed_with_live_items"),
	st_fk_multi("fork:init_pool_of_several_ranges"), st_fk_zdest("fork:zero_pool_destroyed_in_child"), st_fk_zop("fork:zero_pool_steps_in_child"), st_fk_mis("fork:child_misuses_init_pool"), st_fk_par("fork:parent_steps"), st_fk_new("fork:pool_created_in_child"), st_fk_mine("fork:other_mapping_in_place_of_the_pool");

static bool readable(u64 a) {	// without touching it ourselves
	static int fd[2]; static int pid; if (pid != getpid()) { pid = getpid(); if (pipe(fd)) violate("harness", "pipe"); }
	char c; ssize_t r = write(fd[1], (void *) a, 1);
	if (r == 1) { if (read(fd[0], &c, 1) != 1) violate("harness", "pipe"); return true; }
	return false;
}
struct Inherited { int idx; int live; size_t ranges; bool gone = false; };
static std::vector<Inherited> inh;		// init-policy pools inherited from the parent, still to be destroyed
static void do_fork(const Op &o, u64 seed, int nsteps, int depth); static void exec(const Op &o);

static void child_destroy_init(Inherited &h, bool faults) {
	PoolM &m = pools[h.idx]; Thr &t = *cur;
	// Something else of the child's may meanwhile be where the parent has the pool's memory.
	char *mine = nullptr;
	if (!m.bases.empty()) {
		u64 b = *m.bases.begin(), at = b + W.page * (mix(b, (u64) h.live) % (m.c.stride * (u64) m.c.ncpu / W.page));
		void *x = mmap((void *) at, W.page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
		if (x == (void *) at) { mine = (char *) x; memset(mine, 0x6d, W.page); st_fk_mine.hit(); }
		else if (x != MAP_FAILED) munmap(x, W.page);
	}
	for (int tries = 0; ; tries++) {
		t.owner = m.owner; t.hard = 0; t.unmap_faults = faults && tries < 3; t.nofaults = tries >= 3;
		errno = 0; int r = rseq_mempool_destroy(m.h), e = errno;
		t.owner = -1; t.unmap_faults = t.nofaults = false;
		trace_ev(0x52, (u64) (i64) r, e);
		if (t.hard >> S_F_MUNMAP & 1) {
			if (r != -1 || e != t.hard_errno) violate_of("C22 C18", "destroy-false-success", "destroy of an inherited pool returned %d (errno %d) although unmapping failed with %d", r, e, t.hard_errno);
			continue;
		}
		if (r) violate_of("C22", "child-destroy-failed", "destroying an inherited pool in the child returned %d (errno %d)", r, e);
		break;
	}
	if (mine) {
		for (u64 g = 0; g < W.page; g += 4096) if (!readable((u64) mine + g) || mine[g] != 0x6d || mine[g + 4095] != 0x6d) violate_of("C22 C18", "child-foreign-unmapped", "destroying an inherited pool in the child removes a mapping that is not the pool's");
		munmap(mine, W.page);
	}
	h.gone = true; st_fk_idest.hit(); if (h.live) st_fk_live.hit(); if (h.ranges > 1) st_fk_multi.hit();
	if (ledger_heap(m.owner)) violate_of("C22", "child-leak", "destroying an inherited pool leaves %llu heap blocks in the child", (unsigned long long) ledger_heap(m.owner));
	for (auto i = L.pages.m.begin(); i != L.pages.m.end(); ) {
		if (i->second.second != m.owner) { ++i; continue; }
		for (u64 g = i->first; g < i->second.first; g += 4096) if (readable(g)) violate_of("C22", "child-leak", "destroying an inherited pool leaves its memory in the child");
		i = L.pages.m.erase(i);
	}
}
static void die_quietly(int) { child_exit(42); }
static void child_misuse(PoolM &m, Rng &r) {
	// Not allowed, may crash, must not reach the parent.
	st_fk_mis.hit();
	S.child_may_die = true; heap_check = false;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = die_quietly; sa.sa_flags = SA_ONSTACK;
	for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE }) sigaction(s, &sa, nullptr);
	Thr &t = *cur; t.owner = m.owner; t.nofaults = true;
	int kind = (int) r.below(4);
	if (kind < 2) {
		std::vector<int> v; for (int i = 0; i < NI; i++) if (items[i].st == 3 && items[i].pool == m.idx) v.push_back(i);
		if (v.empty()) kind = 2;
		else {
			Item &x = items[v[r.below(v.size())]]; int c = (int) r.below(m.c.ncpu + 1);	// beyond the last CPU: the initial values
			if (kind == 0) patfill((u8 *) cptr(x.ptr, c, m.c.stride), r.next(), 0, x.len);
			else pfree(x.ptr, m.c.stride, m.c.ncpu == 1, x.ptr >> 4);
		}
	}
	if (kind >= 2) {
		std::vector<u8> b(m.c.item, (u8) r.next());
		for (int i = 0; i < 3; i++) { if (kind == 2) rseq_mempool_percpu_zmalloc(m.h); else rseq_mempool_percpu_malloc_init(m.h, b.data(), m.c.item); }
	}
	child_exit(42);
}
static bool one_step(const Op &base, u64 seed, bool child, int depth) {
	Rng r(seed); static Op o; o = base; o.code = 0; memset(o.a, 0, sizeof o.a);
	o.a[0] = (i64) r.below(NP);
	switch (r.below(8)) {
	case 0: case 1: o.code = O_WRITE; o.a[1] = (i64) r.below(1 << 20); o.a[2] = 31; o.a[3] = (i64) r.below(8); o.a[4] = (i64) (r.next() >> 1); break;
	case 2: case 3: o.code = O_ALLOC; o.a[1] = (i64) r.below(NI); o.a[2] = (i64) r.below(3); o.a[3] = (i64) r.below(80); o.a[4] = (i64) (r.next() >> 1); break;
	case 4: o.code = O_FREE; o.a[0] = -1; o.a[1] = (i64) r.below(1 << 20); break;
	case 5: o.code = O_FILL; o.a[1] = (i64) r.range(2, 20); o.a[4] = (i64) (r.next() >> 1); break;
	default: o.code = O_CHECK; break;
	}
	if (child) {
		u64 x = r.below(12);
		std::vector<Inherited *> left; for (auto &h : inh) if (!h.gone) left.push_back(&h);
		if (x < 3 && !left.empty()) { child_destroy_init(*left[r.below(left.size())], r.p(0.5)); return true; }
		if (x == 3 && !left.empty() && r.p(0.7)) child_misuse(pools[left[r.below(left.size())]->idx], r);
		if (x == 4) { std::vector<PoolM *> z; for (auto &m : pools) if (m.exists && !m.closing) z.push_back(&m); if (!z.empty()) { do_destroy(*z[r.below(z.size())], r.p(0.5)); st_fk_zdest.hit(); return true; } }
		if (x == 5 && depth < 1) { do_fork(base, r.next(), (int) r.range(1, 6), depth + 1); return true; }
		if (x == 6) for (int i = 0; i < NP; i++) {
			PoolM &m = pools[i]; bool held = m.exists || m.closing || m.inprog; for (auto &h : inh) if (h.idx == i && !h.gone) held = true;
			if (held) continue;
			o.code = O_CREATE; o.a[0] = i; o.a[1] = 1 + (i64) r.below(100); o.a[2] = (i64) W.page; o.a[3] = 2; o.a[4] = (r.p(0.5) ? F_ZERO : 0) | (r.p(0.5) ? F_ROBUST : 0); o.a[6] = 0; do_create(o, m); st_fk_new.hit(); return true;
		}
		st_fk_zop.hit();
	} else st_fk_par.hit();
	exec(o);
	check_all(child ? "in the child" : "in the parent after a fork");
	return true;
}
static std::set<int> turn_fds;	// the parents' ends: a child must not keep those of others
static void become_child(const Op &o, int depth, Op &co) {
	co = o; co.id = 500000 + o.id % 100000 + depth * 100000; cur->op = &co; memset(cur->ctr, 0, sizeof cur->ctr);
	alarm(100); S.sched_on = false; S.invariant = nullptr;
	for (int i = 0; i < S.nthr; i++) if (&S.th[i] != cur) S.th[i].st = T_DONE;
	for (auto &m : pools) {
		bool busy = m.inprog || m.closing; for (auto &x : items) if (x.st == 1 && x.pool == m.idx) busy = true;
		if (!m.exists && !busy) continue;
		if (!busy && m.c.zero) continue;		// a private copy, fully usable
		int live = 0; for (auto &x : items) if (x.st == 2 && x.pool == m.idx) { live++; x.st = 3; }
		if (!busy && depth == 0) inh.push_back(Inherited{ m.idx, live, m.bases.size() });
		m.exists = false; m.closing = busy;
	}
	if (depth) for (auto &m : pools) if (m.exists && !m.c.zero) {	// created in the first child
		m.exists = false; inh.push_back(Inherited{ m.idx, 0, 1 });
	}
	owned.clear(); for (int i = 0; i < NI; i++) if (items[i].st == 2) own_add(pools[items[i].pool], i);
}
static void do_fork(const Op &o, u64 seed, int nsteps, int depth) {
	int to[2], from[2]; if (pipe(to) || pipe(from)) violate("harness", "pipe");
	S.forks++; st_fork.hit(); if (depth) st_fk_nest.hit();
	bool busy = false; for (auto &m : pools) if (m.inprog) busy = true; if (busy) st_fk_busy.hit();
	trace_ev(0x50, depth, nsteps);
	pid_t pid = (pid_t) syscall(SYS_clone, SIGCHLD, 0, 0, 0, 0);
	if (pid < 0) violate("harness", "fork failed");
	if (!pid) {
		close(to[1]); close(from[0]); for (int f : turn_fds) close(f); turn_fds.clear();
		static Op cops[2]; become_child(o, depth, cops[depth]);
		u64 k;
		while (read(to[0], &k, 8) == 8) {
			if (k == ~0ULL) {	// last turn: everything inherited must be releasable
				if (mix(seed, 77) % 3) {
					for (auto &h : inh) if (!h.gone) child_destroy_init(h, false);
					for (auto &m : pools) if (m.exists && !m.closing) { do_destroy(m, false); st_fk_zdest.hit(); }
				} else check_all("in the child");
			} else one_step(cops[depth], mix(seed, k), true, depth);
			if (write(from[1], &S.trace, 8) != 8) break;
		}
		child_exit(0);
	}
	close(to[0]); close(from[1]); turn_fds.insert(to[1]); turn_fds.insert(from[0]);
	bool dead = false;
	for (int i = 0; i <= nsteps && !dead; i++) {
		if (i == nsteps || mix(seed, 1000 + i) % 3) {
			u64 k = i == nsteps ? ~0ULL : (u64) i, tr = 0;
			if (write(to[1], &k, 8) != 8 || read(from[0], &tr, 8) != 8) { dead = true; break; }
			trace_ev(0x51, tr);
		} else one_step(o, mix(seed, 5000 + i), false, depth);
		if (S.invariant) S.invariant();
	}
	turn_fds.erase(to[1]); turn_fds.erase(from[0]); close(to[1]); close(from[0]);
	int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) violate("harness", "waitpid");
	if (R->violated) child_exit(0);		// the child reported; it has published the run
	if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 42)) violate_of("C22", "child-died", "the forked child died (status %x)", st);
	if (R->done) child_exit(0);		// the child ended the run (another property)
	check_all("in the parent, after the child is gone");
}
