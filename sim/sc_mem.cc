// Scenario "mem": the ordering helpers under a simulated memory system. Two threads
// run litmus parts (memtu.h) an instruction at a time; stores wait in per-thread
// buffers and reach memory at seeded moments (in order on x86 and s390x, in any
// order the fences allow elsewhere), loads of weakly ordered processors may see any
// value that coherence and the fences allow.
#include "sim.h"
#include "emu.h"
#include <sys/mman.h>
#include <algorithm>
namespace sim {
bool wm_on, wm_native; u64 wm_lo, wm_hi;
namespace {
enum { G_SB, G_MP, G_LB, G_SPIN, G_BAR, G_VAL, G_NR };
static Stat st_round("mem:rounds"), st_drain("mem:stores_reaching_memory_late"), st_stale("mem:loads_of_older_values"), st_fwd("mem:loads_forwarded_from_own_store"), st_locked("mem:full_barriers"),
	st_mp("mem:message_seen"), st_mpno("mem:message_not_seen"), st_sb1("mem:sb_one_old"), st_lb1("mem:lb_one_new"), st_spin("mem:spin_seen_after_waiting"), st_guest("mem:rounds_on_other_processors"), st_ooo("mem:stores_out_of_order");
struct Ent { u64 a, v, mask; bool rel; int epoch; bool wr = false; };	// wr: has to be in memory before the next load
struct Msg { u64 ts, v; };
struct Mt { std::vector<Ent> buf; u64 vr = 0, vrOld = 0, vwOld = 0; std::map<u64, u64> coh; int epoch = 0; bool wr = false, pend_ld = false, active = false, pre = false, locked = false; int part = -1; int phase = 0; octx c; };
static Mt mt[MAXT]; static std::map<u64, std::vector<Msg>> hist; static u64 ts; static bool tso, nostale, need_rw;
enum { LINE = 64, NW = 16 };	// two lines of eight words
static u64 X, Y, init[NW], snap[NW], glob[NW], at_line[2];
static u64 n0, n1, n2, x0, y0; static int width; static Plan *P; static double p_drain, p_stale;
static bool y_drained; static long iter_at;
static const char *vname = "";
static u64 word_addr(int i) { return at_line[i >> 3] + (u64) (i & 7) * 8; }
static u64 &mem(u64 a) { return *(u64 *) a; }
static u64 apply(u64 v, const Ent &e) { return (v & ~e.mask) | (e.v & e.mask); }
static bool ready(Mt &m, size_t i) {
	if (!i) return true; if (tso || m.buf[i].rel) return false;
	for (size_t j = 0; j < i; j++) if (m.buf[j].a == m.buf[i].a || m.buf[j].epoch < m.buf[i].epoch) return false;
	return true;
}
static void drain(Mt &m, size_t i) {
	Ent e = m.buf[i]; m.buf.erase(m.buf.begin() + (long) i);
	if (i) st_ooo.hit();
	mem(e.a) = apply(mem(e.a), e); hist[e.a].push_back({ ++ts, mem(e.a) }); m.vwOld = ts;
	if (e.a == (Y & ~7ULL) && !y_drained) { y_drained = true; iter_at = mt[1].c.count; }
}
static void drain_all(Mt &m) { while (!m.buf.empty()) drain(m, 0); }
static u64 own(Mt &m, u64 a) { u64 v = mem(a); for (auto &e : m.buf) if (e.a == a) v = apply(v, e); return v; }
static void watch(Mt &m, u64 xw) {	// compiler barrier: program order at the marks
	if (m.part != M_BAR || m.phase == m.c.phase) return;
	m.phase = m.c.phase; u64 mask = width == 8 ? ~0ULL : (1ULL << width * 8) - 1, got = (xw >> ((u64) m.c.v & 7) * 8) & mask, want = ((u64) (m.phase == 1 ? m.c.expect : m.c.newv)) & mask;
	if (got != want) violate("barrier-passed", "a store before rseq_barrier() had not happened after it (%llx, not %llx) [%s]", (unsigned long long) got, (unsigned long long) want, vname);
}
// One x86 instruction that waits for all earlier stores: locked, xchg with memory, mfence, cpuid.
static bool serializing(u64 rip) {
	const u8 *p = (const u8 *) rip; bool lock = false;
	for (;; p++) { u8 b = *p; if (b == 0xf0) lock = true; else if (b == 0x66 || b == 0x67 || b == 0xf2 || b == 0xf3 || b == 0x2e || b == 0x36 || b == 0x3e || b == 0x26 || b == 0x64 || b == 0x65) continue; else break; }
	if ((*p & 0xf0) == 0x40) p++;
	if (lock) return true;
	if ((*p == 0x86 || *p == 0x87) && (p[1] >> 6) != 3) return true;
	if (p[0] == 0x0f && p[1] == 0xae && p[2] >= 0xf0 && p[2] <= 0xf7) return true;
	return p[0] == 0x0f && p[1] == 0xa2;
}
} // namespace
void wm_fence(int what) {
	Mt &m = mt[cur->id]; if (!m.active) return;
	if (tso) { if (what & WF_WR) { st_locked.hit(); drain_all(m); } return; }
	if (what & WF_RR) m.vr = std::max(m.vr, m.vrOld);
	if (what & WF_RW) m.pend_ld = false;
	if (what & WF_WW) m.epoch++;
	if (what & WF_WR) { st_locked.hit(); for (auto &e : m.buf) e.wr = true; m.wr = true; }
}
u64 wm_load(u64 a, int size, bool acquire) {
	Mt &m = mt[cur->id]; u64 w = a & ~7ULL; u64 v; bool mine = false;
	if (m.wr) { while (std::any_of(m.buf.begin(), m.buf.end(), [](const Ent &e) { return e.wr; })) drain(m, 0); m.vr = std::max(m.vr, m.vwOld); m.wr = false; }
	for (auto &e : m.buf) if (e.a == w) mine = true;
	if (mine || tso) { if (mine) st_fwd.hit(); v = own(m, w); if (!acquire) m.pend_ld = true; }
	else {
		auto &h = hist[w]; u64 lb = std::max(m.vr, m.coh[w]); size_t lo = 0;
		for (size_t i = 0; i < h.size(); i++) if (h[i].ts <= lb) lo = i;
		size_t n = h.size() - lo, back = 0;
		if (n > 1 && !nostale) { Act x = decide(S_MEM, [&] { return S.rng.p(p_stale) ? Act{ A_MEM, (i64) S.rng.below(1 << 20) } : Act{}; }); if (x.k) { back = (u64) x.arg % n; if (back) st_stale.hit(); } }
		Msg g = h[h.size() - 1 - back]; v = g.v; m.coh[w] = std::max(m.coh[w], g.ts); m.vrOld = std::max(m.vrOld, g.ts);
		if (acquire) m.vr = std::max(m.vr, g.ts); else m.pend_ld = true;
	}
	v >>= (a & 7) * 8; return size == 8 ? v : v & ((1ULL << size * 8) - 1);
}
void wm_store(u64 a, int size, u64 v, bool release) {
	Mt &m = mt[cur->id]; u64 mask = size == 8 ? ~0ULL : (1ULL << size * 8) - 1; int sh = (int) (a & 7) * 8;
	if (need_rw && !tso && m.pend_ld && !release) violate("load-store-reorder", "a store may be seen before an earlier load it has to follow is done (part %d) [%s]", m.part, vname);
	m.buf.push_back(Ent{ a & ~7ULL, v << sh, mask << sh, release, m.epoch });
}
void wm_pre(u64 rip) {
	if (cur->id >= MAXT) return; Mt &m = mt[cur->id]; if (!m.active || !wm_native) return;
	m.locked = serializing(rip); if (m.locked) { st_locked.hit(); drain_all(m); }
	for (int i = 0; i < NW; i++) glob[i] = mem(word_addr(i));
	for (int i = 0; i < NW; i++) mem(word_addr(i)) = snap[i] = own(m, word_addr(i));
	m.pre = true;
}
void wm_post() {
	if (cur->id >= MAXT) return; Mt &m = mt[cur->id]; if (!m.active) return;
	if (!wm_native) { watch(m, own(m, (u64) m.c.v & ~7ULL)); return; }
	if (!m.pre) return; m.pre = false;
	watch(m, mem((u64) m.c.v & ~7ULL));
	for (int i = 0; i < NW; i++) {
		u64 a = word_addr(i), v = mem(a), d = v ^ snap[i], mask = 0;
		mem(a) = glob[i];
		if (!d) continue;
		for (int b = 0; b < 8; b++) if (d >> b * 8 & 0xff) mask |= 0xffULL << b * 8;
		m.buf.push_back(Ent{ a, v, mask, false, 0 });
	}
	if (m.locked) drain_all(m);
}
void wm_event() {
	if (cur->id >= MAXT) return;
	int who[64]; size_t ix[64]; int n = 0;
	for (int t = 0; t < S.nthr; t++) for (size_t i = 0; i < mt[t].buf.size() && n < 64; i++) if (ready(mt[t], i)) { who[n] = t; ix[n++] = i; }
	if (!n) return;
	Act a = decide(S_MEM, [&] { return S.rng.p(p_drain) ? Act{ A_MEM, (i64) S.rng.below(1 << 20) } : Act{}; });
	if (a.k) { int k = (int) ((u64) a.arg % n); st_drain.hit(); drain(mt[who[k]], ix[k]); }
}
namespace {
static int arrived, finished, gate; static Guest *garch; static std::vector<Guest *> gs;
static u64 slot(u64 line, u64 v) { u64 a = line; (void) v; return a; }
static void setup(const Op &o) {
	static int nround; u64 base = wm_lo + (u64) (nround++ % 128) * 512; Rng r(mix((u64) o.a[4], 0x77));
	width = 1 << (garch && garch->w32 ? o.a[3] % 3 : o.a[3] & 3); u64 mask = width == 8 ? ~0ULL : (1ULL << width * 8) - 1;
	at_line[0] = base; at_line[1] = base + 64 + r.below(3) * 64;
	if (r.p(0.5)) std::swap(at_line[0], at_line[1]);
	X = slot(at_line[0], 0) + r.below(64 / (u64) width) * (u64) width; Y = slot(at_line[1], 0) + r.below(64 / (u64) width) * (u64) width;
	u64 v[5]; for (int i = 0; i < 5; i++) { bool again; do { v[i] = r.next() & mask; again = false; for (int j = 0; j < i; j++) if (v[j] == v[i]) again = true; } while (again); }
	x0 = v[0]; y0 = v[1]; n0 = v[2]; n1 = v[3]; n2 = v[4];
	hist.clear(); ts = 0; y_drained = false; iter_at = 0; finished = 0;
	for (int i = 0; i < NW; i++) mem(word_addr(i)) = r.next();
	memcpy((void *) X, &x0, (size_t) width); memcpy((void *) Y, &y0, (size_t) width);
	for (int i = 0; i < NW; i++) { init[i] = mem(word_addr(i)); hist[word_addr(i)] = { { 0, init[i] } }; }
	nostale = o.a[0] == G_SPIN; need_rw = o.a[0] == G_LB;
	for (int t = 0; t < 2; t++) {
		Mt &m = mt[t]; m = Mt(); octx &c = m.c; memset((void *) &c, 0, sizeof c);
		bool swap = t == 1 && (o.a[0] == G_SB || o.a[0] == G_LB || o.a[0] == G_BAR);
		c.v = (intptr_t *) (swap ? Y : X); c.v2 = (intptr_t *) (swap ? X : Y);
		c.expect = (intptr_t) n0; c.newv = (intptr_t) (swap ? n2 : n1); c.newv2 = (intptr_t) (swap ? n1 : n2); c.len = 40; c.maxatt = 1;
		m.part = (int) (t ? o.a[2] : o.a[1]);
	}
	st_round.hit(); if (garch) st_guest.hit();
}
static void check(const Op &o) {
	for (auto &m : mt) drain_all(m);
	u64 mask = width == 8 ? ~0ULL : (1ULL << width * 8) - 1;
	bool ext = garch && garch->w32 && o.a[0] == G_VAL; auto out = [&](int t, int i) { return ext ? (u64) (i64) (int) mt[t].c.out[i] : (u64) mt[t].c.out[i]; };
	auto L = [](u64 v) { return (unsigned long long) v; };
	bool wx = false, wy = false; u64 fx = x0, fy = y0; int a = (int) o.a[1], b = (int) o.a[2];
	switch (o.a[0]) {
	case G_SB: {
		u64 r0 = out(0, 0), r1 = out(1, 0); wx = wy = true; fx = n1; fy = n2;
		if ((r0 != y0 && r0 != n2) || (r1 != x0 && r1 != n1)) violate("wrong-value", "a load gave a value never stored: %llx, %llx (width %d) [%s]", L(r0), L(r1), width, vname);
		if (r0 == y0 && r1 == x0) violate("store-load-reorder", "both threads stored, passed rseq_smp_mb() and saw the other's old value (width %d) [%s]", width, vname);
		if (r0 == y0 || r1 == x0) st_sb1.hit();
		break;
	}
	case G_MP: {
		wx = wy = true; fx = n1; fy = n2; u64 r0 = out(1, 0), r1 = out(1, 1); bool two = a >= M_W_REL2 && a <= M_W_MB2;
		if (r0 != y0 && r0 != n2) violate("wrong-value", "the flag was read as %llx, which was never stored (was %llx, new %llx, width %d, reader %d) [%s]", L(r0), L(y0), L(n2), width, b, vname);
		if (r1 != x0 && r1 != n1 && !(two && r1 == n0)) violate("wrong-value", "the data was read as %llx, which was never stored (width %d, reader %d) [%s]", L(r1), width, b, vname);
		if (r0 == n2) st_mp.hit(); else st_mpno.hit();
		if (r0 == n2 && r1 == x0) violate("message-passing", "the reader (part %d) saw the flag set, yet the data written before it (part %d) still old (width %d) [%s]", b, a, width, vname);
		break;
	}
	case G_LB: {
		wx = wy = true; fx = n1; fy = n2; u64 r0 = out(0, 0), r1 = out(1, 0);
		if ((r0 != x0 && r0 != n1) || (r1 != y0 && r1 != n2)) violate("wrong-value", "a load gave a value never stored: %llx, %llx (width %d) [%s]", L(r0), L(r1), width, vname);
		if (r0 == n1 && r1 == n2) violate("load-store-reorder", "both threads read what the other stored after its own read (parts %d, %d, width %d) [%s]", a, b, width, vname);
		if (r0 == n1 || r1 == n2) st_lb1.hit();
		break;
	}
	case G_SPIN: {
		wx = wy = true; fx = n1; fy = n2; u64 r0 = out(1, 0);
		if (r0 != y0 && r0 != n2) violate("wrong-value", "the flag was read as %llx, which was never stored (width %d) [%s]", L(r0), width, vname);
		if (r0 == n2 && mt[1].c.count > 0) st_spin.hit();
		if (r0 != n2 && y_drained && mt[1].c.count > iter_at + 3) violate("never-seen", "a polling loop (part %d) did not see a value that was in memory for %ld more iterations [%s]", b, (long) mt[1].c.count - iter_at, vname);
		break;
	}
	case G_BAR: wx = wy = true; fx = n1; fy = n2; break;
	case G_VAL: {
		wx = wy = true; fx = n1; fy = n2; int sh = 64 - width * 8; auto sx = [&](u64 v) { return (u64) ((i64) (v << sh) >> sh); };
		for (int i = 0; i < 3; i++) if (out(1, i) != sx(i ? y0 : x0) && out(1, i) != sx(i ? n2 : n1))
			violate("wrong-value", "a signed object of %d bytes was read as %llx (was %llx, new %llx) [%s]", width, L(out(1, i)), L(sx(i ? y0 : x0)), L(sx(i ? n2 : n1)), vname);
		if (out(1, 3) != (u64) (1 + 16 + 256 * width + 4096 * width) || out(0, 3) != 1 + 16 + 512)
			violate("evaluated-twice", "a helper evaluated an argument more or less than once or changed its type (%llx, %llx, width %d) [%s]", L(out(1, 3)), L(out(0, 3)), width, vname);
		break;
	}
	}
	for (int i = 0; i < NW; i++) {
		u64 w = word_addr(i), e = init[i];
		if (wx && w == (X & ~7ULL)) { int s = (int) (X & 7) * 8; e = (e & ~(mask << s)) | fx << s; }
		if (wy && w == (Y & ~7ULL)) { int s = (int) (Y & 7) * 8; e = (e & ~(mask << s)) | fy << s; }
		if (mem(w) != e) violate("wrong-store", "memory holds %llx after the stores, not %llx (width %d, parts %d, %d) [%s]", L(mem(w)), L(e), width, a, b, vname);
	}
	for (auto &m : mt) for (int i = 0; i < 4; i++) trace_ev(0x4e, (u64) m.c.out[i]);
}
static void exec(int t, const Op &o) {
	if (++arrived < 2) { int g = gate; while (gate == g) block_on(&gate); }
	else { arrived = 0; gate++; setup(o); wake_all(&gate); }
	Mt &m = mt[t]; u64 pick = (u64) (t ? o.a[6] : o.a[5]);
	const optab *T = garch ? &gs[pick % gs.size()]->tab : optabs[pick % (u64) noptabs]; vname = T->name;
	opfn f = T->mem[__builtin_ctz((unsigned) width)][m.part];
	m.active = true; wm_native = !garch;
	call_stepped(f, &m.c);
	wm_post(); m.active = false; m.pre = false;
	vname = T->name;
	if (++finished == 2) check(o);
}
static void run_mem(Plan &p) {
	P = &p; Sim &s = S; s.ncpu = 2; s.cap = 3000000;
	s.p_step = p.c("p_step") * 1e-6; s.p_opb = 0.1; s.w_sw = 4; s.w_pre = 1; s.w_mig = 0; s.w_resched = 0; p_drain = p.c("p_drain") * 1e-6; p_stale = p.c("p_stale") * 1e-6;
	garch = nullptr; gs.clear();
	if (p.c("guest") && !guests.empty()) { garch = guests[(size_t) (p.c("guest") - 1) % guests.size()]; R->stat[garch->stat]++; if (!garch->broken.empty()) violate_of("C01", "not-assembled", "%s", garch->broken.c_str()); if (!garch->nomem.empty()) violate_of("C25", "not-assembled", "the ordering helpers do not assemble [%s]:%s", garch->name.c_str(), garch->nomem.c_str()); for (auto *g : guests) if (!strcmp(g->arch, garch->arch) && g->broken.empty() && g->nomem.empty()) gs.push_back(g); }
	tso = garch ? garch->tso : true;
	u64 len = 65536 + 4096; wm_lo = garch && garch->w32 ? 0x3a000000 : 0x0e1000000000ULL; wm_hi = wm_lo + len;
	if (mmap((void *) wm_lo, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != (void *) wm_lo) { perror("mmap"); exit(2); }
	W.has_off = W.has_size = W.has_flags = false;
	wm_on = true;
	for (int i = 0; i < 2; i++) spawn([i] { for (auto &o : P->ops) { op_begin(o); exec(i, o); op_end(); } }, i);
	run_threads(); wm_on = false;
}
static void gen_mem(Plan &p, Rng &r, const std::string &) {
	auto &c = p.cfg; c["p_step"] = r.pick<i64>({ 30000, 100000, 300000, 600000 }); c["p_drain"] = r.pick<i64>({ 20000, 100000, 300000, 700000 }); c["p_stale"] = r.pick<i64>({ 100000, 500000, 900000 });
	c["guest"] = r.p(0.5) ? (i64) r.range(1, 64) : 0;
	if (const char *e = getenv("SIM_GUESTS")) if (!guests.empty()) do c["guest"] = 1 + (i64) r.below(guests.size()); while (strncmp(guests[(size_t) c["guest"] - 1]->arch, e, strlen(e)) && *e != '1');
	int n = (int) r.range(10, 60);
	for (int i = 0; i < n; i++) {
		Op o; o.id = i + 1; o.a[3] = (i64) r.below(4); o.a[4] = (i64) (r.next() >> 1); o.a[5] = (i64) r.below(1 << 16); o.a[6] = (i64) r.below(1 << 16);
		int x = (int) r.below(20);
		if (x < 4) { o.a[0] = G_SB; o.a[1] = (i64) r.range(M_SB_MB, M_SB_PLAIN); o.a[2] = (i64) r.range(M_SB_MB, M_SB_PLAIN); }
		else if (x < 14) { o.a[0] = G_MP; o.a[1] = (i64) r.range(M_W_REL, M_W_WMB3); o.a[2] = (i64) r.range(M_R_ACQ, M_R_CTRL); }
		else if (x < 17) { o.a[0] = G_LB; o.a[1] = (i64) r.range(M_LB_REL, M_LB_MB); o.a[2] = (i64) r.range(M_LB_REL, M_LB_MB); }
		else if (x < 19) { o.a[0] = G_SPIN; o.a[1] = (i64) r.range(M_W_REL, M_W_MB); o.a[2] = (i64) r.range(M_SPIN_ONCE, M_SPIN_ACQ); }
		else if (x == 19 && r.p(0.5)) { o.a[0] = G_VAL; o.a[1] = M_VALW; o.a[2] = M_VAL; }
		else { o.a[0] = G_BAR; o.a[1] = M_BAR; o.a[2] = M_BAR; }
		o.code = (int) o.a[0]; p.ops.push_back(o);
	}
}
static RegSc reg_mem(Scenario{ "mem", gen_mem, run_mem });
} // namespace
} // namespace sim
