/* Litmus parts over the public ordering helpers, for scenario "mem": x and y are
 * two words of shared memory, out[] what this thread read. One set per width. */
#define MEMTU(T, ST, N) \
static __attribute__((noinline)) void m_pub_##N(T *__restrict x, T *__restrict y, T a, T d, T n2) { *x = (T) (a / d); rseq_smp_store_release(y, n2); } /* data that takes long to compute */ \
static __attribute__((noinline)) void m_pubw_##N(T *__restrict x, T *__restrict y, T a, T d, T n2) { *x = (T) (a / d); rseq_smp_wmb(); *y = n2; } \
static int m_w_rel3_##N(struct octx *c) { m_pub_##N((T *) c->v, (T *) c->v2, (T) c->newv, (T) c->maxatt, (T) c->newv2); return 0; } \
static int m_w_wmb3_##N(struct octx *c) { m_pubw_##N((T *) c->v, (T *) c->v2, (T) c->newv, (T) c->maxatt, (T) c->newv2); return 0; } \
static int m_sb_mb_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n1 = (T) c->newv; RSEQ_WRITE_ONCE(*x, n1); rseq_smp_mb(); c->out[OIX(0)] = (long) RSEQ_READ_ONCE(*y); return 0; } \
static int m_sb_plain_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T r0 = *y, n1 = (T) c->newv; *x = n1; rseq_smp_mb(); c->out[OIX(2)] = (long) r0; c->out[OIX(0)] = (long) *y; return 0; } \
static int m_w_rel_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n1 = (T) c->newv, n2 = (T) c->newv2; *x = n1; rseq_smp_store_release(y, n2); return 0; } \
static int m_w_wmb_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n1 = (T) c->newv, n2 = (T) c->newv2; *x = n1; rseq_smp_wmb(); *y = n2; return 0; } \
static int m_w_mb_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n1 = (T) c->newv, n2 = (T) c->newv2; *x = n1; rseq_smp_mb(); *y = n2; return 0; } \
static int m_w_rel2_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n0 = (T) c->expect, n1 = (T) c->newv, n2 = (T) c->newv2; *x = n0; rseq_smp_store_release(y, n2); *x = n1; return 0; } \
static int m_w_wmb2_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n0 = (T) c->expect, n1 = (T) c->newv, n2 = (T) c->newv2; *x = n0; rseq_smp_wmb(); *y = n2; rseq_smp_wmb(); *x = n1; return 0; } \
static int m_w_mb2_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n0 = (T) c->expect, n1 = (T) c->newv, n2 = (T) c->newv2; *x = n0; rseq_smp_mb(); *y = n2; rseq_smp_mb(); *x = n1; return 0; } \
static int m_r_acq_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T r0 = rseq_smp_load_acquire(y), r1 = *x; c->out[OIX(0)] = (long) r0; c->out[OIX(1)] = (long) r1; return 0; } \
static int m_r_rmb_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T r0 = RSEQ_READ_ONCE(*y), r1; rseq_smp_rmb(); r1 = *x; c->out[OIX(0)] = (long) r0; c->out[OIX(1)] = (long) r1; return 0; } \
static int m_r_mb_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T r0 = *y, r1; rseq_smp_mb(); r1 = *x; c->out[OIX(0)] = (long) r0; c->out[OIX(1)] = (long) r1; return 0; } \
static int m_r_acq2_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T r2 = *x, r0 = rseq_smp_load_acquire(y), r1 = *x; c->out[OIX(0)] = (long) r0; c->out[OIX(1)] = (long) r1; c->out[OIX(2)] = (long) r2; return 0; } \
static int m_r_rmb2_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T r2 = *x, r0 = RSEQ_READ_ONCE(*y), r1; rseq_smp_rmb(); r1 = *x; c->out[OIX(0)] = (long) r0; c->out[OIX(1)] = (long) r1; c->out[OIX(2)] = (long) r2; return 0; } \
static int m_r_mb2_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T r2 = *x, r0 = *y, r1; rseq_smp_mb(); r1 = *x; c->out[OIX(0)] = (long) r0; c->out[OIX(1)] = (long) r1; c->out[OIX(2)] = (long) r2; return 0; } \
static int m_r_ctrl_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T r2 = *x, r0 = RSEQ_READ_ONCE(*y), r1 = r2; if (r0 == (T) c->newv2) { rseq_smp_acquire__after_ctrl_dep(); r1 = *x; } c->out[OIX(0)] = (long) r0; c->out[OIX(1)] = (long) r1; c->out[OIX(2)] = (long) r2; return 0; } \
static int m_lb_rel_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n2 = (T) c->newv2, r0 = *x; rseq_smp_store_release(y, n2); c->out[OIX(0)] = (long) r0; return 0; } \
static int m_lb_acq_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n2 = (T) c->newv2, r0 = rseq_smp_load_acquire(x); *y = n2; c->out[OIX(0)] = (long) r0; return 0; } \
static int m_lb_mb_##N(struct octx *c) { T *x = (T *) c->v, *y = (T *) c->v2; T n2 = (T) c->newv2, r0 = *x; rseq_smp_mb(); *y = n2; c->out[OIX(0)] = (long) r0; return 0; } \
static int m_spin_once_##N(struct octx *c) { T *y = (T *) c->v2; T n2 = (T) c->newv2, r0 = 0; long i, n = c->len; for (i = 0; i < n; i++) { c->count = i; r0 = RSEQ_READ_ONCE(*y); if (r0 == n2) break; } c->out[OIX(0)] = (long) r0; return 0; } \
static int m_spin_acq_##N(struct octx *c) { T *y = (T *) c->v2; T n2 = (T) c->newv2, r0 = 0; long i, n = c->len; for (i = 0; i < n; i++) { c->count = i; r0 = rseq_smp_load_acquire(y); if (r0 == n2) break; } c->out[OIX(0)] = (long) r0; return 0; } \
static int m_bar_##N(struct octx *c) { T *x = (T *) c->v; T n0 = (T) c->expect, n1 = (T) c->newv; *x = n0; rseq_barrier(); c->phase = 1; rseq_barrier(); *x = n1; rseq_barrier(); c->phase = 2; return 0; } \
static int m_val_##N(struct octx *c) { ST *x = (ST *) c->v, *q = x; volatile ST *y = (volatile ST *) c->v2, *w = y; /* signed and volatile objects; arguments evaluated once */ \
	c->out[OIX(0)] = (long) rseq_smp_load_acquire(q++); c->out[OIX(1)] = (long) RSEQ_READ_ONCE(*w++); c->out[OIX(2)] = (long) rseq_smp_load_acquire(y); \
	c->out[OIX(3)] = (q - x) + 16 * (w - y) + 256 * (long) sizeof(rseq_smp_load_acquire(x)) + 4096 * (long) sizeof(RSEQ_READ_ONCE(*x)); return 0; } \
static int m_valw_##N(struct octx *c) { ST *x = (ST *) c->v, *q = x; volatile ST *y = (volatile ST *) c->v2, *w = y; ST n[4], *i = n; n[0] = (ST) c->newv; n[1] = (ST) c->newv2; n[2] = n[3] = 1; \
	rseq_smp_store_release(q++, *i++); RSEQ_WRITE_ONCE(*w++, *i++); \
	c->out[OIX(3)] = (q - x) + 16 * (w - y) + 256 * (i - n); return 0; }
MEMTU(uint8_t, signed char, 1) MEMTU(uint16_t, short, 2) MEMTU(uint32_t, int, 4) MEMTU(uint64_t, long, 8)
#define MEMTAB(N) { m_sb_mb_##N, m_sb_plain_##N, m_w_rel_##N, m_w_wmb_##N, m_w_mb_##N, m_w_rel2_##N, m_w_wmb2_##N, m_w_mb2_##N, m_w_rel3_##N, m_w_wmb3_##N, \
	m_r_acq_##N, m_r_rmb_##N, m_r_mb_##N, m_r_acq2_##N, m_r_rmb2_##N, m_r_mb2_##N, m_r_ctrl_##N, m_lb_rel_##N, m_lb_acq_##N, m_lb_mb_##N, \
	m_spin_once_##N, m_spin_acq_##N, m_bar_##N, m_val_##N, m_valw_##N }
