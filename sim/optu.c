/* Instantiates every public restartable-sequence operation in several calling
 * shapes. Compiled several times (OPTAB names the table). */
#include <rseq/rseq.h>
#include "optu.h"

#define CPUM RSEQ_PERCPU_CPU_ID
#define CIDM RSEQ_PERCPU_MM_CID

/* Values kept live across the operation, to see clobbered registers. */
#define LIVE_IN(c)	long k0 = (c)->in[OIX(0)], k1 = (c)->in[OIX(1)], k2 = (c)->in[OIX(2)], k3 = (c)->in[OIX(3)]; \
			__asm__ __volatile__ ("" : "+r" (k0), "+r" (k1), "+r" (k2), "+r" (k3))
#define LIVE_OUT(c)	do { (c)->out[OIX(0)] = k0; (c)->out[OIX(1)] = k1; (c)->out[OIX(2)] = k2; (c)->out[OIX(3)] = k3; } while (0)

#define BEGIN(c, _cpu)	do { (c)->acpu = (_cpu); (c)->phase = (c)->phase + 1; } while (0)
#define END(c, r)	do { (c)->ret = (r); (c)->phase = (c)->phase + 1; } while (0)

#define ARGS(c) \
	intptr_t *v = (c)->v, *v2 = (c)->v2; intptr_t *load = (c)->load; \
	intptr_t expect = (c)->expect, expect2 = (c)->expect2, newv = (c)->newv, newv2 = (c)->newv2, count = (c)->count; \
	long voffp = (c)->voffp; char *dst = (c)->dst, *src = (c)->src; size_t len = (c)->len; int cpu = (c)->cpu; \
	(void) v; (void) v2; (void) load; (void) expect; (void) expect2; (void) newv; (void) newv2; (void) count; \
	(void) voffp; (void) dst; (void) src; (void) len; (void) cpu
#define POST(c) do { (c)->pv = v; (c)->pexpect = expect; (c)->pnewv = newv; (c)->pcount = count; (c)->pcpu = cpu; \
	(c)->pv2 = v2; (c)->pdst = dst; (c)->psrc = src; (c)->plen = (long) len; } while (0)

/* Re-read all arguments for an attempt of a retry loop and publish them. */
#define RETRY_ARGS(c, M) \
	cpu = (M) == CPUM ? (int) rseq_cpu_start() : (int) rseq_current_mm_cid(); \
	(c)->v = v = (intptr_t *) ((char *) (c)->v_base + cpu * (c)->stride); \
	(c)->v2 = v2 = (intptr_t *) ((char *) (c)->v2_base + cpu * (c)->stride); \
	(c)->dst = dst = (c)->dst_base + cpu * (c)->stride

#define DEF(K, M, EXPECT_V, CALL, CONSTCALL, CONST2CALL, RTCALL) \
static int op_single_##K##_##M(struct octx *c) { ARGS(c); int r; LIVE_IN(c); BEGIN(c, cpu); \
	r = CALL(M); END(c, r); LIVE_OUT(c); POST(c); return r; } \
static int op_retry_##K##_##M(struct octx *c) { ARGS(c); int r = -1; LIVE_IN(c); int i, n = c->maxatt; \
	for (i = 0; i < n; i++) { RETRY_ARGS(c, M); if (EXPECT_V) c->expect = expect = RSEQ_READ_ONCE(*v); \
		BEGIN(c, cpu); r = CALL(M); END(c, r); if (r >= 0) break; } LIVE_OUT(c); POST(c); return r; } \
static int op_const_##K##_##M(struct octx *c) { ARGS(c); int r; LIVE_IN(c); BEGIN(c, cpu); \
	r = CONSTCALL(M); END(c, r); LIVE_OUT(c); POST(c); return r; } \
static int op_const2_##K##_##M(struct octx *c) { ARGS(c); int r; LIVE_IN(c); BEGIN(c, cpu); \
	r = CONST2CALL(M); END(c, r); LIVE_OUT(c); POST(c); return r; } \
static int op_rt_##K##_##M(struct octx *c) { ARGS(c); int r; enum rseq_mo rt_mo = (enum rseq_mo) c->mo; \
	enum rseq_percpu_mode rt_mode = (enum rseq_percpu_mode) c->mode; LIVE_IN(c); BEGIN(c, cpu); \
	r = RTCALL; END(c, r); LIVE_OUT(c); POST(c); return r; }
#define DEFAL(K, M, N, CALL) \
static int op_al##N##_##K##_##M(struct octx *c) { ARGS(c); int r; LIVE_IN(c); BEGIN(c, cpu); \
	r = CALL; END(c, r); LIVE_OUT(c); POST(c); return r; }
/* Four ways of giving the operation the same value twice; O(mode, ...) is the operation. */
#define AL(K, A0, A1, A2, A3) \
	DEFAL(K, CPUM, 0, A0(CPUM)) DEFAL(K, CPUM, 1, A1(CPUM)) DEFAL(K, CPUM, 2, A2(CPUM)) DEFAL(K, CPUM, 3, A3(CPUM)) \
	DEFAL(K, CIDM, 0, A0(CIDM)) DEFAL(K, CIDM, 1, A1(CIDM)) DEFAL(K, CIDM, 2, A2(CIDM)) DEFAL(K, CIDM, 3, A3(CIDM))
#define V_2ND	((intptr_t *) ((char *) v + SH_V_2ND))
#define IP(x)	((intptr_t) (x))
#define DEF2(K, E, CALL, CC, C2, RT) DEF(K, CPUM, E, CALL, CC, C2, RT) DEF(K, CIDM, E, CALL, CC, C2, RT)

#define C_CBNE(M)	rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, newv, cpu)
#define C_CBNE_C(M)	rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, 7, newv, cpu)
#define C_CBNE_C2(M)	rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, SH_BIG_COUNT, newv, cpu)
DEF2(K_CBNE_STORE, 1, C_CBNE, C_CBNE_C, C_CBNE_C2, rseq_load_cbne_store__ptr(rt_mo, rt_mode, v, expect, newv, cpu))
#define C_CBNE_AL0(M)	rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, IP(v), cpu)
#define C_CBNE_AL1(M)	rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, IP(v), newv, cpu)
#define C_CBNE_AL2(M)	rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, IP(cpu), cpu)
#define C_CBNE_AL3(M)	rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, IP((char *) v + 8), cpu)
AL(K_CBNE_STORE, C_CBNE_AL0, C_CBNE_AL1, C_CBNE_AL2, C_CBNE_AL3)

#define C_ADD(M)	rseq_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, count, cpu)
#define C_ADD_C(M)	rseq_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, SH_CONST_COUNT, cpu)
#define C_ADD_C2(M)	rseq_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, SH_BIG_COUNT, cpu)
DEF2(K_ADD, 0, C_ADD, C_ADD_C, C_ADD_C2, rseq_load_add_store__ptr(rt_mo, rt_mode, v, count, cpu))
#define C_ADD_AL0(M)	rseq_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, IP(v), cpu)
#define C_ADD_AL1(M)	rseq_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, IP(cpu), cpu)
#define C_ADD_AL2(M)	rseq_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, IP((char *) v + 8), cpu)
#define C_ADD_AL3(M)	rseq_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, -IP(v), cpu)
AL(K_ADD, C_ADD_AL0, C_ADD_AL1, C_ADD_AL2, C_ADD_AL3)

#ifdef __i386__	/* too few registers for an offset that is not constant */
#define POP(mo, m, v, e, off, l, c) ((off) == 0 ? rseq_load_cbeq_store_add_load_store__ptr(mo, m, v, e, 0, l, c) : (off) == 8 ? rseq_load_cbeq_store_add_load_store__ptr(mo, m, v, e, 8, l, c) : rseq_load_cbeq_store_add_load_store__ptr(mo, m, v, e, 24, l, c))
#else
#define POP rseq_load_cbeq_store_add_load_store__ptr
#endif
#define C_POP(M)	POP(RSEQ_MO_RELAXED, M, v, expect, voffp, load, cpu)
#define C_POP_C(M)	rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, M, v, 0, SH_CONST_OFF, load, cpu)
#define C_POP_C2(M)	rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, M, v, expect, 0, load, cpu)
DEF2(K_POP, 0, C_POP, C_POP_C, C_POP_C2, POP(rt_mo, rt_mode, v, expect, voffp, load, cpu))
AL(K_POP, C_POP, C_POP, C_POP, C_POP)

#ifdef rseq_arch_has_load_add_load_load_add_store
#define C_LL(M)		rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, voffp, count, cpu)
#define C_LL_C(M)	rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, SH_CONST_OFF, SH_CONST_COUNT, cpu)
#define C_LL_C2(M)	rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, 0, SH_CONST2_COUNT, cpu)
DEF2(K_LLADD, 0, C_LL, C_LL_C, C_LL_C2, rseq_load_add_load_load_add_store__ptr(rt_mo, rt_mode, v, voffp, count, cpu))
#define C_LL_AL0(M)	rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, voffp, voffp, cpu)
#define C_LL_AL1(M)	rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, voffp, IP(v), cpu)
#define C_LL_AL2(M)	rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, voffp, IP(cpu), cpu)
#define C_LL_AL3(M)	rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, M, v, voffp, -IP(v), cpu)
AL(K_LLADD, C_LL_AL0, C_LL_AL1, C_LL_AL2, C_LL_AL3)
#endif

#define C_CBNE2(M)	rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, expect2, newv, cpu)
#define C_CBNE2_C(M)	rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, 7, v2, 9, newv, cpu)
#define C_CBNE2_C2(M)	rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, SH_BIG_COUNT, newv, cpu)
DEF2(K_CBNE2, 1, C_CBNE2, C_CBNE2_C, C_CBNE2_C2, rseq_load_cbne_load_cbne_store__ptr(rt_mo, rt_mode, v, expect, v2, expect2, newv, cpu))
#define C_CBNE2_AL0(M)	rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, expect, newv, cpu)
#define C_CBNE2_AL1(M)	rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, expect2, IP(v2), cpu)
#define C_CBNE2_AL2(M)	rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, expect2, expect2, cpu)
#define C_CBNE2_AL3(M)	rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, M, v, expect, V_2ND, expect2, newv, cpu)
AL(K_CBNE2, C_CBNE2_AL0, C_CBNE2_AL1, C_CBNE2_AL2, C_CBNE2_AL3)

#define C_ST2(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, newv2, newv, cpu)
#define C_ST2_C(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, M, v, 7, v2, SH_CONST2_COUNT, newv, cpu)
#define C_ST2_C2(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, SH_BIG_COUNT, newv, cpu)
DEF2(K_STORE2, 1, C_ST2, C_ST2_C, C_ST2_C2, rseq_load_cbne_store_store__ptr(rt_mo, rt_mode, v, expect, v2, newv2, newv, cpu))
#define C_ST2_AL0(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, newv, newv, cpu)
#define C_ST2_AL1(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, IP(v), IP(v2), cpu)
#define C_ST2_AL2(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, M, v, expect, v2, expect, newv, cpu)
#define C_ST2_AL3(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, M, v, expect, V_2ND, newv2, newv, cpu)
AL(K_STORE2, C_ST2_AL0, C_ST2_AL1, C_ST2_AL2, C_ST2_AL3)
#define C_ST2R(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, M, v, expect, v2, newv2, newv, cpu)
#define C_ST2R_C(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, M, v, 7, v2, SH_CONST2_COUNT, newv, cpu)
#define C_ST2R_C2(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, M, v, expect, v2, SH_BIG_COUNT, newv, cpu)
DEF2(K_STORE2_REL, 1, C_ST2R, C_ST2R_C, C_ST2R_C2, rseq_load_cbne_store_store__ptr(rt_mo, rt_mode, v, expect, v2, newv2, newv, cpu))
#define C_ST2R_AL0(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, M, v, expect, v2, newv, newv, cpu)
#define C_ST2R_AL1(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, M, v, expect, v2, IP(v), IP(v2), cpu)
#define C_ST2R_AL2(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, M, v, expect, v2, expect, newv, cpu)
#define C_ST2R_AL3(M)	rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, M, v, expect, V_2ND, newv2, newv, cpu)
AL(K_STORE2_REL, C_ST2R_AL0, C_ST2R_AL1, C_ST2R_AL2, C_ST2R_AL3)

#define C_MC(M)		rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, M, v, expect, dst, src, len, newv, cpu)
#define C_MC_C(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, M, v, 7, dst, src, 16, newv, cpu)
#define C_MC_C2(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, M, v, expect, dst, src, 0, newv, cpu)
DEF2(K_MEMCPY, 1, C_MC, C_MC_C, C_MC_C2, rseq_load_cbne_memcpy_store__ptr(rt_mo, rt_mode, v, expect, dst, src, len, newv, cpu))
#define C_MC_AL0(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, M, v, expect, dst, src, len, IP(len), cpu)
#define C_MC_AL1(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, M, v, expect, dst, src, len, IP(dst), cpu)
#define C_MC_AL2(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, M, v, IP(len), dst, src, len, newv, cpu)
#define C_MC_AL3(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, M, (intptr_t *) (dst - SH_V_OFF), expect, dst, src, len, newv, cpu)
AL(K_MEMCPY, C_MC_AL0, C_MC_AL1, C_MC_AL2, C_MC_AL3)
#define C_MCR(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, M, v, expect, dst, src, len, newv, cpu)
#define C_MCR_C(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, M, v, 7, dst, src, 16, newv, cpu)
#define C_MCR_C2(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, M, v, expect, dst, src, 3, newv, cpu)
DEF2(K_MEMCPY_REL, 1, C_MCR, C_MCR_C, C_MCR_C2, rseq_load_cbne_memcpy_store__ptr(rt_mo, rt_mode, v, expect, dst, src, len, newv, cpu))
#define C_MCR_AL0(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, M, v, expect, dst, src, len, IP(len), cpu)
#define C_MCR_AL1(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, M, v, expect, dst, src, len, IP(src), cpu)
#define C_MCR_AL2(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, M, v, IP(dst), dst, src, len, newv, cpu)
#define C_MCR_AL3(M)	rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, M, (intptr_t *) (dst - SH_V_OFF), expect, dst, src, len, newv, cpu)
AL(K_MEMCPY_REL, C_MCR_AL0, C_MCR_AL1, C_MCR_AL2, C_MCR_AL3)

static void f_prepare_unload(void) { rseq_prepare_unload(); }
static void f_clear(void) { rseq_clear_rseq_cs(); }
static int32_t f_raw(void) { return rseq_current_cpu_raw(); }
static uint32_t f_start(void) { return rseq_cpu_start(); }
static uint32_t f_cpu(void) { return rseq_current_cpu(); }
static uint32_t f_node(void) { return rseq_current_node_id(); }
static uint32_t f_cid(void) { return rseq_current_mm_cid(); }
/* The same query twice in one function, with time between them. */
#define TWICE(name, q) static int f2_##name(struct octx *c) { c->out[OIX(0)] = (long) q(); c->phase = 1; c->phase = 2; c->out[OIX(1)] = (long) q(); c->phase = 3; return 0; }
TWICE(raw, rseq_current_cpu_raw) TWICE(start, rseq_cpu_start) TWICE(cpu, rseq_current_cpu) TWICE(node, rseq_current_node_id) TWICE(cid, rseq_current_mm_cid)
#ifndef OPT_NOMEM
#include "memtu.h"
#else
#define MEMTAB(N) { 0 }
#endif
static int f_nodeav(void) { return rseq_node_id_available(); }
static int f_cidav(void) { return rseq_mm_cid_available(); }

#define E1(K, M) { op_single_##K##_##M, op_retry_##K##_##M, op_const_##K##_##M, op_const2_##K##_##M, op_rt_##K##_##M, op_al0_##K##_##M, op_al1_##K##_##M, op_al2_##K##_##M, op_al3_##K##_##M }
#define E(K) { E1(K, CPUM), E1(K, CIDM) }

#ifdef __cplusplus
extern "C"
#else
extern
#endif
const struct optab OPTAB;
const struct optab OPTAB = {
	OPTNAME,
#ifdef RSEQ_COMPARE_TWICE
	1,
#else
	0,
#endif
	{ E(K_CBNE_STORE), E(K_ADD), E(K_POP),
#ifdef rseq_arch_has_load_add_load_load_add_store
	  E(K_LLADD),
#else
	  { { 0 }, { 0 } },
#endif
	  E(K_CBNE2), E(K_STORE2), E(K_STORE2_REL), E(K_MEMCPY), E(K_MEMCPY_REL) },
	f_prepare_unload, f_raw, f_start, f_cpu, f_node, f_cid, f_nodeav, f_cidav, f_clear,
	{ f2_raw, f2_start, f2_cpu, f2_node, f2_cid },
	{ MEMTAB(1), MEMTAB(2), MEMTAB(4), MEMTAB(8) },
};
