/* Interface between the simulator and the op translation unit (optu.c), which
 * instantiates the public inline operations of /repo in many shapes and is
 * compiled many ways. Plain C / C++. */
#ifndef OPTU_H
#define OPTU_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

enum opk {
	K_CBNE_STORE = 0,	/* v, expect, newv */
	K_ADD,			/* v, count */
	K_POP,			/* v, expectnot, voffp, load */
	K_LLADD,		/* v(=ptr), voffp(=off), count(=inc) */
	K_CBNE2,		/* v, expect, v2, expect2, newv */
	K_STORE2,		/* v, expect, v2, newv2, newv (relaxed) */
	K_STORE2_REL,
	K_MEMCPY,		/* v, expect, dst, src, len, newv */
	K_MEMCPY_REL,
	K_NR
};

enum opshape {
	SH_SINGLE = 0,		/* one attempt, arguments from the context */
	SH_RETRY,		/* retry loop picking the index itself */
	SH_CONST,		/* immediate operands (small) */
	SH_CONST2,		/* immediate operands (negative / beyond 32 bits) */
	SH_RUNTIME,		/* memory order and index mode chosen at run time */
	SH_AL0, SH_AL1, SH_AL2, SH_AL3,	/* the same variable used for several arguments, see optu.c */
	SH_NR
};
#define SH_V_2ND 32	/* SH_AL3: distance from the first word to the second */
#define SH_V_OFF 32	/* SH_AL3: distance from the index word to the copy's destination */

enum { SH_CONST_COUNT = 3, SH_CONST_OFF = 8 };
#define SH_CONST2_COUNT (-5)
#define SH_BIG_COUNT	0x123456789abLL

/* Context of one call. "phase" is even outside of an attempt, odd inside; all
 * arguments of the attempt are published here before phase turns odd. */
#if __SIZEOF_POINTER__ == 4	/* the same layout for 32-bit guests */
#define OW(d) union { d; unsigned long long OWN(__COUNTER__) __attribute__((aligned(8))); }
#define OWN(n) OWN2(n)
#define OWN2(n) ow_##n
#else
#define OW(d) d
#endif
#define OIX(i) ((i) * (8 / sizeof(long)))
struct octx {
	volatile int phase;
	volatile int ret;
	volatile int acpu;		/* index given to this attempt */
	volatile int maxatt;
	int cpu;			/* in: index (SH_SINGLE...) */
	int mo, mode;			/* in: SH_RUNTIME */
	OW(intptr_t * volatile v);
	OW(intptr_t * volatile v2);
	OW(intptr_t * volatile load);
	OW(volatile intptr_t expect); OW(volatile intptr_t expect2); OW(volatile intptr_t newv); OW(volatile intptr_t newv2); OW(volatile intptr_t count);
	OW(volatile long voffp);
	OW(char * volatile dst);
	OW(char * volatile src);
	OW(volatile size_t len);
	/* SH_RETRY: bases, indexed by index * stride */
	OW(intptr_t *v_base); OW(intptr_t *v2_base);
	OW(char *dst_base);
	OW(long stride);
	long in[OIX(4)] __attribute__((aligned(8)));
	volatile long out[OIX(4)];
	OW(void * volatile pv); OW(void * volatile pv2); OW(void * volatile pdst); OW(void * volatile psrc);
	OW(volatile long pexpect); OW(volatile long pnewv); OW(volatile long plen); OW(volatile long pcount); OW(volatile long pcpu);
};

/* Litmus parts (memtu.h). */
enum mempart { M_SB_MB = 0, M_SB_PLAIN, M_W_REL, M_W_WMB, M_W_MB, M_W_REL2, M_W_WMB2, M_W_MB2, M_W_REL3, M_W_WMB3,
	M_R_ACQ, M_R_RMB, M_R_MB, M_R_ACQ2, M_R_RMB2, M_R_MB2, M_R_CTRL, M_LB_REL, M_LB_ACQ, M_LB_MB,
	M_SPIN_ONCE, M_SPIN_ACQ, M_BAR, M_VAL, M_VALW, M_NR };

typedef int (*opfn)(struct octx *);
struct optab {
	const char *name;
	int compare_twice;
	opfn fn[K_NR][2][SH_NR];
	void (*prepare_unload)(void);
	int32_t (*current_cpu_raw)(void);
	uint32_t (*cpu_start)(void);
	uint32_t (*current_cpu)(void);
	uint32_t (*node_id)(void);
	uint32_t (*mm_cid)(void);
	int (*node_id_available)(void);
	int (*mm_cid_available)(void);
	void (*clear_rseq_cs)(void);
	opfn twice[5];			/* raw, start, current, node, cid */
	opfn mem[4][M_NR];
};
#ifdef __cplusplus
}
#endif
#endif
