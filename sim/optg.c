/* The operations compiled for another processor, to be run by an emulator (emu.cc). */
#ifdef __loongarch__	/* clang has the builtin of newer gcc, and not the register name the alternative needs */
#include <assert.h>
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#undef __GNUC_PREREQ
#define __GNUC_PREREQ(a, b) 1
#endif
#define OPTAB g_optab
#define OPTNAME "guest"
#include "optu.c"
ptrdiff_t rseq_offset; unsigned int rseq_size, rseq_flags;
uint32_t g_sig = RSEQ_SIG;
int32_t rseq_fallback_current_cpu(void) { return -1; }
int32_t rseq_fallback_current_node(void) { return -1; }
/* as freestanding code needs */
void *memcpy(void *d, const void *s, size_t n) { volatile char *a = (volatile char *) d; const volatile char *b = (const volatile char *) s; while (n--) *a++ = *b++; return d; }
void __assert_fail(const char *a, const char *f, unsigned int l, const char *fn) { __builtin_trap(); }
#if __SIZEOF_POINTER__ == 4 && !defined(__i386__)
unsigned long long __udivdi3(unsigned long long a, unsigned long long b) { __builtin_trap(); }	/* only for widths that are not used there */
#endif
