From 56b2916efb198569ffb6c48733453a655dc18b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:19 +0000
Subject: [PATCH 01/15] fix: x86-64: list the real exit points of the memcpy
 sequence

The critical section of rseq_load_cbne_memcpy_store__ptr() branches to its
teardown handlers (5f, 6f, 7f), which then jump to the C labels. The exit
point table listed the C labels, so a debugger stepping over the section
with these tables loses control when the comparison fails.
---
 include/rseq/arch/x86/bits.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index 22ab80b..8ef4406 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -424,10 +424,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		"movq %[src], %[rseq_scratch0]\n\t"
 		"movq %[dst], %[rseq_scratch1]\n\t"
-- 
2.43.0


From 0080d23fb9c19fdc6e086cda66fbbf64de61df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:19 +0000
Subject: [PATCH 02/15] fix: register and unregister with the length of the
 kernel feature set

The registration length was derived from rseq_size, which is 0 when the
first thread registers and the kernel feature size afterwards. With a
kernel feature size above 32 bytes, the first thread thus registered 32
bytes only although rseq_size advertises more, and unregistering it failed
with EINVAL because the length differs from the one registered.
---
 src/rseq.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 7bfaea7..3ee5ee3 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -114,17 +114,6 @@ bool rseq_available(unsigned int query)
 	return false;
 }
 
-/* The rseq areas need to be at least 32 bytes. */
-static
-unsigned int get_rseq_min_alloc_size(void)
-{
-	unsigned int alloc_size = rseq_size;
-
-	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
-		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
-	return alloc_size;
-}
-
 /*
  * Return the feature size supported by the kernel.
  *
@@ -151,6 +140,21 @@ unsigned int get_rseq_kernel_feature_size(void)
 		return ORIG_RSEQ_FEATURE_SIZE;
 }
 
+/*
+ * The rseq areas need to be at least 32 bytes, and need to hold all the
+ * features supported by the kernel. Use the same length for all threads,
+ * and for registration and unregistration.
+ */
+static
+unsigned int get_rseq_min_alloc_size(void)
+{
+	unsigned int alloc_size = get_rseq_kernel_feature_size();
+
+	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
+		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
+	return alloc_size;
+}
+
 int rseq_register_current_thread(void)
 {
 	int rc;
-- 
2.43.0


From ee8f9bc9df9e201d9c888c85cbe7b88125149802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:13 +0000
Subject: [PATCH 03/15] fix: reserve the whole thread area announced for kernel
 extensions

The comment on __rseq_abi assumed that aligning the variable on 1024 bytes
makes it 1024 bytes large. It does not: the variable is 32 bytes, and other
thread-local variables may be placed right behind it. On kernels whose rseq
feature size exceeds 32 bytes, the registered area overlaps them and the
kernel corrupts them.
---
 src/rseq.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 3ee5ee3..10d5a0a 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -65,14 +65,21 @@ static int rseq_ownership;
 #define ORIG_RSEQ_ALLOC_SIZE		32
 
 /*
- * The alignment on RSEQ_THREAD_AREA_ALLOC_SIZE guarantees that the
- * rseq_abi structure allocated size is at least
- * RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra space for yet unknown
- * kernel rseq extensions.
+ * The rseq area needs RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra
+ * space for yet unknown kernel rseq extensions. The alignment of a
+ * variable does not extend its size, so reserve the extra space
+ * explicitly.
  */
+union rseq_thread_area {
+	struct rseq_abi abi;
+	char alloc[RSEQ_THREAD_AREA_ALLOC_SIZE];
+};
+
 static
-__thread struct rseq_abi __rseq_abi __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
-	.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+__thread union rseq_thread_area __rseq_area __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
+	.abi = {
+		.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+	},
 };
 
 static int sys_rseq(struct rseq_abi *rseq_abi, uint32_t rseq_len,
@@ -165,7 +172,7 @@ int rseq_register_current_thread(void)
 		/* Treat libc's ownership as a successful registration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
+	rc = sys_rseq(&__rseq_area.abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
 	if (rc) {
 		/*
 		 * After at least one thread has registered successfully
@@ -199,7 +206,7 @@ int rseq_unregister_current_thread(void)
 		/* Treat libc's ownership as a successful unregistration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
+	rc = sys_rseq(&__rseq_area.abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
 	if (rc)
 		return -1;
 	return 0;
@@ -283,7 +290,7 @@ void rseq_init(void)
 	rseq_ownership = 1;
 
 	/* Calculate the offset of the rseq area from the thread pointer. */
-	rseq_offset = (uintptr_t)&__rseq_abi - (uintptr_t)rseq_thread_pointer();
+	rseq_offset = (uintptr_t)&__rseq_area.abi - (uintptr_t)rseq_thread_pointer();
 
 	/* rseq flags are deprecated, always set to 0. */
 	rseq_flags = 0;
-- 
2.43.0


From f0767a640139b9ca63243b0b75d31d60eeb56ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:33 +0000
Subject: [PATCH 04/15] fix: query each CPU count fallback source only once

__max() evaluates the larger argument twice, so the value compared and the
value returned came from two different queries. If the second one fails
(e.g. opendir() failing with EMFILE), the fallback reported no CPU at all,
or fewer CPUs than the other source, instead of the highest number.
---
 src/smp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/smp.c b/src/smp.c
index a162c2b..01130f1 100644
--- a/src/smp.c
+++ b/src/smp.c
@@ -112,10 +112,15 @@ int get_max_cpuid_from_sysfs(void)
 static
 int get_num_possible_cpus_fallback(void)
 {
+	int nr_conf, nr_sysfs;
+
 	/*
 	 * Get the sysconf value as a last resort. Keep the highest number.
+	 * Query each source only once: __max() evaluates its arguments twice.
 	 */
-	return __max(sysconf(_SC_NPROCESSORS_CONF), get_max_cpuid_from_sysfs() + 1);
+	nr_conf = sysconf(_SC_NPROCESSORS_CONF);
+	nr_sysfs = get_max_cpuid_from_sysfs() + 1;
+	return __max(nr_conf, nr_sysfs);
 }
 
 /*
-- 
2.43.0


From 884375df9cf18c545d6407b2061666038310768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:02 +0000
Subject: [PATCH 05/15] fix: mempool: reject item lengths that cannot be
 rounded to a power of two

Item lengths above the largest power of two representable in an unsigned
long have a count order equal to the number of bits of the type. Shifting
by that order is undefined behavior, and yields a pool of 1-byte items on
x86 instead of failing with EINVAL.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 061d38f..45ec441 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -937,7 +937,7 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 
 	/* Align item_len on next power of two. */
 	order = rseq_get_count_order_ulong(item_len);
-	if (order < 0) {
+	if (order < 0 || order >= RSEQ_BITS_PER_LONG) {
 		errno = EINVAL;
 		return NULL;
 	}
-- 
2.43.0


From d8b5971a389941db4aa655f7b8ec0e60c4cb7aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:02 +0000
Subject: [PATCH 06/15] fix: mempool: report unmap failure from
 rseq_mempool_destroy

rseq_mempool_destroy() is documented to return -1 with errno set when
unmapping fails, but returned 0 and leaked the pool.
---
 src/rseq-mempool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 45ec441..58f8243 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -913,6 +913,7 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 		if (rseq_mempool_range_destroy(pool, range, mapping_accessible)) {
 			/* Keep list coherent in case of partial failure. */
 			list_add(&range->node, &pool->range_list);
+			ret = -1;
 			goto end;
 		}
 	}
-- 
2.43.0


From fe42b9ecca14719e7fbab4578379f83f52976032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:22 +0000
Subject: [PATCH 07/15] fix: mempool: allow retrying the destroy of a robust
 pool

When unmapping fails after some ranges are already gone, calling
rseq_mempool_destroy() again walked the free list and the poison values
of the unmapped ranges, thus aborting or crashing. The validation was
already done by the first call.
---
 src/rseq-mempool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 58f8243..d3d969f 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -906,6 +906,11 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 
 	check_free_list(pool, mapping_accessible);
 	check_pool_poison(pool, mapping_accessible);
+	/*
+	 * The validation needs all ranges. Don't repeat it if destroy is
+	 * called again after a failure to unmap some of the ranges.
+	 */
+	pool->attr.robust_set = false;
 
 	/* Iteration safe against removal. */
 	list_for_each_entry_safe(range, tmp_range, &pool->range_list, node) {
-- 
2.43.0


From 68d3aee29f9939053d7d84f59899dbd2831fd56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:44 +0000
Subject: [PATCH 08/15] fix: mempool: copy the initial content in
 rseq_mempool_set_percpu_malloc_init

---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index d3d969f..40bd8b6 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -1296,7 +1296,7 @@ void __rseq_percpu *rseq_mempool_set_percpu_zmalloc(struct rseq_mempool_set *poo
 void __rseq_percpu *rseq_mempool_set_percpu_malloc_init(struct rseq_mempool_set *pool_set,
 		void *init_ptr, size_t len)
 {
-	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, true);
+	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, false);
 }
 
 struct rseq_mempool_attr *rseq_mempool_attr_create(void)
-- 
2.43.0


From f3cb659ae6ebe461f74565dfd5533b124113a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:09 +0000
Subject: [PATCH 09/15] fix: mempool: allow destroying an inherited robust pool
 with live items in a child

---
 src/rseq-mempool.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 40bd8b6..1ffc5e3 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -574,7 +574,8 @@ void check_pool_poison(const struct rseq_mempool *pool, bool mapping_accessible)
 
 /* Always inline for __builtin_return_address(0). */
 static inline __attribute__((always_inline))
-void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range)
+void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range,
+		bool mapping_accessible)
 {
 	unsigned long *bitmap = range->alloc_bitmap;
 	size_t count, total_leaks = 0;
@@ -584,10 +585,14 @@ void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *
 
 	count = ((pool->attr.stride >> pool->item_order) + BIT_PER_ULONG - 1) / BIT_PER_ULONG;
 
-	/* Assert that all items in the pool were freed. */
+	/*
+	 * Assert that all items in the pool were freed. The items of a
+	 * pool which is not accessible (child process after fork) cannot
+	 * be freed before destroy.
+	 */
 	for (size_t k = 0; k < count; ++k)
 		total_leaks += rseq_hweight_ulong(bitmap[k]);
-	if (total_leaks) {
+	if (total_leaks && mapping_accessible) {
 		fprintf(stderr, "%s: Pool \"%s\" (%p) has %zu leaked items on destroy, caller: %p.\n",
 			__func__, get_pool_name(pool), pool, total_leaks, (void *) __builtin_return_address(0));
 		abort();
@@ -603,7 +608,7 @@ int rseq_mempool_range_destroy(struct rseq_mempool *pool,
 		struct rseq_mempool_range *range,
 		bool mapping_accessible)
 {
-	destroy_alloc_bitmap(pool, range);
+	destroy_alloc_bitmap(pool, range, mapping_accessible);
 	if (!mapping_accessible) {
 		/*
 		 * Only the header pages are populated in the child
-- 
2.43.0


From 8004f8e6d4631aaebcbd5116672fd50fc821f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:41 +0000
Subject: [PATCH 10/15] fix: s390, mips, loongarch: list the real exit points
 of the memcpy sequence

The sequence leaves through its local teardown labels, which restore the
registers before jumping to the C labels. Debuggers stepping the sequence
need the address control actually goes to, as on x86-64.
---
 include/rseq/arch/loongarch/bits.h | 6 +++---
 include/rseq/arch/mips/bits.h      | 6 +++---
 include/rseq/arch/s390/bits.h      | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 950ce92..f6c9550 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -384,10 +384,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index b72353f..e8e2053 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -356,10 +356,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
diff --git a/include/rseq/arch/s390/bits.h b/include/rseq/arch/s390/bits.h
index ef2ff69..d517f46 100644
--- a/include/rseq/arch/s390/bits.h
+++ b/include/rseq/arch/s390/bits.h
@@ -367,10 +367,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_LONG_S " %[dst], %[rseq_scratch1]\n\t"
-- 
2.43.0


From 5a5a101180d82d310c03c8a5358f7e6f8e368f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:41 +0000
Subject: [PATCH 11/15] fix: do not let memcpy sequence operands share its loop
 registers

The copy loop of rseq_load_cbne_memcpy_store__ptr modifies src, dst and len,
which are inputs of the asm goto. When another operand has the same value
or the same base address (e.g. newv == len, newv == dst, or v at a constant
offset from dst), the compiler is free to give it the same register, and the
final store then commits a wrong value or goes to a wrong address.
---
 include/rseq/arch/loongarch/bits.h | 7 +++++++
 include/rseq/arch/mips/bits.h      | 7 +++++++
 include/rseq/arch/s390/bits.h      | 7 +++++++
 include/rseq/arch/x86/bits.h       | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index f6c9550..3a579f6 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -382,6 +382,13 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	RSEQ_INJECT_C(9)
 
+	/*
+	 * The copy loop modifies dst, src and len, which are only inputs of
+	 * the asm goto. Hide their values so the compiler does not give
+	 * another input operand the same register.
+	 */
+	__asm__ __volatile__ ("" : "+r" (dst), "+r" (src), "+r" (len));
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index e8e2053..68232b8 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -354,6 +354,13 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	RSEQ_INJECT_C(9)
 
+	/*
+	 * The copy loop modifies dst, src and len, which are only inputs of
+	 * the asm goto. Hide their values so the compiler does not give
+	 * another input operand the same register.
+	 */
+	__asm__ __volatile__ ("" : "+r" (dst), "+r" (src), "+r" (len));
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
diff --git a/include/rseq/arch/s390/bits.h b/include/rseq/arch/s390/bits.h
index d517f46..68fdd2d 100644
--- a/include/rseq/arch/s390/bits.h
+++ b/include/rseq/arch/s390/bits.h
@@ -365,6 +365,13 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	RSEQ_INJECT_C(9)
 
+	/*
+	 * The copy loop modifies dst, src and len, which are only inputs of
+	 * the asm goto. Hide their values so the compiler does not give
+	 * another input operand the same register.
+	 */
+	__asm__ __volatile__ ("" : "+r" (dst), "+r" (src), "+r" (len));
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index 8ef4406..0d57946 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -422,6 +422,13 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	RSEQ_INJECT_C(9)
 
+	/*
+	 * The copy loop modifies dst, src and len, which are only inputs of
+	 * the asm goto. Hide their values so the compiler does not give
+	 * another input operand the same register.
+	 */
+	__asm__ __volatile__ ("" : "+r" (dst), "+r" (src), "+r" (len));
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
-- 
2.43.0


From 7bc4e0b3f8d65224a02ffdd28309d11829dbe8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:13 +0000
Subject: [PATCH 12/15] fix: mempool: reject strides and CPU counts whose range
 length overflows

---
 src/rseq-mempool.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 1ffc5e3..3f9785c 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -40,6 +40,12 @@
 
 #define POOL_SET_NR_ENTRIES	RSEQ_BITS_PER_LONG
 
+/*
+ * Upper bound on the strides mapped for a range in addition to the
+ * per-cpu strides: init values, free list, alignment, header pages.
+ */
+#define RANGE_NR_EXTRA_STRIDES	(3 + POOL_HEADER_NR_PAGES)
+
 #define POOL_HEADER_NR_PAGES	2
 
 /*
@@ -1007,6 +1013,17 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 		errno = EINVAL;
 		return NULL;
 	}
+	/*
+	 * The per-cpu strides, the init values, the free list, the header
+	 * and the alignment margin of a range add up to a mapping length
+	 * which needs to be representable.
+	 */
+	if ((size_t) attr.max_nr_cpus > SIZE_MAX / attr.stride ||
+			SIZE_MAX / attr.stride - attr.max_nr_cpus <
+				RANGE_NR_EXTRA_STRIDES) {
+		errno = EINVAL;
+		return NULL;
+	}
 
 	pool = calloc(1, sizeof(struct rseq_mempool));
 	if (!pool)
-- 
2.43.0


From 6a66d1b9c387bcaddcc4bccdc46cc9e188e3324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:13 +0000
Subject: [PATCH 13/15] fix: report libc ownership correctly before
 initialization and after the destructor

---
 src/rseq.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rseq.c b/src/rseq.c
index 10d5a0a..51322da 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -112,7 +112,12 @@ bool rseq_available(unsigned int query)
 		}
 		break;
 	case RSEQ_AVAILABLE_QUERY_LIBC:
-		if (rseq_size && !rseq_ownership)
+		/*
+		 * The ownership is only known once initialized, and the
+		 * size is negative after the library destructor.
+		 */
+		rseq_init();
+		if ((int) rseq_size > 0 && !rseq_ownership)
 			return true;
 		break;
 	default:
-- 
2.43.0


From f384a80c9830db6c829c574cf144bc7fb74c27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:36 +0000
Subject: [PATCH 14/15] fix: mips, loongarch: allow register operands in add
 and pop

The count and voffp operands have constraint "Ir", but the instruction used
is always the immediate form of add. With an operand which is not a small
compile-time constant, the instruction does not assemble. Use the register
form.
---
 include/rseq/arch/loongarch.h      | 1 +
 include/rseq/arch/loongarch/bits.h | 8 ++++----
 include/rseq/arch/mips.h           | 2 ++
 include/rseq/arch/mips/bits.h      | 8 ++++----
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/rseq/arch/loongarch.h b/include/rseq/arch/loongarch.h
index 884973f..afbfdc0 100644
--- a/include/rseq/arch/loongarch.h
+++ b/include/rseq/arch/loongarch.h
@@ -68,6 +68,7 @@ do {									\
 #define RSEQ_ASM_LONG_L		"ld.d"
 #define RSEQ_ASM_LONG_S		"st.d"
 #define RSEQ_ASM_LONG_ADDI	"addi.d"
+#define RSEQ_ASM_LONG_ADD	"add.d"
 
 /*
  * Helper macros to define a variable of pointer type stored in a 64-bit
diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 3a579f6..8829860 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -112,7 +112,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $r4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $r4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $r4, $r4, 0\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
@@ -128,7 +128,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  /* final store input */
 		  [v]			"m" (*v),
 		  [expectnot]		"r" (expectnot),
-		  [voffp]		"Ir" (voffp),
+		  [voffp]		"r" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
@@ -175,7 +175,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $r4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
 		"2:\n\t"
@@ -188,7 +188,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
-		  [count]		"Ir" (count)
+		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
 		  RSEQ_INJECT_CLOBBER
diff --git a/include/rseq/arch/mips.h b/include/rseq/arch/mips.h
index a811a07..cd12ee4 100644
--- a/include/rseq/arch/mips.h
+++ b/include/rseq/arch/mips.h
@@ -95,12 +95,14 @@ do {									\
 # define RSEQ_ASM_LONG_L		"ld"
 # define RSEQ_ASM_LONG_S		"sd"
 # define RSEQ_ASM_LONG_ADDI		"daddiu"
+# define RSEQ_ASM_LONG_ADD		"daddu"
 #else
 # define RSEQ_ASM_LONG			".word"
 # define RSEQ_ASM_LONG_LA		"la"
 # define RSEQ_ASM_LONG_L		"lw"
 # define RSEQ_ASM_LONG_S		"sw"
 # define RSEQ_ASM_LONG_ADDI		"addiu"
+# define RSEQ_ASM_LONG_ADD		"addu"
 #endif
 
 /*
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index 68232b8..6f5534a 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -103,7 +103,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADD " $4, $4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $4, 0($4)\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
@@ -119,7 +119,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  /* final store input */
 		  [v]			"m" (*v),
 		  [expectnot]		"r" (expectnot),
-		  [voffp]		"Ir" (voffp),
+		  [voffp]		"r" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
 		: "$4", "memory"
@@ -161,7 +161,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADD " $4, $4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
 		"2:\n\t"
@@ -174,7 +174,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
-		  [count]		"Ir" (count)
+		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
 		: "$4", "memory"
 		  RSEQ_INJECT_CLOBBER
-- 
2.43.0


From bfddebc4364da061af77c12f8e0c5693ccde7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:26 +0000
Subject: [PATCH 15/15] fix: x86-32: use the 32-bit stack pointer in
 rseq_smp_mb()

rseq_smp_mb() addresses the stack through %rsp, which does not exist in
32-bit mode: any 32-bit program using it fails to assemble.
---
 include/rseq/arch/x86.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rseq/arch/x86.h b/include/rseq/arch/x86.h
index a6a4068..22424c6 100644
--- a/include/rseq/arch/x86.h
+++ b/include/rseq/arch/x86.h
@@ -46,8 +46,13 @@
  */
 
 /* CPU memory barrier. */
-#define rseq_smp_mb()	\
+#ifdef RSEQ_ARCH_AMD64
+# define rseq_smp_mb()	\
 	__asm__ __volatile__ ("lock; addl $0,-128(%%rsp)" ::: "memory", "cc")
+#else
+# define rseq_smp_mb()	\
+	__asm__ __volatile__ ("lock; addl $0,-128(%%esp)" ::: "memory", "cc")
+#endif
 /* CPU read memory barrier */
 #define rseq_smp_rmb()	rseq_barrier()
 /* CPU write memory barrier */
-- 
2.43.0

