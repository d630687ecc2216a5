From 158ce5f4e6c1cb39e552baa17cc7baa315fc5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:31 +0000
Subject: [PATCH 01/18] fix: mempool set: honour init content in
 rseq_mempool_set_percpu_malloc_init

rseq_mempool_set_percpu_malloc_init() asked for a zeroed allocation, so
the caller's initial content was ignored and the item read as zero.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 061d38f..67cb683 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -1290,7 +1290,7 @@ void __rseq_percpu *rseq_mempool_set_percpu_zmalloc(struct rseq_mempool_set *poo
 void __rseq_percpu *rseq_mempool_set_percpu_malloc_init(struct rseq_mempool_set *pool_set,
 		void *init_ptr, size_t len)
 {
-	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, true);
+	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, false);
 }
 
 struct rseq_mempool_attr *rseq_mempool_attr_create(void)
-- 
2.43.0


From b31a1281cde36f50c87082f9402974aaf7430711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:31 +0000
Subject: [PATCH 02/18] fix: mempool: report range unmap failure from
 rseq_mempool_destroy

The API documents -1 when unmapping fails, but 0 was returned while the
pool was left allocated, so callers could not know to retry.
---
 src/rseq-mempool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 67cb683..d38b538 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -913,6 +913,7 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 		if (rseq_mempool_range_destroy(pool, range, mapping_accessible)) {
 			/* Keep list coherent in case of partial failure. */
 			list_add(&range->node, &pool->range_list);
+			ret = -1;
 			goto end;
 		}
 	}
-- 
2.43.0


From 77adf22ab6bbb96aea07dd7a2ea9204777335480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:24 +0000
Subject: [PATCH 03/18] fix: mempool: refuse item lengths which cannot be
 rounded up

An item length above half of the address space has a count order equal
to the number of bits of size_t, so that 1UL << order is undefined. On
x86-64 the pool was created with 1-byte items instead of being refused.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index d38b538..6700d63 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -938,7 +938,7 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 
 	/* Align item_len on next power of two. */
 	order = rseq_get_count_order_ulong(item_len);
-	if (order < 0) {
+	if (order < 0 || order >= RSEQ_BITS_PER_LONG) {
 		errno = EINVAL;
 		return NULL;
 	}
-- 
2.43.0


From 56bc48c61429d372492e8f7629c050676b7e6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:24 +0000
Subject: [PATCH 04/18] fix: mempool: fail range creation when its length
 overflows

stride * max_nr_cpus could wrap around, which mapped a range too small
for the per-cpu areas, then overwrote unrelated mappings.
---
 src/rseq-mempool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 6700d63..85f98e9 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -752,6 +752,11 @@ struct rseq_mempool_range *rseq_mempool_range_create(struct rseq_mempool *pool)
 		errno = ENOMEM;
 		return NULL;
 	}
+	/* Make sure the range length (with its alignment) does not overflow. */
+	if (pool->attr.stride > SIZE_MAX / ((size_t) pool->attr.max_nr_cpus + 4)) {
+		errno = ENOMEM;
+		return NULL;
+	}
 	page_size = rseq_get_page_len();
 
 	header_len = POOL_HEADER_NR_PAGES * page_size;
-- 
2.43.0


From 1165ec0d03e18c2ebc4fb86ac7fb64745b8856a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:52 +0000
Subject: [PATCH 05/18] fix: x86-32: make rseq_smp_mb() assemble

The memory barrier used a 64-bit stack pointer register on both x86-64
and x86-32, so any use of rseq_smp_mb() failed to build on x86-32.
---
 include/rseq/arch/x86.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rseq/arch/x86.h b/include/rseq/arch/x86.h
index a6a4068..22424c6 100644
--- a/include/rseq/arch/x86.h
+++ b/include/rseq/arch/x86.h
@@ -46,8 +46,13 @@
  */
 
 /* CPU memory barrier. */
-#define rseq_smp_mb()	\
+#ifdef RSEQ_ARCH_AMD64
+# define rseq_smp_mb()	\
 	__asm__ __volatile__ ("lock; addl $0,-128(%%rsp)" ::: "memory", "cc")
+#else
+# define rseq_smp_mb()	\
+	__asm__ __volatile__ ("lock; addl $0,-128(%%esp)" ::: "memory", "cc")
+#endif
 /* CPU read memory barrier */
 #define rseq_smp_rmb()	rseq_barrier()
 /* CPU write memory barrier */
-- 
2.43.0


From c054f24541296070084a6703b2c956e3e4fdc35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:52 +0000
Subject: [PATCH 06/18] fix: use one registration length for all threads

The length given to the rseq system call was derived from rseq_size,
which is 0 until the first thread registers. With a kernel feature size
above 32 bytes, the first thread registered a 32-byte area while the
full feature size was published, other threads registered a larger one,
and unregistering the first thread failed with EINVAL.
---
 src/rseq.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 7bfaea7..c0e0ce2 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -114,17 +114,6 @@ bool rseq_available(unsigned int query)
 	return false;
 }
 
-/* The rseq areas need to be at least 32 bytes. */
-static
-unsigned int get_rseq_min_alloc_size(void)
-{
-	unsigned int alloc_size = rseq_size;
-
-	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
-		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
-	return alloc_size;
-}
-
 /*
  * Return the feature size supported by the kernel.
  *
@@ -151,6 +140,22 @@ unsigned int get_rseq_kernel_feature_size(void)
 		return ORIG_RSEQ_FEATURE_SIZE;
 }
 
+/*
+ * The rseq areas need to be at least 32 bytes, and cover the feature
+ * size supported by the kernel. This is the same length for every
+ * registration and unregistration, whether or not a thread has already
+ * been registered.
+ */
+static
+unsigned int get_rseq_min_alloc_size(void)
+{
+	unsigned int alloc_size = get_rseq_kernel_feature_size();
+
+	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
+		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
+	return alloc_size;
+}
+
 int rseq_register_current_thread(void)
 {
 	int rc;
-- 
2.43.0


From 1fae3bc5dfe6e109f24b11a8f03f727750fd3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:33 +0000
Subject: [PATCH 07/18] fix: ppc: declare cr7 as clobbered by the critical
 sections

The comparisons of the ppc critical sections write condition field cr7,
but the clobber lists only name "cc", which is cr0. A condition the
compiler keeps in cr7 across an inlined operation is lost.
---
 include/rseq/arch/ppc/bits.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/rseq/arch/ppc/bits.h b/include/rseq/arch/ppc/bits.h
index 35ad5db..a09849e 100644
--- a/include/rseq/arch/ppc/bits.h
+++ b/include/rseq/arch/ppc/bits.h
@@ -55,7 +55,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store__ptr)(intptr_t *v, intptr_t ex
 		  [expect]		"r" (expect),
 		  [newv]		"r" (newv)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
@@ -128,7 +128,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  [voffp]		"b" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort, eq
 #ifdef RSEQ_COMPARE_TWICE
@@ -189,7 +189,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [v]			"m" (*v),
 		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort
 #ifdef RSEQ_COMPARE_TWICE
@@ -259,7 +259,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_load_cbne_store__ptr)(intptr_t *v, i
 		  [expect]		"r" (expect),
 		  [newv]		"r" (newv)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
@@ -345,7 +345,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store_store__ptr)(intptr_t *v, intpt
 		  [expect]		"r" (expect),
 		  [newv]		"r" (newv)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
@@ -428,7 +428,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  [src]			"r" (src),
 		  [len]			"r" (len)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17", "r18", "r19", "r20", "r21"
+		: "memory", "cc", "cr7", "r17", "r18", "r19", "r20", "r21"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
-- 
2.43.0


From 1d1377995209ae0adccf35d846cbdd870b1cb977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:13 +0000
Subject: [PATCH 08/18] fix: let destroy of a robust pool be retried after a
 partial failure

When unmapping a range fails after another range was already unmapped,
destroy returns -1 and keeps the remaining ranges linked so the caller
can retry. The retry validated the free list again, found nodes of the
range that is gone and ended the process. Validate the content only
while all ranges are mapped.
---
 src/rseq-mempool.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 85f98e9..2ff0ec5 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -173,6 +173,13 @@ struct rseq_mempool {
 
 	struct rseq_mempool_attr attr;
 	char *name;
+
+	/*
+	 * Set once destroy has unmapped a range: the free list then
+	 * refers to memory which is gone and cannot be validated again
+	 * when destroy is retried.
+	 */
+	bool range_unmapped;
 };
 
 /*
@@ -909,8 +916,10 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 	 */
 	mapping_accessible = pool_mappings_accessible(pool);
 
-	check_free_list(pool, mapping_accessible);
-	check_pool_poison(pool, mapping_accessible);
+	if (!pool->range_unmapped) {
+		check_free_list(pool, mapping_accessible);
+		check_pool_poison(pool, mapping_accessible);
+	}
 
 	/* Iteration safe against removal. */
 	list_for_each_entry_safe(range, tmp_range, &pool->range_list, node) {
@@ -921,6 +930,7 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 			ret = -1;
 			goto end;
 		}
+		pool->range_unmapped = true;
 	}
 	pthread_mutex_destroy(&pool->lock);
 	free(pool->name);
-- 
2.43.0


From b2536fad314216aed3f294e38b6780aaee283df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:38 +0000
Subject: [PATCH 09/18] fix: smp: refuse a CPU directory whose id plus one
 overflows int

---
 src/smp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smp.c b/src/smp.c
index a162c2b..5e4babd 100644
--- a/src/smp.c
+++ b/src/smp.c
@@ -67,7 +67,7 @@ int _get_max_cpuid_from_sysfs(const char *path)
 	 * If the max CPU id is out of bound, set it to -1 so it results in a
 	 * CPU num of 0.
 	 */
-	if (max_cpuid < 0 || max_cpuid > INT_MAX)
+	if (max_cpuid < 0 || max_cpuid >= INT_MAX)
 		max_cpuid = -1;
 
 end:
-- 
2.43.0


From ffb9742321d8ec46230693989cb42ebb15150837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:38 +0000
Subject: [PATCH 10/18] fix: smp: do not trust a possible CPU list truncated by
 the buffer

---
 src/smp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smp.c b/src/smp.c
index 5e4babd..f61105a 100644
--- a/src/smp.c
+++ b/src/smp.c
@@ -237,6 +237,9 @@ static void update_possible_cpus_array_len_cache(void)
 	ret = get_possible_cpu_mask_from_sysfs((char *) &buf, RSEQ_CPUMASK_SIZE);
 	if (ret <= 0)
 		goto fallback;
+	/* A mask which fills the buffer may be truncated before its last id. */
+	if (ret >= RSEQ_CPUMASK_SIZE)
+		goto fallback;
 
 	/* Parse the possible cpu mask, on failure fallback to sysconf. */
 	ret = get_max_cpuid_from_mask((char *) &buf, ret);
-- 
2.43.0


From 877855b15d38544e374033a6af2a865162ba6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:34 +0000
Subject: [PATCH 11/18] fix: arm: drop the register prefix that clang's
 assembler rejects

The byte copy of rseq_load_cbne_memcpy_store__ptr names r0 with a '%' prefix, which only
GNU as accepts: the public header cannot be built with clang.
---
 include/rseq/arch/arm/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rseq/arch/arm/bits.h b/include/rseq/arch/arm/bits.h
index b41da94..e9589cb 100644
--- a/include/rseq/arch/arm/bits.h
+++ b/include/rseq/arch/arm/bits.h
@@ -435,8 +435,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		"cmp r7, #0\n\t"
 		"beq 333f\n\t"
 		"222:\n\t"
-		"ldrb %%r0, [r6]\n\t"
-		"strb %%r0, [r5]\n\t"
+		"ldrb r0, [r6]\n\t"
+		"strb r0, [r5]\n\t"
 		"adds r6, #1\n\t"
 		"adds r5, #1\n\t"
 		"subs r7, #1\n\t"
-- 
2.43.0


From 910b6b6485c328b6e59565d62cf7438863d62f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:34 +0000
Subject: [PATCH 12/18] fix: mips, loongarch: use a register add for a register
 operand

rseq_load_add_store__ptr and rseq_load_cbeq_store_add_load_store__ptr add an operand which is a
register unless it is a small compile-time constant, with the immediate form of the add: the
assembler rejects it.
---
 include/rseq/arch/loongarch.h      | 1 +
 include/rseq/arch/loongarch/bits.h | 8 ++++----
 include/rseq/arch/mips.h           | 2 ++
 include/rseq/arch/mips/bits.h      | 8 ++++----
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/rseq/arch/loongarch.h b/include/rseq/arch/loongarch.h
index 884973f..7ae1be4 100644
--- a/include/rseq/arch/loongarch.h
+++ b/include/rseq/arch/loongarch.h
@@ -67,6 +67,7 @@ do {									\
 #define RSEQ_ASM_LONG_LA	"la.local"
 #define RSEQ_ASM_LONG_L		"ld.d"
 #define RSEQ_ASM_LONG_S		"st.d"
+#define RSEQ_ASM_LONG_ADD	"add.d"
 #define RSEQ_ASM_LONG_ADDI	"addi.d"
 
 /*
diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 950ce92..163df00 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -112,7 +112,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $r4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $r4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $r4, $r4, 0\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
@@ -128,7 +128,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  /* final store input */
 		  [v]			"m" (*v),
 		  [expectnot]		"r" (expectnot),
-		  [voffp]		"Ir" (voffp),
+		  [voffp]		"r" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
@@ -175,7 +175,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $r4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
 		"2:\n\t"
@@ -188,7 +188,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
-		  [count]		"Ir" (count)
+		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
 		  RSEQ_INJECT_CLOBBER
diff --git a/include/rseq/arch/mips.h b/include/rseq/arch/mips.h
index a811a07..289ebfa 100644
--- a/include/rseq/arch/mips.h
+++ b/include/rseq/arch/mips.h
@@ -94,12 +94,14 @@ do {									\
 # define RSEQ_ASM_LONG_LA		"dla"
 # define RSEQ_ASM_LONG_L		"ld"
 # define RSEQ_ASM_LONG_S		"sd"
+# define RSEQ_ASM_LONG_ADD		"daddu"
 # define RSEQ_ASM_LONG_ADDI		"daddiu"
 #else
 # define RSEQ_ASM_LONG			".word"
 # define RSEQ_ASM_LONG_LA		"la"
 # define RSEQ_ASM_LONG_L		"lw"
 # define RSEQ_ASM_LONG_S		"sw"
+# define RSEQ_ASM_LONG_ADD		"addu"
 # define RSEQ_ASM_LONG_ADDI		"addiu"
 #endif
 
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index b72353f..44f067d 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -103,7 +103,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADD " $4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $4, 0($4)\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
@@ -119,7 +119,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  /* final store input */
 		  [v]			"m" (*v),
 		  [expectnot]		"r" (expectnot),
-		  [voffp]		"Ir" (voffp),
+		  [voffp]		"r" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
 		: "$4", "memory"
@@ -161,7 +161,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADD " $4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
 		"2:\n\t"
@@ -174,7 +174,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
-		  [count]		"Ir" (count)
+		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
 		: "$4", "memory"
 		  RSEQ_INJECT_CLOBBER
-- 
2.43.0


From 7951dfc48623f33ff666b1889b0077438cbe7aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:14 +0000
Subject: [PATCH 13/18] fix: x86-32: let
 rseq_load_cbeq_store_add_load_store__ptr build with a variable offset

With an offset which is not a compile-time constant, the operation needs eight registers and
cannot be compiled. Let the compiler keep the operands that need no register in memory.
---
 include/rseq/arch/x86/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index 22ab80b..1c7857c 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -658,8 +658,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  [rseq_offset]		"r" (rseq_offset),
 		  /* final store input */
 		  [v]			"m" (*v),
-		  [expectnot]		"r" (expectnot),
-		  [voffp]		"ir" (voffp),
+		  [expectnot]		"rm" (expectnot),
+		  [voffp]		"irm" (voffp),
 		  [load]		"m" (*load),
 		  [ref_ip]		"m" (rseq_local.ref_ip)
 		: "memory", "cc", "eax", "ebx"
-- 
2.43.0


From 3e585fa88b1d69128ef8b078311e5f63354f608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:14 +0000
Subject: [PATCH 14/18] fix: riscv: take the offset of
 rseq_load_cbeq_store_add_load_store__ptr as a long

off_t is not declared by the headers included in strict ISO C mode, and is not what the other
architectures take.
---
 include/rseq/arch/riscv/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rseq/arch/riscv/bits.h b/include/rseq/arch/riscv/bits.h
index 799e5b9..09790bc 100644
--- a/include/rseq/arch/riscv/bits.h
+++ b/include/rseq/arch/riscv/bits.h
@@ -67,7 +67,7 @@ error2:
 
 static inline __attribute__((always_inline))
 int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t *v, intptr_t expectnot,
-			       off_t voffp, intptr_t *load, int cpu)
+			       long voffp, intptr_t *load, int cpu)
 {
 	RSEQ_INJECT_C(9)
 
-- 
2.43.0


From 5629ca964957a2e21924bdfbd61f372715c8e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:14 +0000
Subject: [PATCH 15/18] fix: loongarch: name the thread pointer register as the
 compilers do

The fallback used with compilers that do not claim to be GCC 13.3 or later names the register
"$2", which is rejected; the register is "$r2".
---
 include/rseq/arch/loongarch/thread-pointer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rseq/arch/loongarch/thread-pointer.h b/include/rseq/arch/loongarch/thread-pointer.h
index 9c3640b..8d7184e 100644
--- a/include/rseq/arch/loongarch/thread-pointer.h
+++ b/include/rseq/arch/loongarch/thread-pointer.h
@@ -25,8 +25,8 @@ void *rseq_thread_pointer(void)
 static inline __attribute__((always_inline))
 void *rseq_thread_pointer(void)
 {
-	register void *__result asm ("$2");
-	asm ("" : "=r" (__result));
+	register void *__result __asm__ ("$r2");
+	__asm__ ("" : "=r" (__result));
 	return __result;
 }
 #endif /* !GCC 13.3 */
-- 
2.43.0


From d1464703f0c05aee45661705cc6ea90d19910267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:14 +0000
Subject: [PATCH 16/18] fix: ppc: use __asm__ in the public header

asm is not a keyword in strict ISO C mode.
---
 include/rseq/arch/ppc/thread-pointer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/rseq/arch/ppc/thread-pointer.h b/include/rseq/arch/ppc/thread-pointer.h
index 48da168..ee84db5 100644
--- a/include/rseq/arch/ppc/thread-pointer.h
+++ b/include/rseq/arch/ppc/thread-pointer.h
@@ -16,11 +16,11 @@ static inline __attribute__((always_inline))
 void *rseq_thread_pointer(void)
 {
 #ifdef __powerpc64__
-	register void *__result asm ("r13");
+	register void *__result __asm__ ("r13");
 #else
-	register void *__result asm ("r2");
+	register void *__result __asm__ ("r2");
 #endif
-	asm ("" : "=r" (__result));
+	__asm__ ("" : "=r" (__result));
 	return __result;
 }
 
-- 
2.43.0


From 2f2ace37efe8fcfa66be7bb7afc0346f64086f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:44 +0000
Subject: [PATCH 17/18] fix: allocate the whole thread area the registration
 length may cover

Aligning the TLS variable on 1024 bytes does not make it 1024 bytes long: other TLS variables can
follow the 32-byte structure directly, and a kernel with a feature size above 32 bytes is
given a length that covers them. Make the object RSEQ_THREAD_AREA_ALLOC_SIZE bytes long.
---
 src/rseq.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index c0e0ce2..b6606dd 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -65,14 +65,18 @@ static int rseq_ownership;
 #define ORIG_RSEQ_ALLOC_SIZE		32
 
 /*
- * The alignment on RSEQ_THREAD_AREA_ALLOC_SIZE guarantees that the
- * rseq_abi structure allocated size is at least
- * RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra space for yet unknown
- * kernel rseq extensions.
+ * The union guarantees that the allocated size of the rseq area is at
+ * least RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra space for yet
+ * unknown kernel rseq extensions.
  */
 static
-__thread struct rseq_abi __rseq_abi __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
-	.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+__thread union {
+	struct rseq_abi abi;
+	char alloc[RSEQ_THREAD_AREA_ALLOC_SIZE];
+} __rseq_area __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
+	.abi = {
+		.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+	},
 };
 
 static int sys_rseq(struct rseq_abi *rseq_abi, uint32_t rseq_len,
@@ -166,7 +170,7 @@ int rseq_register_current_thread(void)
 		/* Treat libc's ownership as a successful registration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
+	rc = sys_rseq(&__rseq_area.abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
 	if (rc) {
 		/*
 		 * After at least one thread has registered successfully
@@ -200,7 +204,7 @@ int rseq_unregister_current_thread(void)
 		/* Treat libc's ownership as a successful unregistration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
+	rc = sys_rseq(&__rseq_area.abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
 	if (rc)
 		return -1;
 	return 0;
@@ -284,7 +288,7 @@ void rseq_init(void)
 	rseq_ownership = 1;
 
 	/* Calculate the offset of the rseq area from the thread pointer. */
-	rseq_offset = (uintptr_t)&__rseq_abi - (uintptr_t)rseq_thread_pointer();
+	rseq_offset = (uintptr_t)&__rseq_area.abi - (uintptr_t)rseq_thread_pointer();
 
 	/* rseq flags are deprecated, always set to 0. */
 	rseq_flags = 0;
-- 
2.43.0


From d421d77d86bb31ed548eae8d4367ef4724c46b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:26 +0000
Subject: [PATCH 18/18] fix: rseq_exit: reset the feature size to 0

After the destructor has run, rseq_size is -1U while the ownership flag is
cleared, so rseq_available(RSEQ_AVAILABLE_QUERY_LIBC) answers that the C
library owns an active registration although librseq had it. Use 0, which
means "no active feature" everywhere else.
---
 src/rseq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq.c b/src/rseq.c
index b6606dd..15f7dbc 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -315,7 +315,7 @@ void rseq_exit(void)
 	if (!rseq_ownership)
 		return;
 	rseq_offset = 0;
-	rseq_size = -1U;
+	rseq_size = 0;
 	rseq_ownership = 0;
 }
 
-- 
2.43.0

