/* Instantiates every public operation for each ordering and index kind; compiled, never run. */
#include <rseq/rseq.h>
#define M(mo, mode) (enum rseq_mo) (mo), (enum rseq_percpu_mode) (mode)
#ifdef rseq_arch_has_load_add_load_load_add_store
#define LALLAS(mo, mode) \
int drv_load_add_load_load_add_store__##mo##__##mode(intptr_t *ptr, long off, intptr_t inc, int cpu) \
{ return rseq_load_add_load_load_add_store__ptr(M(mo, mode), ptr, off, inc, cpu); }
#else
#define LALLAS(mo, mode)
#endif
#define ALL(mo, mode) \
int drv_load_cbne_store__##mo##__##mode(intptr_t *v, intptr_t expect, intptr_t newv, int cpu) \
{ return rseq_load_cbne_store__ptr(M(mo, mode), v, expect, newv, cpu); } \
int drv_load_cbeq_store_add_load_store__##mo##__##mode(intptr_t *v, intptr_t expectnot, long voffp, intptr_t *load, int cpu) \
{ return rseq_load_cbeq_store_add_load_store__ptr(M(mo, mode), v, expectnot, voffp, load, cpu); } \
int drv_load_add_store__##mo##__##mode(intptr_t *v, intptr_t count, int cpu) \
{ return rseq_load_add_store__ptr(M(mo, mode), v, count, cpu); } \
LALLAS(mo, mode) \
int drv_load_cbne_store_store__##mo##__##mode(intptr_t *v, intptr_t expect, intptr_t *v2, intptr_t newv2, intptr_t newv, int cpu) \
{ return rseq_load_cbne_store_store__ptr(M(mo, mode), v, expect, v2, newv2, newv, cpu); } \
int drv_load_cbne_load_cbne_store__##mo##__##mode(intptr_t *v, intptr_t expect, intptr_t *v2, intptr_t expect2, intptr_t newv, int cpu) \
{ return rseq_load_cbne_load_cbne_store__ptr(M(mo, mode), v, expect, v2, expect2, newv, cpu); } \
int drv_load_cbne_memcpy_store__##mo##__##mode(intptr_t *v, intptr_t expect, void *dst, void *src, size_t len, intptr_t newv, int cpu) \
{ return rseq_load_cbne_memcpy_store__ptr(M(mo, mode), v, expect, dst, src, len, newv, cpu); }
#ifdef DRV_FEW
ALL(0, 0) ALL(0, 1) ALL(3, 0) ALL(3, 1)
#else
#define MODES(mo) ALL(mo, 0) ALL(mo, 1) ALL(mo, 2) ALL(mo, 7)
MODES(0) MODES(1) MODES(2) MODES(3) MODES(4) MODES(5) MODES(6)
#endif
const unsigned int drv_sig = RSEQ_SIG;
