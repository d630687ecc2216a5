/* Uses the pool header's macros and inline functions; compiled, never run. */
#include <rseq/mempool.h>
#include <rseq/rseq.h>
struct pool_item { int a; long b; };
int *pool_ptr1(int *p, int cpu) { return rseq_percpu_ptr(p, cpu); }
struct pool_item *pool_ptr2(struct pool_item *p, int cpu) { return rseq_percpu_ptr(p, cpu, 4096); }
void pool_free1(int *p) { rseq_mempool_percpu_free(p); }
void pool_free2(void *p) { rseq_mempool_percpu_free(p, 4096); }
void pool_free3(int *p) { rseq_mempool_free(p); }
void *pool_m(struct rseq_mempool *p) { return rseq_mempool_malloc(p); }
void *pool_z(struct rseq_mempool *p) { return rseq_mempool_zmalloc(p); }
void *pool_i(struct rseq_mempool *p, void *v, size_t l) { return rseq_mempool_malloc_init(p, v, l); }
void *pool_sm(struct rseq_mempool_set *p, size_t l) { return rseq_mempool_set_malloc(p, l); }
void *pool_sz(struct rseq_mempool_set *p, size_t l) { return rseq_mempool_set_zmalloc(p, l); }
void *pool_si(struct rseq_mempool_set *p, void *v, size_t l) { return rseq_mempool_set_malloc_init(p, v, l); }
