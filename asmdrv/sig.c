/* The public operations have the same type everywhere. */
#include <rseq/rseq.h>
typedef enum rseq_mo mo; typedef enum rseq_percpu_mode md;
int (*sig_1)(mo, md, intptr_t *, intptr_t, intptr_t, int) = rseq_load_cbne_store__ptr;
int (*sig_2)(mo, md, intptr_t *, intptr_t, long, intptr_t *, int) = rseq_load_cbeq_store_add_load_store__ptr;
int (*sig_3)(mo, md, intptr_t *, intptr_t, int) = rseq_load_add_store__ptr;
#ifdef rseq_arch_has_load_add_load_load_add_store
int (*sig_4)(mo, md, intptr_t *, long, intptr_t, int) = rseq_load_add_load_load_add_store__ptr;
#endif
int (*sig_5)(mo, md, intptr_t *, intptr_t, intptr_t *, intptr_t, intptr_t, int) = rseq_load_cbne_store_store__ptr;
int (*sig_6)(mo, md, intptr_t *, intptr_t, intptr_t *, intptr_t, intptr_t, int) = rseq_load_cbne_load_cbne_store__ptr;
int (*sig_7)(mo, md, intptr_t *, intptr_t, void *, void *, size_t, intptr_t, int) = rseq_load_cbne_memcpy_store__ptr;
int32_t (*sig_8)(void) = rseq_current_cpu_raw; uint32_t (*sig_9)(void) = rseq_cpu_start; uint32_t (*sig_10)(void) = rseq_current_cpu;
uint32_t (*sig_11)(void) = rseq_current_node_id; uint32_t (*sig_12)(void) = rseq_current_mm_cid; bool (*sig_13)(void) = rseq_node_id_available; bool (*sig_14)(void) = rseq_mm_cid_available;
void (*sig_15)(void) = rseq_clear_rseq_cs; void (*sig_16)(void) = rseq_prepare_unload; struct rseq_abi *(*sig_17)(void) = rseq_get_abi; void *(*sig_18)(void) = rseq_thread_pointer;
