/* Layout constants and accessors of the per-thread area; compiled, never run. */
#include <rseq/rseq.h>
#include <stddef.h>
#define L(n, e) const unsigned long lay_##n = (unsigned long) (e);
#define FLD(s, f, n) L(off_##n, offsetof(struct s, f)) L(len_##n, sizeof(((struct s *) 0)->f))
FLD(rseq_abi, cpu_id_start, cpu_id_start) FLD(rseq_abi, cpu_id, cpu_id) FLD(rseq_abi, rseq_cs, rseq_cs) FLD(rseq_abi, rseq_cs.ptr64, ptr64)
FLD(rseq_abi, rseq_cs.arch.ptr, arch_ptr) FLD(rseq_abi, flags, flags) FLD(rseq_abi, node_id, node_id) FLD(rseq_abi, mm_cid, mm_cid)
L(off_end, offsetof(struct rseq_abi, end)) L(align_abi, __alignof__(struct rseq_abi)) L(size_abi, sizeof(struct rseq_abi))
FLD(rseq_abi_cs, version, version) FLD(rseq_abi_cs, flags, csflags) FLD(rseq_abi_cs, start_ip, start_ip)
FLD(rseq_abi_cs, post_commit_offset, post_commit_offset) FLD(rseq_abi_cs, abort_ip, abort_ip) L(align_cs, __alignof__(struct rseq_abi_cs)) L(size_cs, sizeof(struct rseq_abi_cs))
L(val_UNINITIALIZED, RSEQ_ABI_CPU_ID_UNINITIALIZED) L(val_REGISTRATION_FAILED, RSEQ_ABI_CPU_ID_REGISTRATION_FAILED) L(val_UNREGISTER, RSEQ_ABI_FLAG_UNREGISTER)
L(val_NO_RESTART_ON_PREEMPT, RSEQ_ABI_CS_FLAG_NO_RESTART_ON_PREEMPT) L(val_NO_RESTART_ON_SIGNAL, RSEQ_ABI_CS_FLAG_NO_RESTART_ON_SIGNAL) L(val_NO_RESTART_ON_MIGRATE, RSEQ_ABI_CS_FLAG_NO_RESTART_ON_MIGRATE)
#ifdef __NR_rseq
L(val_NR, __NR_rseq)
#endif
int32_t abi_cpu_raw(void) { return rseq_current_cpu_raw(); }
uint32_t abi_cpu_start(void) { return rseq_cpu_start(); }
uint32_t abi_cpu(void) { return rseq_current_cpu(); }
uint32_t abi_node(void) { return rseq_current_node_id(); }
uint32_t abi_cid(void) { return rseq_current_mm_cid(); }
void abi_clear(void) { rseq_clear_rseq_cs(); }
void abi_unload(void) { rseq_prepare_unload(); }
unsigned int abi_node_av(void) { return rseq_node_id_available() ? 1 : 0; }
unsigned int abi_cid_av(void) { return rseq_mm_cid_available() ? 1 : 0; }
