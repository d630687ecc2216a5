/* Instantiates every ordering primitive; compiled, never run. */
#include <rseq/rseq.h>
#include <stdint.h>
void bar_mb(void) { rseq_smp_mb(); }
void bar_rmb(void) { rseq_smp_rmb(); }
void bar_wmb(void) { rseq_smp_wmb(); }
void bar_ctrl(void) { rseq_smp_acquire__after_ctrl_dep(); }
void bar_compiler(void) { rseq_barrier(); }
#define RW(n, T) \
T bar_acquire_##n(T *p) { return rseq_smp_load_acquire(p); } \
void bar_release_##n(T *p, T v) { rseq_smp_store_release(p, v); } \
T bar_read_##n(T *p) { return RSEQ_READ_ONCE(*p); } \
void bar_write_##n(T *p, T v) { RSEQ_WRITE_ONCE(*p, v); }
RW(u8, uint8_t) RW(u16, uint16_t) RW(u32, uint32_t) RW(word, uintptr_t) RW(s8, int8_t) RW(s16, int16_t) RW(s32, int32_t) RW(ptr, void *)
