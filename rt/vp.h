// Harness API. In the symbolic executor every vp_* function is modelled by the engine (see engine/handlers.hpp);
// natively (replay, trace validation) they are implemented by rt/native.cpp and read their values from a replay file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vp_u64(const char* name);
uint32_t vp_u32(const char* name);
uint16_t vp_u16(const char* name);
uint8_t vp_u8(const char* name);
bool vp_bool(const char* name);
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);
[[noreturn]] void vp_fail(const char* msg);
[[noreturn]] void vp_kill();
uint32_t vp_choose(const char* name, uint32_t n);     // forks: every alternative is followed with a concrete value
uint64_t vp_concretize(uint64_t v);
bool vp_is_symbolic(uint64_t v);
void vp_reach(const char* tag);                        // vacuity witness
void vp_out(const char* name, uint64_t v);             // observable, compared against the native run
void vp_note(const char* text, uint64_t v);
void vp_print(const char* text, uint64_t v);
bool vp_native();
uint64_t vp_ite(bool c, uint64_t a, uint64_t b);       // branch-free selection
uint64_t vp_thread_create(void (*fn)(void*), void* arg);
void vp_thread_join(uint64_t t);
uint64_t vp_self();
uint64_t vp_nthreads();
void vp_run_others();                                  // run all other threads until they block or finish
void vp_yield();
void vp_explore(int preemptions, int spurious);        // from here on schedules are symbolic (preemption-bounded)
void vp_watch(const void* p, size_t n);                // accesses to [p,p+n) are scheduling points while exploring
void vp_cond_wait(void* cv, void* mtx);
int vp_cond_timedwait(void* cv, void* mtx);
void vp_cond_notify(void* cv, int all);
int vp_cond_waiters(void* cv);
bool vp_lock_held(void* mtx);
extern uint64_t vp_clock_ns;                            // value returned by system_clock / steady_clock
extern uint32_t vp_random_value;                        // value returned by std::random_device
extern int vp_fs_fail_at;                               // >=0: the n-th next file open fails
extern int vp_fs_opens;
extern int vp_fs_fail_op;                               // >=0: the n-th next truncate or remove fails
const char* vp_scratch();                               // directory for files (in-memory in the model)
extern int vp_fs_crash_at;                              // >=0: the files as they are before the n-th next modifying file operation are kept
bool vp_fs_crash();                                     // put the kept files back (false: none were kept)
void vp_fs_reset();
long vp_fs_size(const char* path);                      // -1 if the file does not exist
void vp_fs_corrupt(const char* path, long off, uint8_t v);
}
static inline uint64_t vp_range(const char* n, uint64_t lo, uint64_t hi) { uint64_t v = vp_u64(n); vp_assume(v >= lo && v <= hi); return v; }
static inline uint32_t vp_range32(const char* n, uint32_t lo, uint32_t hi) { uint32_t v = vp_u32(n); vp_assume(v >= lo && v <= hi); return v; }
#define HARNESS(name) extern "C" __attribute__((used)) void name()
