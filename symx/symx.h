// Harness interface. Under the engine these are intrinsics; natively (SX_NATIVE) they read a replay file.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sx_in(const char *name, int bits);                  // arbitrary value of that width, zero extended
uint64_t sx_pick(const char *name, uint64_t lo, uint64_t hi);  // value in [lo, hi], one path per value
void sx_bytes(void *p, size_t n, const char *name);          // arbitrary bytes
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_cover(const char *tag);                              // reachability witness
uint64_t sx_concrete(uint64_t v);                            // enumerate all feasible values
void sx_fail(const char *msg);
uint64_t sx_live(void);                                      // live heap allocations
void sx_trace(const char *msg, uint64_t v);
int sx_issym(uint64_t v);
void sx_opt(const char *name, uint64_t v);
void sx_sched(void);
int sx_wait32(volatile void *p, uint32_t v, int timed);
int sx_thread_new(void *(*fn)(void *), void *arg);
void sx_thread_join(int);
int sx_thread_self(void);
int sx_thread_done(int);
uint64_t sx_choose(uint64_t n);                              // scheduler choice
void sx_hb_acquire(const volatile void *);
void sx_hb_release(const volatile void *);
void sx_atomic(int);
void *sx_map_alias(size_t n);
int sx_alive(const void *);
size_t sx_objsize(const void *);
void sx_silent_end(void) __attribute__((noreturn));
void sx_unwind(void *obj, const void *ti) __attribute__((noreturn));
}
static inline bool sx_bool(const char *n) { return sx_in(n, 1) != 0; }
static inline uint8_t sx_u8(const char *n) { return (uint8_t)sx_in(n, 8); }
static inline uint16_t sx_u16(const char *n) { return (uint16_t)sx_in(n, 16); }
static inline uint32_t sx_u32(const char *n) { return (uint32_t)sx_in(n, 32); }
static inline uint64_t sx_u64(const char *n) { return sx_in(n, 64); }
// value in [lo, hi], left symbolic
static inline uint64_t sx_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = sx_in(n, 64); sx_assume(v >= lo && v <= hi); return v; }
// value in [lo, hi], enumerated (one path per value)
#define SX_HARNESS(name) extern "C" void name(void)
