// Harness interface.  In the symbolic engine these are intrinsics; in the native
// replay build (native.c) they read recorded inputs and write an observation log.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sym_bits (unsigned bits, const char* name);		// an arbitrary value of that many bits
void sym_assume (int c);					// restricts what follows to c
void sym_assert_ (int c, const char* msg);			// the property
void sym_observe (uint64_t v);					// compared between engine and native run
void sym_reach (const char* label);				// reachability witness
uint64_t sym_concretize (uint64_t v);				// explore every value separately
void sym_stop (void) __attribute__((noreturn));
void sym_malloc_fail (int budget);				// up to budget allocations may fail, each choice explored
void sym_isconst_mode (int m);
uint64_t sym_live_allocs (void);				// heap blocks currently allocated
uint64_t sym_alloc_count (void);
int sym_native (void);
int sym_valid (const void* p, size_t n);			// engine: [p,p+n) lies within one live object; native: 1
}
#define CHECK(c,msg)	sym_assert_(!!(c), msg)
#define OBS(v)		sym_observe((uint64_t)(v))
static inline uint8_t sym_u8 (const char* n)	{ return (uint8_t) sym_bits(8,n); }
static inline uint16_t sym_u16 (const char* n)	{ return (uint16_t) sym_bits(16,n); }
static inline uint32_t sym_u32 (const char* n)	{ return (uint32_t) sym_bits(32,n); }
static inline uint64_t sym_u64 (const char* n)	{ return sym_bits(64,n); }
static inline bool sym_bool (const char* n)	{ return sym_concretize(sym_bits(1,n)) != 0; }	// both values explored
// lo..hi inclusive, kept symbolic
static inline uint64_t sym_range (uint64_t lo, uint64_t hi, const char* n)
    { unsigned w = 1; while (w < 64 && (hi >> w)) ++w; uint64_t v = sym_bits(w,n); sym_assume((v >= lo) & (v <= hi)); return v; }
// lo..hi inclusive, every value explored on its own path
static inline uint64_t sym_pick (uint64_t lo, uint64_t hi, const char* n) { return sym_concretize(sym_range(lo,hi,n)); }
