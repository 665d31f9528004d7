// Specification interface of the VC generator (and of its native replay runtime, when VP_NATIVE is defined).
#pragma once

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

// ---- inputs of a harness: arbitrary values
uint8_t vp_u8(const char* name);
uint16_t vp_u16(const char* name);
uint32_t vp_u32(const char* name);
uint64_t vp_u64(const char* name);
bool vp_bool(const char* name);
uint64_t vp_range(const char* name, uint64_t lo, uint64_t hi);	// lo <= x <= hi
void* vp_obj(size_t size, const char* name);			// heap block of arbitrary content
void* vp_obj_where(size_t size, const char* name, bool (*pred)(uint64_t off, uint64_t byte));	// every byte satisfies pred
char* vp_cstr(size_t len, const char* name);			// heap block holding a C string of exactly that length
void vp_havoc(void* p, size_t n);				// arbitrary new content

// ---- contracts
void vp_assume(bool c);
void vp_assert(bool c, const char* name);
void vp_cover(const char* name);				// reachability: guards against vacuous contracts
void vp_note(const char* assumption);				// an assumption the proof rests on

// ---- ghost state
void* vp_snap(const void* p, size_t n);				// ghost copy of the memory around p
bool vp_freed(const void* p);					// the block of p was freed
bool vp_valid(const void* p, size_t n);				// [p, p+n) lies in one live block
bool vp_heap(const void* p);					// p is the start of a live heap block
uint64_t vp_live(void);						// number of live heap blocks
uint64_t vp_uf1(const char* f, uint64_t a);			// uninterpreted functions
uint64_t vp_uf2(const char* f, uint64_t a, uint64_t b);
uint64_t vp_uf3(const char* f, uint64_t a, uint64_t b, uint64_t c);

// ---- allocation failure
void vp_alloc_may_fail(bool on);
bool vp_alloc_failed(void);

// ---- loop invariants: templates instantiated at every cut loop; kept when inductive
void vp_inv_n(bool (*f)(uint64_t n));				// over the iteration counter
void vp_inv_v(bool (*f)(uint64_t v));				// over each loop variable
void vp_inv_nv(bool (*f)(uint64_t n, uint64_t v));
void vp_inv_clear(void);
void vp_witness(uint64_t i);					// index at which pointwise facts are instantiated
void vp_unroll(uint32_t k);					// unroll completely, at most k times (0: off)

// ---- concurrency
void vp_shared(void* cell, uint32_t width, bool (*rely)(uint64_t old, uint64_t now));
void vp_shared_clear(void);
void vp_guard(const void* p, size_t n, int* lock);		// region accessible only while *lock == 1 (n == 0: whole block)
void vp_guard_clear(void);
void vp_guard_sync(void);

// ---- control
uint64_t vp_split(uint64_t v, uint32_t max);			// case split
bool vp_bounded(void);						// refutation run: small sizes
bool vp_native(void);						// native replay
void vp_trace(const char* name, uint64_t v);

// VP_STUB: replaces a function called by the code under proof, in proofs and in native replay
// VP_CONTRACT: replaces a function by its contract in proofs only (native replay runs the real one)
// VP_RECURSIVE: contract used (in proofs only) for calls of a function while it is active: the induction hypothesis
// VP_STATIC: names a function with internal linkage
#define VP_STATIC(f) vp_static__##f
#ifdef VP_NATIVE
#define VP_STUB(f) f
#define VP_RECURSIVE(f) vp_recursive__##f
#define VP_CONTRACT(f) vp_contract__##f
void vp_register(const char* name, void (*f)(void));
#define VP_HARNESS(f) \
	void vp_h__##f(void); \
	__attribute__((constructor)) static void vp_reg__##f(void) { vp_register(#f, vp_h__##f); } \
	void vp_h__##f(void)
#else
#define VP_STUB(f) vp_stub__##f
#define VP_CONTRACT(f) vp_stub__##f
#define VP_RECURSIVE(f) vp_rec__##f
#define VP_HARNESS(f) void vp_h__##f(void)
#endif

static inline void
vp_lock_set(int* cell, int v)
{
	*cell = v;
	vp_guard_sync();
}
