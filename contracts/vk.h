// Interface between contract files and the verifier (and the native replay driver).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// A fresh unconstrained value of the given width (returned zero-extended).
uint64_t vk_nondet(const char* name, unsigned bits);
void vk_assume(bool);                        // precondition ("requires")
void vk_assert(bool, const char* label);     // obligation ("ensures")
void vk_rewrite(uint64_t x, uint64_t y, const char* label); // obligation x == y, then used as a rewrite
[[noreturn]] void vk_fail(const char* label);
void vk_cover(const char* label);            // must be reachable (vacuity guard)
[[noreturn]] void vk_end(void);
int vk_symbolic(void);
int vk_same(uint64_t, uint64_t);               // ghost: identical terms (natively: equal values)
uint64_t vk_concretize(uint64_t);            // case split over all feasible values
void vk_bytes(void* p, size_t n, const char* name);
void* vk_array(const char* name, uint64_t count, unsigned elem_bytes); // unbounded symbolic array
bool vk_and(bool, bool);                     // non-forking connectives
bool vk_or(bool, bool);
uint64_t vk_ite64(bool, uint64_t, uint64_t);
void vk_print(const char*, uint64_t);
uint64_t vk_native_range(const char* n, unsigned bits, uint64_t lo, uint64_t hi);
}
static inline uint64_t vk_u64(const char* n) { return vk_nondet(n, 64); }
static inline int64_t vk_i64(const char* n) { return (int64_t) vk_nondet(n, 64); }
static inline uint32_t vk_u32(const char* n) { return (uint32_t) vk_nondet(n, 32); }
static inline uint16_t vk_u16(const char* n) { return (uint16_t) vk_nondet(n, 16); }
static inline uint8_t vk_u8(const char* n) { return (uint8_t) vk_nondet(n, 8); }
static inline bool vk_bool(const char* n) { return vk_nondet(n, 1) != 0; }
static inline double vk_f64(const char* n) { uint64_t b = vk_nondet(n, 64); double d; __builtin_memcpy(&d, &b, 8); return d; }
// value in [lo, hi]
#ifdef VK_NATIVE
static inline uint64_t vk_range(const char* n, uint64_t lo, uint64_t hi) { return vk_native_range(n, 64, lo, hi); }
static inline uint32_t vk_range32(const char* n, uint32_t lo, uint32_t hi) { return (uint32_t) vk_native_range(n, 32, lo, hi); }
#else
static inline uint64_t vk_range(const char* n, uint64_t lo, uint64_t hi) { uint64_t v = vk_nondet(n, 64); vk_assume(v - lo <= hi - lo); return v; }
static inline uint32_t vk_range32(const char* n, uint32_t lo, uint32_t hi) { uint32_t v = (uint32_t) vk_nondet(n, 32); vk_assume(v - lo <= hi - lo); return v; }
#endif
// case split over a small range
static inline uint64_t vk_choice(const char* n, uint64_t lo, uint64_t hi) { return vk_concretize(vk_range(n, lo, hi)); }

struct vk_replacement { const char* name; void* fn; };
// Declares a contract. kind is "proof" or "bounded: <bound>"; target lists the functions under contract.
#define VK_CONTRACT(id, property, kind, target, text)                                         \
    extern "C" const char vk_meta_##id[] = property "\x1f" kind "\x1f" target "\x1f" text;    \
    extern "C" void vk_contract_##id()
