// Verification intrinsics: bodies are supplied by the engine (engine/natives.py).
#pragma once
#include <cstddef>
#include <cstdint>
typedef uint64_t u64;
typedef uint32_t u32;
extern "C" {
u64 vp_u64(const char*);
u32 vp_u32(const char*);
uint8_t vp_u8(const char*);
bool vp_bool(const char*);
void vp_assume(bool);
void vp_assert(bool, const char*);
unsigned vp_case(unsigned n, const char*);
u64 vp_conc(u64);
unsigned vp_known(bool);
bool vp_and(bool, bool);
bool vp_or(bool, bool);
bool vp_not(bool);
bool vp_implies(bool, bool);
bool vp_iff(bool, bool);
u64 vp_ite(bool, u64, u64);
bool vp_eq(u64, u64);
u64 vp_uf1(const char*, u64);
u64 vp_uf2(const char*, u64, u64);
bool vp_ufb(const char*, u64, u64);
void* vp_alloc(size_t, const char*);
void* vp_raw(size_t, const char*);
void vp_free(void*, size_t);
void vp_free_any(void*);
void vp_kill(void*);
u64 vp_live();
bool vp_is_alive(const void*);
bool vp_same_object(const void*, const void*);
u64 vp_object_size(const void*);
void* vp_base(const void*);
void vp_opaque(const void*, size_t);
void vp_guard(const void*, size_t, const char*);
void vp_transparent(const void*);
bool vp_is_opaque(const void*);
void vp_freeze(const void*, size_t, const char*);
void vp_unfreeze(const void*);
void vp_gset(const void*, unsigned, u64);
void vp_gsetb(const void*, unsigned, bool);
void vp_gsetp(const void*, unsigned, const void*);
u64 vp_gget(const void*, unsigned);
bool vp_ggetb(const void*, unsigned);
void* vp_ggetp(const void*, unsigned);
bool vp_ghas(const void*, unsigned);
void vp_note(const char*, u64);
void vp_enable(const char*, unsigned mode);
void vp_disable(const char*);
void vp_env(void (*before)(int, void*, int), void (*after)(int, void*, int, u64, u64));
void vp_malloc_fails(bool);
void vp_symbolic_sizes(bool);
void vp_limit(const char*);
void vp_end();
void vp_decline(); // in a contract: this call is not one of those it is about, the body runs
void vp_cover(const char*);
void vp_ghost_begin();
void vp_ghost_end();
}
struct vp_contract_t
{
    const char* rx;
    void* fn;
};
// mode given to vp_enable: 1 = recursive calls only, 2 = every call
// VP_PFX: a prefix for the keys of contracts taken over from another file
#define VP_PFX
#define VP_KEY2(P, K) vp_contract_##P##K
#define VP_KEY(P, K) VP_KEY2(P, K)
#define VP_CONTRACT(KEY, RX, FN)                                               \
    extern "C" __attribute__((used)) const vp_contract_t VP_KEY(VP_PFX, KEY) = { \
        RX, (void*) &FN};
#define VP_HARNESS(NAME) extern "C" __attribute__((used)) void vp_h_##NAME()
