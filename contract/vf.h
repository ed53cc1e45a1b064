#pragma once
// The contract language.  A contract of a /repo function is a C++ function that
// builds an arbitrary state satisfying the precondition, calls the real function
// and asserts the postcondition.  The same text has two readings:
//  * verifier (default): inputs are symbolic, sequences are unbounded, every
//    vf_assert becomes a proof obligation for all inputs;
//  * VF_NATIVE: inputs come from a counterexample file or a random source and the
//    contract is executed against the real code with the real standard library.
#include <cstdint>
typedef unsigned long vf_u64;

#ifndef VF_NATIVE
extern "C" {
vf_u64 vf_in(const char* name);
vf_u64 vf_size(const char* name);
vf_u64 vf_in_at(const char* name, vf_u64 i);
vf_u64 vf_in_at2(const char* name, vf_u64 i, vf_u64 j);
void vf_assume(bool c);
void vf_assert_(bool c, const char* name);
void vf_reach(const char* name);
void vf_expose(vf_u64 k);
void vf_candidate(bool (*p)(void*), void* ctx);
void vf_array_gen(void* arr, vf_u64 n, vf_u64 size, void (*gen)(void*, vf_u64, void*), void* ctx);
vf_u64 vf_region_gen_n(vf_u64 size, void (*gen)(void*, vf_u64, void*), void* ctx, vf_u64 n);
vf_u64 vf_region_gen(vf_u64 size, void (*gen)(void*, vf_u64, void*), void* ctx);
void vf_shared(void* p, vf_u64 size, bool (*rely)(const void*, const void*), bool (*guar)(const void*, const void*));
void vf_shared_part(void* p, vf_u64 size);
void vf_unshare();
void vf_on_lock(void* m, void (*fn)());
vf_u64 vf_held(const void* m);
vf_u64 vf_callback_count(vf_u64 id);
void* vf_elt_(vf_u64 region, vf_u64 idx, vf_u64 size);
void* vf_sibling(vf_u64 idx); // in a generator: the object with another number
}
#define VF_HARNESS(name) extern "C" void vf_harness_##name()

// arbitrary sequence: size and element i given by gen(i)
template<class T, class G> void vf_gen_elem(void* e, vf_u64 i, void* c) { new (e) T((*static_cast<G*>(c))(i)); }
template<class C, class G> void vf_fill(C& v, const char* size, G gen) {
    using T = std::remove_const_t<typename C::value_type>;
    v.n_ = vf_size(size);
    v.r_ = vf_region_gen_n(sizeof(T), &vf_gen_elem<T, G>, vf_freeze(&gen, sizeof(G)), v.n_);
}
template<class C, class G> void vf_fill_n(C& v, vf_u64 n, G gen) {
    using T = std::remove_const_t<typename C::value_type>;
    v.n_ = n;
    v.r_ = vf_region_gen_n(sizeof(T), &vf_gen_elem<T, G>, vf_freeze(&gen, sizeof(G)), v.n_);
}
// family of objects: object i is built in place by gen(p, i)
template<class G> void vf_gen_obj(void* e, vf_u64 i, void* c) { (*static_cast<G*>(c))(e, i); }
template<class T> class vf_objs {
public:
    vf_u64 r_{};
    template<class G> explicit vf_objs(const char*, G gen) : r_(vf_region_gen(sizeof(T), &vf_gen_obj<G>, vf_freeze(&gen, sizeof(G)))) {}
    T* at(vf_u64 i) const { return static_cast<T*>(vf_elt_(r_, i, sizeof(T))); }
};
// arbitrary fixed array: element i given by gen(i)
template<class T, class G> void vf_array(T* a, vf_u64 n, G gen) { vf_array_gen(a, n, sizeof(T), &vf_gen_elem<T, G>, vf_freeze(&gen, sizeof(G))); }
inline vf_u64 vf_within(vf_u64 v, vf_u64 lo, vf_u64 hi) { vf_assume(lo <= v && v <= hi); return v; }
inline std::string vf_string_of(vf_u64 t) { std::string s; s.tok_ = t; return s; }
inline std::string_view vf_view_of(vf_u64 t) { std::string_view s; s.tok_ = t; return s; }
inline vf_u64 vf_pick(vf_u64 v, vf_u64) { return v; }
#else
#include "vf_native.h"
#endif

inline bool vf_flag(const char* n) { return (vf_in(n) & 1) != 0; }
inline bool vf_flag_at(const char* n, vf_u64 i) { return (vf_in_at(n, i) & 1) != 0; }
inline std::string vf_str(const char* n) { return vf_string_of(vf_in(n)); }
inline std::string vf_str_at(const char* n, vf_u64 i) { return vf_string_of(vf_in_at(n, i)); }
#define VF_ASSERT(c, name) vf_assert_((c), name)
#define VF_DONE() vf_reach("end")
