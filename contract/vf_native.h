#pragma once
// Native reading of the contract language: see vf.h.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>

struct vf_discard {};
struct vf_failed { std::string what; };

namespace vfn {
struct run_state {
    std::map<std::string, vf_u64> in;       // given or drawn inputs
    vf_u64 rng{1};
    bool replay{false};
    vf_u64 style{0};
    vf_u64 next() {
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        return rng * 0x2545F4914F6CDD1DUL;
    }
    vf_u64 draw() {
        vf_u64 r = next();
        switch ((r >> 32) % 8) {
            case 0: case 1: case 2: return r % 2;
            case 3: case 4: return r % 4;
            case 5: return r % 8;
            case 6: return r % 40;
            default: return next() >> (r % 64);
        }
    }
};
inline run_state& rs() { static run_state s; return s; }
using harness_fn = void (*)();
inline std::map<std::string, harness_fn>& table() { static std::map<std::string, harness_fn> t; return t; }
struct reg { reg(const char* n, harness_fn f) { table()[n] = f; } };
inline vf_u64 get(const std::string& k) {
    auto& s = rs();
    auto it = s.in.find(k);
    if (it != s.in.end()) { return it->second; }
    vf_u64 v = s.replay ? 0 : s.draw();
    s.in[k] = v;
    return v;
}
inline std::map<vf_u64, vf_u64>& cb() { static std::map<vf_u64, vf_u64> m; return m; }
} // namespace vfn

#define VF_HARNESS(name)                                                   \
    extern "C" void vf_harness_##name();                                   \
    static vfn::reg vf_reg_##name{#name, &vf_harness_##name};              \
    extern "C" void vf_harness_##name()

inline vf_u64 vf_in(const char* n) { return vfn::get(n); }
inline vf_u64 vf_size(const char* n) {
    auto& s = vfn::rs();
    bool known = s.in.count(n) != 0;
    vf_u64 v = vfn::get(n);
    if (!known) { v %= 5; s.in[n] = v; }
    if (v > 64) { throw vf_discard{}; }
    return v;
}
inline vf_u64 vf_in_at(const char* n, vf_u64 i) { return vfn::get(std::string(n) + "[" + std::to_string(i) + "]"); }
inline vf_u64 vf_in_at2(const char* n, vf_u64 i, vf_u64 j) { return vfn::get(std::string(n) + "[" + std::to_string(i) + "," + std::to_string(j) + "]"); }
inline void vf_assume(bool c) { if (!c) { throw vf_discard{}; } }
inline void vf_assert_(bool c, const char* n) { if (!c) { throw vf_failed{n}; } }
inline void vf_reach(const char*) {}
inline void vf_expose(vf_u64) {}
inline void vf_candidate(bool (*)(void*), void*) {}
inline void vf_shared(void*, vf_u64, bool (*)(const void*, const void*), bool (*)(const void*, const void*)) {}
inline void vf_shared_part(void*, vf_u64) {}
inline void vf_unshare() {}
inline vf_u64 vf_fresh_u64() { return vfn::rs().draw(); }

template<class C, class T> auto vf_add(C& c, T&& v, int) -> decltype(c.emplace_back(std::forward<T>(v)), void()) { c.emplace_back(std::forward<T>(v)); }
template<class C, class T> auto vf_add(C& c, T&& v, long) -> decltype(c.insert(std::forward<T>(v)), void()) { c.insert(std::forward<T>(v)); }
template<class C, class G> void vf_fill_n(C& v, vf_u64 n, G gen) { for (vf_u64 i = 0; i < n; ++i) { vf_add(v, gen(i), 0); } }
template<class C, class G> void vf_fill(C& v, const char* size, G gen) { vf_fill_n(v, vf_size(size), gen); }
template<class T, class G> void vf_array(T* a, vf_u64 n, G gen) { for (vf_u64 i = 0; i < n; ++i) { a[i] = gen(i); } }
inline vf_u64 vf_within(vf_u64 v, vf_u64 lo, vf_u64 hi) { return lo <= v && v <= hi ? v : lo + v % (hi - lo + 1); }
inline std::function<void*(vf_u64)>& vf_cur() { static std::function<void*(vf_u64)> f; return f; }
inline void* vf_sibling(vf_u64 i) { return vf_cur()(i); }
template<class T> class vf_objs {
    std::function<void(void*, vf_u64)> g_;
    std::map<vf_u64, T*> m_;
public:
    template<class G> explicit vf_objs(const char*, G gen) : g_(gen) {}
    T* at(vf_u64 i) {
        auto& p = m_[i];
        if (p == nullptr) {
            void* q = std::aligned_alloc(64, (sizeof(T) + 63) / 64 * 64);
            std::memset(q, 0, sizeof(T));
            p = static_cast<T*>(q);
            auto keep = vf_cur();
            vf_cur() = [this](vf_u64 j) { return static_cast<void*>(at(j)); };
            g_(q, i);
            vf_cur() = keep;
        }
        return p;
    }
};
// 8-byte big endian keeps the order of tokens; 0 is the empty string
inline std::string vf_string_of(vf_u64 t) {
    std::string s;
    if (t == 0) { return s; }
    for (int i = 7; i >= 0; --i) { s.push_back(static_cast<char>(t >> (8 * i))); }
    return s;
}
inline std::string_view vf_view_of(vf_u64 t) {
    static std::set<std::string> keep;
    return *keep.insert(vf_string_of(t)).first;
}
inline vf_u64 vf_pick(vf_u64 v, vf_u64 n) { return n == 0 ? v : v % n; }
