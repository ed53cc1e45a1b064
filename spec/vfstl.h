#pragma once
// Specification library used when extracting /repo functions for verification.
// The standard containers, strings, mutexes and std::function are replaced by
// classes that state the contract of the standard library over abstract
// sequences ("regions") which the verifier understands.  The code of /repo is
// compiled unchanged against these classes.
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <filesystem>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <ostream>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <emmintrin.h>
#include <xmmintrin.h>
#include <pthread.h>
#include <sched.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <cpuid.h>

extern "C" {
typedef unsigned long vf_u64;
// ---- regions: unbounded sequences of elements --------------------------------
vf_u64 vf_region_fresh();
void* vf_elt_(vf_u64 region, vf_u64 idx, vf_u64 size);
// new region holding a copy of the first n elements of r
vf_u64 vf_region_copy(vf_u64 r, vf_u64 n);
// new region = r without the cnt elements from pos on
vf_u64 vf_region_erase(vf_u64 r, vf_u64 pos, vf_u64 cnt);
// new region = r with cnt fresh elements inserted before pos
vf_u64 vf_region_insert(vf_u64 r, vf_u64 pos, vf_u64 cnt);
// new region holding some permutation of the first n elements of r
vf_u64 vf_region_permute(vf_u64 r, vf_u64 n);
// for all j < n: pred(elt(r, j), ctx)
void vf_assume_all(vf_u64 r, vf_u64 n, bool (*pred)(const void*, const void*), const void* ctx);
// for all i < j < n: pred(elt(r, i), elt(r, j))
void vf_assume_pairs(vf_u64 r, vf_u64 n, bool (*pred)(const void*, const void*));
vf_u64 vf_fresh_u64();
vf_u64 vf_small(unsigned long n);
bool vf_fresh_bool();
void vf_assume(bool c);
[[noreturn]] void vf_stop();
// the value of *p at this point, kept for later universal facts
void* vf_freeze(const void* p, vf_u64 size);
// ---- strings -----------------------------------------------------------------
vf_u64 vf_str_bytes(const void* p, vf_u64 n);     // contents of n bytes at p
vf_u64 vf_str_cstr(const char* p);
vf_u64 vf_str_len(vf_u64 tok);
const char* vf_str_data(vf_u64 tok);
vf_u64 vf_str_concat(vf_u64 a, vf_u64 b);
vf_u64 vf_str_substr(vf_u64 a, vf_u64 pos, vf_u64 n);
bool vf_str_less(vf_u64 a, vf_u64 b);
vf_u64 vf_str_of_u64(vf_u64 v, vf_u64 kind);
// ---- concurrency -------------------------------------------------------------
void vf_mutex_lock(const void* m, int shared);
void vf_mutex_unlock(const void* m, int shared);
bool vf_mutex_try_lock(const void* m, int shared);
// ---- opaque callables ----------------------------------------------------------
void vf_callback(vf_u64 id, const void* fn);
}

namespace vfd {
struct mem_tag {};
// token of a constant text (0 for the empty text); the verifier uses the same function
constexpr vf_u64 hash(const char* p, vf_u64 n) {
    if (n == 0) { return 0; }
    vf_u64 h = 0xcbf29ce484222325UL;
    for (vf_u64 i = 0; i < n; ++i) { h = (h ^ static_cast<unsigned char>(p[i])) * 0x100000001b3UL; }
    return h;
}
} // namespace vfd

namespace std {

class vf_string;
class vf_string_view {
public:
    using value_type = char;
    static constexpr size_t npos = static_cast<size_t>(-1);
    vf_u64 tok_{0};
    constexpr vf_string_view() noexcept = default;
    constexpr vf_string_view(const vf_string_view&) noexcept = default;
    constexpr vf_string_view(const char* p) : tok_(__builtin_is_constant_evaluated() ? vfd::hash(p, __builtin_strlen(p)) : vf_str_cstr(p)) {}
    constexpr vf_string_view(const char* p, size_t n) : tok_(__builtin_is_constant_evaluated() ? vfd::hash(p, n) : vf_str_bytes(p, n)) {}
    inline vf_string_view(const vf_string& s);
    constexpr vf_string_view& operator=(const vf_string_view&) noexcept = default;
    size_t size() const { return vf_str_len(tok_); }
    size_t length() const { return vf_str_len(tok_); }
    bool empty() const { return tok_ == 0; }
    const char* data() const { return vf_str_data(tok_); }
    const char* begin() const { return vf_str_data(tok_); }
    const char* end() const { return vf_str_data(tok_) + vf_str_len(tok_); }
    char operator[](size_t i) const { return vf_str_data(tok_)[i]; }
    vf_string_view substr(size_t p = 0, size_t n = npos) const { vf_string_view r; r.tok_ = vf_str_substr(tok_, p, n); return r; }
    int compare(vf_string_view o) const { return tok_ == o.tok_ ? 0 : (vf_str_less(tok_, o.tok_) ? -1 : 1); }
    void remove_prefix(size_t n) { tok_ = vf_str_substr(tok_, n, npos); }
};
class vf_string {
public:
    using value_type = char;
    static constexpr size_t npos = static_cast<size_t>(-1);
    vf_u64 tok_{0};
    vf_string() noexcept : tok_(0) {}
    vf_string(const vf_string& o) : tok_(o.tok_) {}
    vf_string(vf_string&& o) noexcept : tok_(o.tok_) {}
    vf_string(const char* p) : tok_(vf_str_cstr(p)) {}
    vf_string(const char* p, size_t n) : tok_(vf_str_bytes(p, n)) {}
    explicit vf_string(vf_string_view v) : tok_(v.tok_) {}
    vf_string(size_t n, char c) : tok_(vf_str_of_u64(n, 100 + c)) {}
    vf_string(const std::basic_string<char>&) : tok_(vf_fresh_u64()) {}
    template<class It, class = std::enable_if_t<!std::is_integral_v<It>>, class = void> vf_string(It, It) : tok_(vf_fresh_u64()) {}
    vf_string& operator=(const vf_string& o) { tok_ = o.tok_; return *this; }
    vf_string& operator=(vf_string&& o) noexcept { tok_ = o.tok_; return *this; }
    vf_string& operator=(vf_string_view v) { tok_ = v.tok_; return *this; }
    vf_string& operator=(const char* p) { tok_ = vf_str_cstr(p); return *this; }
    ~vf_string() {}
    size_t size() const { return vf_str_len(tok_); }
    size_t length() const { return vf_str_len(tok_); }
    bool empty() const { return tok_ == 0; }
    void clear() { tok_ = 0; }
    void reserve(size_t) {}
    void resize(size_t n) { tok_ = vf_str_substr(tok_, 0, n); }
    void shrink_to_fit() {}
    size_t capacity() const { return vf_str_len(tok_); }
    const char* data() const { return vf_str_data(tok_); }
    char* data() { return const_cast<char*>(vf_str_data(tok_)); }
    const char* c_str() const { return vf_str_data(tok_); }
    char operator[](size_t i) const { return vf_str_data(tok_)[i]; }
    char& operator[](size_t i) { return const_cast<char*>(vf_str_data(tok_))[i]; }
    char& at(size_t i) { return const_cast<char*>(vf_str_data(tok_))[i]; }
    const char* begin() const { return vf_str_data(tok_); }
    const char* end() const { return vf_str_data(tok_) + vf_str_len(tok_); }
    vf_string& append(const char* p, size_t n) { tok_ = vf_str_concat(tok_, vf_str_bytes(p, n)); return *this; }
    vf_string& append(vf_string_view v) { tok_ = vf_str_concat(tok_, v.tok_); return *this; }
    vf_string& append(const vf_string& v) { tok_ = vf_str_concat(tok_, v.tok_); return *this; }
    vf_string& append(const char* p) { tok_ = vf_str_concat(tok_, vf_str_cstr(p)); return *this; }
    vf_string& assign(const char* p, size_t n) { tok_ = vf_str_bytes(p, n); return *this; }
    vf_string& assign(vf_string_view v) { tok_ = v.tok_; return *this; }
    vf_string& operator+=(const vf_string& v) { return append(v); }
    vf_string& operator+=(vf_string_view v) { return append(v); }
    vf_string& operator+=(const char* p) { return append(p); }
    vf_string& operator+=(char c) { return append(&c, 1); }
    void push_back(char c) { append(&c, 1); }
    void pop_back() { tok_ = vf_str_substr(tok_, 0, vf_str_len(tok_) - 1); }
    vf_string substr(size_t p = 0, size_t n = npos) const { vf_string r; r.tok_ = vf_str_substr(tok_, p, n); return r; }
    int compare(const vf_string& o) const { return tok_ == o.tok_ ? 0 : (vf_str_less(tok_, o.tok_) ? -1 : 1); }
    int compare(vf_string_view o) const { return tok_ == o.tok_ ? 0 : (vf_str_less(tok_, o.tok_) ? -1 : 1); }
    void swap(vf_string& o) noexcept { vf_u64 t = tok_; tok_ = o.tok_; o.tok_ = t; }
    size_t find(const char*, size_t = 0) const { return vf_fresh_u64(); }
    size_t find(char, size_t = 0) const { return vf_fresh_u64(); }
};
inline vf_string_view::vf_string_view(const vf_string& s) : tok_(s.tok_) {}
inline void swap(vf_string& a, vf_string& b) noexcept { a.swap(b); }

#define VFD_CMP(A, B)                                                                        \
    inline bool operator==(A a, B b) { return vf_string_view(a).tok_ == vf_string_view(b).tok_; } \
    inline bool operator!=(A a, B b) { return vf_string_view(a).tok_ != vf_string_view(b).tok_; } \
    inline bool operator<(A a, B b) { return vf_str_less(vf_string_view(a).tok_, vf_string_view(b).tok_); } \
    inline bool operator>(A a, B b) { return vf_str_less(vf_string_view(b).tok_, vf_string_view(a).tok_); } \
    inline bool operator<=(A a, B b) { return !vf_str_less(vf_string_view(b).tok_, vf_string_view(a).tok_); } \
    inline bool operator>=(A a, B b) { return !vf_str_less(vf_string_view(a).tok_, vf_string_view(b).tok_); }
VFD_CMP(const vf_string&, const vf_string&)
VFD_CMP(const vf_string&, vf_string_view)
VFD_CMP(vf_string_view, const vf_string&)
VFD_CMP(vf_string_view, vf_string_view)
VFD_CMP(const vf_string&, const char*)
VFD_CMP(const char*, const vf_string&)
VFD_CMP(vf_string_view, const char*)
VFD_CMP(const char*, vf_string_view)
#undef VFD_CMP
inline vf_string operator+(const vf_string& a, const vf_string& b) { vf_string r(a); r.append(b); return r; }
inline vf_string operator+(const vf_string& a, const char* b) { vf_string r(a); r.append(b); return r; }
inline vf_string operator+(const char* a, const vf_string& b) { vf_string r(a); r.append(b); return r; }
inline vf_string operator+(const vf_string& a, vf_string_view b) { vf_string r(a); r.append(b); return r; }
inline std::ostream& operator<<(std::ostream& o, const vf_string&) { return o; }
inline std::ostream& operator<<(std::ostream& o, vf_string_view) { return o; }
inline vf_string vf_to_string(unsigned long v) { vf_string r; r.tok_ = vf_str_of_u64(v, 1); return r; }
inline vf_string vf_to_string(long v) { vf_string r; r.tok_ = vf_str_of_u64(static_cast<vf_u64>(v), 2); return r; }
inline vf_string vf_to_string(unsigned long long v) { vf_string r; r.tok_ = vf_str_of_u64(v, 1); return r; }
inline vf_string vf_to_string(unsigned v) { vf_string r; r.tok_ = vf_str_of_u64(v, 1); return r; }
inline vf_string vf_to_string(int v) { vf_string r; r.tok_ = vf_str_of_u64(static_cast<vf_u64>(v), 2); return r; }
template<> struct hash<vf_string> { size_t operator()(const vf_string& s) const { return s.tok_; } };
template<> struct hash<vf_string_view> { size_t operator()(const vf_string_view& s) const { return s.tok_; } };

// a string stream accumulates an unspecified but fixed text
class vf_stringstream : public std::ostream {
public:
    vf_stringstream() : std::ostream(nullptr) {}
    vf_string str() const { vf_string r; r.tok_ = vf_fresh_u64(); return r; }
    void str(const vf_string&) {}
};

// ------------------------------------------------------------------ vector --
template<class T, class A = std::allocator<T>>
class vf_vector {
public:
    using value_type = T;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    using reference = T&;
    using const_reference = const T&;
    using iterator = T*;
    using const_iterator = const T*;
    using reverse_iterator = std::reverse_iterator<T*>;
    using const_reverse_iterator = std::reverse_iterator<const T*>;
    vf_u64 r_;
    vf_u64 n_;
    vf_vector() noexcept : r_(vf_region_fresh()), n_(0) {}
    explicit vf_vector(size_t n) : r_(vf_region_fresh()), n_(0) { resize(n); }
    vf_vector(size_t n, const T& v) : r_(vf_region_fresh()), n_(0) { for (size_t i = 0; i < n; ++i) { push_back(v); } }
    vf_vector(std::initializer_list<T> l) : r_(vf_region_fresh()), n_(0) { for (auto& e : l) { push_back(e); } }
    vf_vector(const vf_vector& o) : r_(vf_region_copy(o.r_, o.n_)), n_(o.n_) {}
    vf_vector(vf_vector&& o) noexcept : r_(o.r_), n_(o.n_) { o.r_ = vf_region_fresh(); o.n_ = 0; }
    template<class It, class = std::enable_if_t<!std::is_integral_v<It>>>
    vf_vector(It b, It e) : r_(vf_region_fresh()), n_(0) { for (; b != e; ++b) { push_back(*b); } }
    ~vf_vector() {}
    vf_vector& operator=(const vf_vector& o) { r_ = vf_region_copy(o.r_, o.n_); n_ = o.n_; return *this; }
    vf_vector& operator=(vf_vector&& o) noexcept { r_ = o.r_; n_ = o.n_; o.r_ = vf_region_fresh(); o.n_ = 0; return *this; }
    vf_vector& operator=(std::initializer_list<T> l) { clear(); for (auto& e : l) { push_back(e); } return *this; }
    T* vf_at(size_t i) const { return static_cast<T*>(vf_elt_(r_, i, sizeof(T))); }
    iterator begin() noexcept { return vf_at(0); }
    iterator end() noexcept { return vf_at(n_); }
    const_iterator begin() const noexcept { return vf_at(0); }
    const_iterator end() const noexcept { return vf_at(n_); }
    const_iterator cbegin() const noexcept { return vf_at(0); }
    const_iterator cend() const noexcept { return vf_at(n_); }
    reverse_iterator rbegin() { return reverse_iterator(end()); }
    reverse_iterator rend() { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
    const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    size_t size() const noexcept { return n_; }
    bool empty() const noexcept { return n_ == 0; }
    size_t capacity() const noexcept { return n_; }
    void reserve(size_t) {}
    void shrink_to_fit() {}
    T& operator[](size_t i) { return *vf_at(i); }
    const T& operator[](size_t i) const { return *vf_at(i); }
    T& at(size_t i) { if (i >= n_) { vf_stop(); } return *vf_at(i); }
    const T& at(size_t i) const { if (i >= n_) { vf_stop(); } return *vf_at(i); }
    T& front() { return *vf_at(0); }
    const T& front() const { return *vf_at(0); }
    T& back() { return *vf_at(n_ - 1); }
    const T& back() const { return *vf_at(n_ - 1); }
    T* data() { return vf_at(0); }
    const T* data() const { return vf_at(0); }
    void clear() { n_ = 0; }
    void push_back(const T& v) { new (static_cast<void*>(vf_at(n_))) T(v); n_ = n_ + 1; }
    void push_back(T&& v) { new (static_cast<void*>(vf_at(n_))) T(std::move(v)); n_ = n_ + 1; }
    template<class... Args> T& emplace_back(Args&&... a) {
        T* p = vf_at(n_);
        new (static_cast<void*>(p)) T(std::forward<Args>(a)...);
        n_ = n_ + 1;
        return *p;
    }
    void pop_back() { n_ = n_ - 1; }
    void resize(size_t n) {
        if (n > n_) { r_ = vf_region_copy(r_, n_); zero_from(n_, n); }
        n_ = n;
    }
    void assign(size_t n, const T& v) { clear(); for (size_t i = 0; i < n; ++i) { push_back(v); } }
    template<class It> void assign(It b, It e) { clear(); for (; b != e; ++b) { push_back(*b); } }
    iterator erase(const_iterator p) {
        size_t i = static_cast<size_t>(p - begin());
        r_ = vf_region_erase(r_, i, 1);
        n_ = n_ - 1;
        return vf_at(i);
    }
    iterator erase(const_iterator b, const_iterator e) {
        size_t i = static_cast<size_t>(b - begin());
        size_t c = static_cast<size_t>(e - b);
        r_ = vf_region_erase(r_, i, c);
        n_ = n_ - c;
        return vf_at(i);
    }
    iterator insert(const_iterator p, const T& v) {
        size_t i = static_cast<size_t>(p - begin());
        r_ = vf_region_insert(r_, i, 1);
        n_ = n_ + 1;
        new (static_cast<void*>(vf_at(i))) T(v);
        return vf_at(i);
    }
    template<class It> iterator insert(const_iterator p, It b, It e) {
        size_t i = static_cast<size_t>(p - begin());
        size_t c = static_cast<size_t>(e - b);
        r_ = vf_region_insert(r_, i, c);
        n_ = n_ + c;
        for (size_t j = 0; j < c; ++j) { new (static_cast<void*>(vf_at(i + j))) T(*(b + j)); }
        return vf_at(i);
    }
    template<class... Args> iterator emplace(const_iterator p, Args&&... a) {
        size_t i = static_cast<size_t>(p - begin());
        r_ = vf_region_insert(r_, i, 1);
        n_ = n_ + 1;
        new (static_cast<void*>(vf_at(i))) T(std::forward<Args>(a)...);
        return vf_at(i);
    }
    void swap(vf_vector& o) noexcept { std::swap(r_, o.r_); std::swap(n_, o.n_); }
private:
    void zero_from(size_t a, size_t b) { for (size_t i = a; i < b; ++i) { new (static_cast<void*>(vf_at(i))) T(); } }
};
template<class T, class A> bool operator==(const vf_vector<T, A>& a, const vf_vector<T, A>& b) {
    if (a.n_ != b.n_) { return false; }
    for (size_t i = 0; i < a.n_; ++i) { if (!(a[i] == b[i])) { return false; } }
    return true;
}
template<class T, class A> bool operator!=(const vf_vector<T, A>& a, const vf_vector<T, A>& b) { return !(a == b); }
template<class T, class A> void swap(vf_vector<T, A>& a, vf_vector<T, A>& b) noexcept { a.swap(b); }

// ------------------------------------------------- associative containers ---
template<class V> class vf_iter {
public:
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = V;
    using difference_type = ptrdiff_t;
    using pointer = V*;
    using reference = V&;
    V* p_{nullptr};
    vf_iter() = default;
    explicit vf_iter(V* p) : p_(p) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, V*>>> vf_iter(const vf_iter<U>& o) : p_(o.p_) {}
    V& operator*() const { return *p_; }
    V* operator->() const { return p_; }
    vf_iter& operator++() { ++p_; return *this; }
    vf_iter operator++(int) { vf_iter t(*this); ++p_; return t; }
    vf_iter& operator--() { --p_; return *this; }
    vf_iter operator--(int) { vf_iter t(*this); --p_; return t; }
    template<class U> bool operator==(const vf_iter<U>& o) const { return p_ == o.p_; }
    template<class U> bool operator!=(const vf_iter<U>& o) const { return p_ != o.p_; }
};

template<class V, class D> void advance(vf_iter<V>& it, D n) { it.p_ += n; }
template<class V> vf_iter<V> next(vf_iter<V> it, ptrdiff_t n = 1) { it.p_ += n; return it; }
template<class V> vf_iter<V> prev(vf_iter<V> it, ptrdiff_t n = 1) { it.p_ -= n; return it; }

template<class K, class V, class KeyOf, class Less, bool Ordered>
class vf_assoc {
public:
    using key_type = K;
    using value_type = V;
    using size_type = size_t;
    using iterator = vf_iter<V>;
    using const_iterator = vf_iter<const V>;
    using reverse_iterator = std::reverse_iterator<iterator>;
    vf_u64 r_;
    vf_u64 n_;
    vf_assoc() : r_(vf_region_fresh()), n_(0) {}
    vf_assoc(const vf_assoc& o) : r_(vf_region_copy(o.r_, o.n_)), n_(o.n_) {}
    vf_assoc(vf_assoc&& o) noexcept : r_(o.r_), n_(o.n_) { o.r_ = vf_region_fresh(); o.n_ = 0; }
    vf_assoc(std::initializer_list<V> l) : r_(vf_region_fresh()), n_(0) { for (auto& e : l) { insert(e); } }
    ~vf_assoc() {}
    vf_assoc& operator=(const vf_assoc& o) { r_ = vf_region_copy(o.r_, o.n_); n_ = o.n_; return *this; }
    vf_assoc& operator=(vf_assoc&& o) noexcept { r_ = o.r_; n_ = o.n_; o.r_ = vf_region_fresh(); o.n_ = 0; return *this; }

    V* vf_at(size_t i) const { return static_cast<V*>(const_cast<void*>(static_cast<const void*>(vf_elt_(r_, i, sizeof(V))))); }
    static bool vf_lt(const void* a, const void* b) {
        Less ls{};
        return ls(KeyOf::get(*static_cast<const V*>(a)), KeyOf::get(*static_cast<const V*>(b)));
    }
    static bool vf_neq(const void* a, const void* b) { Less ls{}; 
        return ls(KeyOf::get(*static_cast<const V*>(a)), KeyOf::get(*static_cast<const V*>(b))) ||
               ls(KeyOf::get(*static_cast<const V*>(b)), KeyOf::get(*static_cast<const V*>(a))); }
    void vf_order() const { vf_assume_pairs(r_, n_, Ordered ? &vf_lt : &vf_neq); }
    iterator begin() { vf_order(); return iterator(vf_at(0)); }
    iterator end() { return iterator(vf_at(n_)); }
    const_iterator begin() const { vf_order(); return const_iterator(vf_at(0)); }
    const_iterator end() const { return const_iterator(vf_at(n_)); }
    const_iterator cbegin() const { vf_order(); return const_iterator(vf_at(0)); }
    const_iterator cend() const { return const_iterator(vf_at(n_)); }
    auto rbegin() const { vf_order(); return std::reverse_iterator<const_iterator>(end()); }
    auto rend() const { return std::reverse_iterator<const_iterator>(const_iterator(vf_at(0))); }
    reverse_iterator rbegin() { vf_order(); return reverse_iterator(end()); }
    reverse_iterator rend() { return reverse_iterator(iterator(vf_at(0))); }
    size_t size() const { return n_; }
    bool empty() const { return n_ == 0; }
    void clear() { n_ = 0; }
    void reserve(size_t) {}

    template<class Q> static bool vf_differs(const void* e, const void* c) {
        Less ls{};
        const K& k = KeyOf::get(*static_cast<const V*>(e));
        const Q& q = *static_cast<const Q*>(c);
        return ls(k, q) || ls(q, k);
    }
    template<class Q> static bool vf_is_less(const void* e, const void* c) {
        Less ls{}; return ls(KeyOf::get(*static_cast<const V*>(e)), *static_cast<const Q*>(c));
    }
    // index of the element with key k, or n_
    template<class Q> size_t vf_index(const Q& k) const {
        vf_order();
        Less ls{};
        if (vf_small(n_)) {
            for (size_t j = 0; j < n_; ++j) {
                const K& e = KeyOf::get(*vf_at(j));
                if (!ls(e, k) && !ls(k, e)) { return j; }
            }
            return n_;
        }
        size_t i = vf_fresh_u64();
        if (i < n_) {
            const K& e = KeyOf::get(*vf_at(i));
            vf_assume(!ls(e, k) && !ls(k, e));
            return i;
        }
        vf_assume(i == n_);
        vf_assume_all(r_, n_, &vf_differs<Q>, vf_freeze(&k, sizeof(Q)));
        return n_;
    }
    // number of elements with key less than k
    template<class Q> size_t vf_rank(const Q& k) const {
        vf_order();
        Less ls{};
        if (vf_small(n_)) {
            for (size_t j = 0; j < n_; ++j) {
                if (!ls(KeyOf::get(*vf_at(j)), k)) { return j; }
            }
            return n_;
        }
        size_t i = vf_fresh_u64();
        vf_assume(i <= n_);
        if (i > 0) { vf_assume(ls(KeyOf::get(*vf_at(i - 1)), k)); }
        if (i < n_) { vf_assume(!ls(KeyOf::get(*vf_at(i)), k)); }
        return i;
    }
    template<class Q> iterator find(const Q& k) { return iterator(vf_at(vf_index(k))); }
    template<class Q> const_iterator find(const Q& k) const { return const_iterator(vf_at(vf_index(k))); }
    iterator find(const K& k) { return iterator(vf_at(vf_index(k))); }
    const_iterator find(const K& k) const { return const_iterator(vf_at(vf_index(k))); }
    template<class Q> size_t count(const Q& k) const { return vf_index(k) == n_ ? 0 : 1; }
    template<class Q> bool contains(const Q& k) const { return vf_index(k) != n_; }
    iterator lower_bound(const K& k) { return iterator(vf_at(vf_rank(k))); }
    const_iterator lower_bound(const K& k) const { return const_iterator(vf_at(vf_rank(k))); }
    iterator upper_bound(const K& k) {
        size_t i = vf_rank(k);
        Less ls{};
        if (i < n_ && !ls(k, KeyOf::get(*vf_at(i)))) { ++i; }
        return iterator(vf_at(i));
    }
    const_iterator upper_bound(const K& k) const { return const_cast<vf_assoc*>(this)->upper_bound(k); }
    iterator erase(const_iterator it) {
        size_t i = static_cast<size_t>(it.p_ - vf_at(0));
        r_ = vf_region_erase(r_, i, 1);
        n_ = n_ - 1;
        return iterator(vf_at(i));
    }
    template<class I, class = std::enable_if_t<std::is_same_v<I, iterator> && !std::is_same_v<iterator, const_iterator>>> iterator erase(I it) { return erase(const_iterator(it)); }
    iterator erase(const_iterator b, const_iterator e) {
        size_t i = static_cast<size_t>(b.p_ - vf_at(0));
        size_t c = static_cast<size_t>(e.p_ - b.p_);
        r_ = vf_region_erase(r_, i, c);
        n_ = n_ - c;
        return iterator(vf_at(i));
    }
    size_t erase(const K& k) {
        size_t i = vf_index(k);
        if (i == n_) { return 0; }
        r_ = vf_region_erase(r_, i, 1);
        n_ = n_ - 1;
        return 1;
    }
    // place for a new element with key k which is known to be absent
    size_t vf_hole(const K& k) {
        size_t p = n_;
        if constexpr (Ordered) {
            p = vf_rank(k);
            r_ = vf_region_insert(r_, p, 1);
        }
        n_ = n_ + 1;
        return p;
    }
    std::pair<iterator, bool> insert(const V& v) {
        size_t i = vf_index(KeyOf::get(v));
        if (i != n_) { return {iterator(vf_at(i)), false}; }
        size_t p = vf_hole(KeyOf::get(v));
        new (const_cast<void*>(static_cast<const void*>(vf_at(p)))) V(v);
        return {iterator(vf_at(p)), true};
    }
    std::pair<iterator, bool> insert(V&& v) {
        size_t i = vf_index(KeyOf::get(v));
        if (i != n_) { return {iterator(vf_at(i)), false}; }
        size_t p = vf_hole(KeyOf::get(v));
        new (const_cast<void*>(static_cast<const void*>(vf_at(p)))) V(std::move(v));
        return {iterator(vf_at(p)), true};
    }
    iterator insert(const_iterator, const V& v) { return insert(v).first; }
    template<class It, class = std::enable_if_t<!std::is_convertible_v<It, const_iterator>>> void insert(It b, It e) { for (; b != e; ++b) { insert(*b); } }
    void insert(const_iterator b, const_iterator e) { for (; b != e; ++b) { insert(*b); } }
    template<class... Args> std::pair<iterator, bool> emplace(Args&&... a) { return insert(V(std::forward<Args>(a)...)); }
    template<class... Args> iterator emplace_hint(const_iterator, Args&&... a) { return insert(V(std::forward<Args>(a)...)).first; }
    void swap(vf_assoc& o) noexcept { std::swap(r_, o.r_); std::swap(n_, o.n_); }
};
template<class V> struct vf_key_self { static const V& get(const V& v) { return v; } };
template<class V> struct vf_key_first { static const auto& get(const V& v) { return v.first; } };

template<class K, class L = std::less<K>, class A = void>
class vf_set : public vf_assoc<K, const K, vf_key_self<K>, L, true> {
    using B = vf_assoc<K, const K, vf_key_self<K>, L, true>;
public:
    using B::B;
    using B::insert;
    vf_set() = default;
    vf_set(const vf_set&) = default;
    vf_set(vf_set&&) noexcept = default;
    vf_set(std::initializer_list<K> l) { for (auto& e : l) { this->insert(e); } }
    template<class It> vf_set(It b, It e) { for (; b != e; ++b) { this->insert(*b); } }
    vf_set& operator=(const vf_set&) = default;
    vf_set& operator=(vf_set&&) noexcept = default;
    vf_set& operator=(std::initializer_list<K> l) { this->clear(); for (auto& e : l) { this->insert(e); } return *this; }
    std::pair<typename B::iterator, bool> insert(K&& v) {
        size_t i = this->vf_index(v);
        if (i != this->n_) { return {typename B::iterator(this->vf_at(i)), false}; }
        size_t p = this->vf_hole(v);
        new (const_cast<void*>(static_cast<const void*>(this->vf_at(p)))) K(std::move(v));
        return {typename B::iterator(this->vf_at(p)), true};
    }
    template<class... Args> std::pair<typename B::iterator, bool> emplace(Args&&... a) { return this->insert(K(std::forward<Args>(a)...)); }
};
template<class K, class H = void, class E = void, class A = void>
class vf_unordered_set : public vf_assoc<K, const K, vf_key_self<K>, std::less<K>, false> {
    using B = vf_assoc<K, const K, vf_key_self<K>, std::less<K>, false>;
public:
    using B::B;
    vf_unordered_set() = default;
    vf_unordered_set(std::initializer_list<K> l) { for (auto& e : l) { this->insert(e); } }
};
template<class K, class T, class L, bool O>
class vf_mapbase : public vf_assoc<K, std::pair<const K, T>, vf_key_first<std::pair<const K, T>>, L, O> {
    using B = vf_assoc<K, std::pair<const K, T>, vf_key_first<std::pair<const K, T>>, L, O>;
public:
    using mapped_type = T;
    using B::B;
    using iterator = typename B::iterator;
    vf_mapbase() = default;
    vf_mapbase(std::initializer_list<std::pair<const K, T>> l) { for (auto& e : l) { this->insert(e); } }
    T& operator[](const K& k) {
        size_t i = this->vf_index(k);
        if (i == this->n_) {
            i = this->vf_hole(k);
            new (const_cast<void*>(static_cast<const void*>(this->vf_at(i)))) std::pair<const K, T>(std::piecewise_construct, std::forward_as_tuple(k), std::tuple<>());
        }
        return this->vf_at(i)->second;
    }
    T& at(const K& k) { size_t i = this->vf_index(k); if (i == this->n_) { vf_stop(); } return this->vf_at(i)->second; }
    const T& at(const K& k) const { size_t i = this->vf_index(k); if (i == this->n_) { vf_stop(); } return this->vf_at(i)->second; }
    template<class M> std::pair<iterator, bool> insert_or_assign(const K& k, M&& m) {
        size_t i = this->vf_index(k);
        if (i != this->n_) { this->vf_at(i)->second = std::forward<M>(m); return {iterator(this->vf_at(i)), false}; }
        return this->insert(std::pair<const K, T>(k, std::forward<M>(m)));
    }
    template<class... Args> std::pair<iterator, bool> try_emplace(const K& k, Args&&... a) {
        size_t i = this->vf_index(k);
        if (i != this->n_) { return {iterator(this->vf_at(i)), false}; }
        return this->insert(std::pair<const K, T>(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<Args>(a)...)));
    }
};
template<class K, class T, class L = std::less<K>, class A = void> class vf_map : public vf_mapbase<K, T, L, true> { public: using vf_mapbase<K, T, L, true>::vf_mapbase; };
template<class K, class T, class H = void, class E = void, class A = void> class vf_unordered_map : public vf_mapbase<K, T, std::less<K>, false> { public: using vf_mapbase<K, T, std::less<K>, false>::vf_mapbase; };
template<class K, class V, class Q, class L, bool O> bool operator==(const vf_assoc<K, V, Q, L, O>& a, const vf_assoc<K, V, Q, L, O>& b) {
    if (a.n_ != b.n_) { return false; }
    for (size_t i = 0; i < a.n_; ++i) { if (!(*a.vf_at(i) == *b.vf_at(i))) { return false; } }
    return true;
}

// ------------------------------------------------------------- algorithms ---
template<class T> inline vf_vector<T>* vf_owner_hint(T*) { return nullptr; }
template<class T> void vf_sort(T* b, T* e) {
    // permutes in place: the range afterwards is ordered
    extern void vf_sort_range(void*, void*, bool (*)(const void*, const void*)) asm("vf_sort_range");
    vf_sort_range(b, e, [](const void* x, const void* y) { return !(*static_cast<const T*>(y) < *static_cast<const T*>(x)); });
}
template<class T, class C> void vf_sort(T* b, T* e, C) {
    extern void vf_sort_range(void*, void*, bool (*)(const void*, const void*)) asm("vf_sort_range");
    vf_sort_range(b, e, [](const void* x, const void* y) { return !C{}(*static_cast<const T*>(y), *static_cast<const T*>(x)); });
}
template<class T> T* vf_unique(T* b, T* e) {
    extern void* vf_unique_range(void*, void*, bool (*)(const void*, const void*)) asm("vf_unique_range");
    return static_cast<T*>(vf_unique_range(b, e, [](const void* x, const void* y) { return *static_cast<const T*>(x) == *static_cast<const T*>(y); }));
}

// ------------------------------------------------------------- concurrency --
class vf_mutex {
public:
    vf_u64 w_{0};
    constexpr vf_mutex() noexcept = default;
    vf_mutex(const vf_mutex&) = delete;
    vf_mutex& operator=(const vf_mutex&) = delete;
    void lock() { vf_mutex_lock(this, 0); }
    void unlock() { vf_mutex_unlock(this, 0); }
    bool try_lock() { return vf_mutex_try_lock(this, 0); }
};
class vf_shared_mutex {
public:
    vf_u64 w_{0};
    constexpr vf_shared_mutex() noexcept = default;
    vf_shared_mutex(const vf_shared_mutex&) = delete;
    vf_shared_mutex& operator=(const vf_shared_mutex&) = delete;
    void lock() { vf_mutex_lock(this, 0); }
    void unlock() { vf_mutex_unlock(this, 0); }
    bool try_lock() { return vf_mutex_try_lock(this, 0); }
    void lock_shared() { vf_mutex_lock(this, 1); }
    void unlock_shared() { vf_mutex_unlock(this, 1); }
    bool try_lock_shared() { return vf_mutex_try_lock(this, 1); }
};
class vf_thread {
public:
    vf_u64 id_{0};
    vf_thread() = default;
    vf_thread(vf_thread&&) noexcept = default;
    vf_thread& operator=(vf_thread&&) noexcept = default;
    template<class F, class... A> explicit vf_thread(F&&, A&&...) : id_(vf_fresh_u64()) {}
    void join() {}
    void detach() {}
    bool joinable() const { return id_ != 0; }
    static unsigned hardware_concurrency() { return static_cast<unsigned>(vf_fresh_u64()); }
};
template<class S> class vf_function;
template<class R, class... A> class vf_function<R(A...)> {
public:
    vf_u64 id_{0};
    // a callable the code makes itself is run; one given from outside is any function
    void* made_{nullptr};
    R (*run_)(void*, A...){nullptr};
    vf_function() noexcept : id_(0) {}
    vf_function(std::nullptr_t) noexcept : id_(0) {}
    vf_function(const vf_function& o) : id_(o.id_), made_(o.made_), run_(o.run_) {}
    vf_function(vf_function&& o) noexcept : id_(o.id_), made_(o.made_), run_(o.run_) { o.id_ = 0; }
    template<class F, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, vf_function>>> vf_function(F f) : id_(vf_fresh_u64()) {
        vf_assume(id_ != 0);
        if constexpr (!std::is_void_v<R>) {
            made_ = new F(f);
            run_ = &vf_run<F>;
        }
    }
    vf_function& operator=(const vf_function& o) { id_ = o.id_; made_ = o.made_; run_ = o.run_; return *this; }
    vf_function& operator=(vf_function&& o) noexcept { id_ = o.id_; made_ = o.made_; run_ = o.run_; return *this; }
    vf_function& operator=(std::nullptr_t) { id_ = 0; return *this; }
    explicit operator bool() const { return id_ != 0; }
    R operator()(A... a) const {
        if constexpr (std::is_void_v<R>) {
            vf_callback(id_, this);
            vf_note(a...);
        } else {
            if (run_ != nullptr) { return run_(made_, a...); }
            vf_callback(id_, this);
            vf_note(a...);
            return static_cast<R>(vf_fresh_u64());
        }
    }
    friend bool operator==(const vf_function& f, std::nullptr_t) { return f.id_ == 0; }
    friend bool operator!=(const vf_function& f, std::nullptr_t) { return f.id_ != 0; }
private:
    template<class... B> static void vf_note(B...) {}
    template<class F> static R vf_run(void* f, A... a) { return (*static_cast<F*>(f))(a...); }
};
template<size_t N> class vf_bitset : public std::bitset<N> {
public:
    using std::bitset<N>::bitset;
    vf_bitset() = default;
    vf_bitset(const std::bitset<N>& o) : std::bitset<N>(o) {}
    vf_bitset& vf_set(size_t i, bool v = true) { std::bitset<N>::set(i, v); return *this; }
    vf_bitset& vf_set() { std::bitset<N>::set(); return *this; }
};
} // namespace std

namespace std {
template<class I, class P> bool vf_all_of(I b, I e, P p) { for (; b != e; ++b) { if (!p(*b)) { return false; } } return true; }
template<class I, class P> bool vf_any_of(I b, I e, P p) { for (; b != e; ++b) { if (p(*b)) { return true; } } return false; }
template<class I, class P> bool vf_none_of(I b, I e, P p) { for (; b != e; ++b) { if (p(*b)) { return false; } } return true; }
template<class I, class P> I vf_find_if(I b, I e, P p) { for (; b != e; ++b) { if (p(*b)) { return b; } } return e; }
template<class I, class P> I vf_find_if_not(I b, I e, P p) { for (; b != e; ++b) { if (!p(*b)) { return b; } } return e; }
template<class I, class P> P vf_for_each(I b, I e, P p) { for (; b != e; ++b) { p(*b); } return p; }
template<class I, class P> vf_u64 vf_count_if(I b, I e, P p) { vf_u64 n = 0; for (; b != e; ++b) { if (p(*b)) { ++n; } } return n; }
template<class I> I vf_min_element(I b, I e) { if (b == e) { return e; } I r = b; for (++b; b != e; ++b) { if (*b < *r) { r = b; } } return r; }
template<class I> I vf_max_element(I b, I e) { if (b == e) { return e; } I r = b; for (++b; b != e; ++b) { if (*r < *b) { r = b; } } return r; }
template<class I, class P> I vf_min_element(I b, I e, P p) { if (b == e) { return e; } I r = b; for (++b; b != e; ++b) { if (p(*b, *r)) { r = b; } } return r; }
template<class I, class P> I vf_max_element(I b, I e, P p) { if (b == e) { return e; } I r = b; for (++b; b != e; ++b) { if (p(*r, *b)) { r = b; } } return r; }
} // namespace std

namespace std::vf_filesystem {
struct vf_path {
    vf_u64 tok_{0};
    vf_path() = default;
    vf_path(const std::vf_string& s) : tok_(s.tok_) {}
    vf_path(std::vf_string_view s) : tok_(s.tok_) {}
    vf_path(const char* s) : tok_(vf_str_cstr(s)) {}
    std::vf_string vf_string() const { std::vf_string r; r.tok_ = tok_; return r; }
    operator std::vf_string() const { std::vf_string r; r.tok_ = tok_; return r; }
    std::vf_string native() const { std::vf_string r; r.tok_ = tok_; return r; }
};
extern bool exists(const vf_path&, std::error_code&);
extern bool exists(const vf_path&);
extern vf_u64 remove_all(const vf_path&);
extern vf_u64 remove_all(const vf_path&, std::error_code&);
extern bool create_directories(const vf_path&);
inline std::ostream& operator<<(std::ostream& o, const vf_path&) { return o; }
using path = vf_path;
using filesystem_error = std::filesystem::filesystem_error;
} // namespace std::vf_filesystem
#define filesystem vf_filesystem
#define vector vf_vector
#define map vf_map
// `set` is also a member name of std::bitset: std::vf_bitset has both
#define set vf_set
#define bitset vf_bitset
#define unordered_map vf_unordered_map
#define unordered_set vf_unordered_set
#define string vf_string
#define string_view vf_string_view
#define stringstream vf_stringstream
#define ostringstream vf_stringstream
namespace std {
template<class T, class P> T* __find_if(T* f, T* l, P p, random_access_iterator_tag) {
    for (; f != l; ++f) {
        if (p(f)) { return f; }
    }
    return l;
}
}
#define mutex vf_mutex
#define shared_mutex vf_shared_mutex
#define thread vf_thread
#define function vf_function
#define to_string vf_to_string
#define sort vf_sort
#define all_of vf_all_of
#define any_of vf_any_of
#define none_of vf_none_of
#define find_if vf_find_if
#define find_if_not vf_find_if_not
#define for_each vf_for_each
#define count_if vf_count_if
#define min_element vf_min_element
#define max_element vf_max_element
#define unique vf_unique
#define string_view_literals vf_string_view_literals
namespace std::string_view_literals {
constexpr std::string_view operator""sv(const char* p, size_t n) { return {p, n}; }
}
