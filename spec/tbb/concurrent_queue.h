#pragma once
extern "C" { void vf_queue_push(void* q, vf_u64 v); bool vf_queue_pop(void* q, vf_u64* v); bool vf_queue_empty(void* q); }
namespace tbb {
// A FIFO queue shared with other threads: push appends atomically, try_pop
// removes the head atomically.
template<class T> class concurrent_queue {
public:
    vf_u64 w_{0};
    void clear() { vf_queue_push(this, 0); }
    bool empty() const { return vf_queue_empty(const_cast<concurrent_queue*>(this)); }
    void push(const T& e) { vf_queue_push(this, (vf_u64) e); }
    bool try_pop(T& e) { vf_u64 v{}; if (vf_queue_pop(this, &v)) { e = (T) v; return true; } return false; }
    std::size_t unsafe_size() const { return vf_fresh_u64(); }
};
} // namespace tbb
