#pragma once
#include <atomic>
#include <cstdint>
namespace yakushima {
class node_version64_body {
public:
    using vinsert_delete_type = std::uint32_t;
    using vsplit_type = std::uint32_t;
    node_version64_body() = default;
    bool operator==(const node_version64_body& r) const {
        return vinsert_delete_ == r.vinsert_delete_ && vsplit_ == r.vsplit_;
    }
    bool operator!=(const node_version64_body& r) const { return !(*this == r); }
    [[nodiscard]] vinsert_delete_type get_vinsert_delete() const { return vinsert_delete_; }
    [[nodiscard]] vsplit_type get_vsplit() const { return vsplit_; }
    void set_vinsert_delete(vinsert_delete_type v) { vinsert_delete_ = v; }
    void set_vsplit(vsplit_type v) { vsplit_ = v; }
    void inc() { ++vinsert_delete_; }
private:
    vinsert_delete_type vinsert_delete_{};
    vsplit_type vsplit_{};
};
class node_version64 {
public:
    [[nodiscard]] node_version64_body get_stable_version() const { return body_.load(std::memory_order_acquire); }
    [[nodiscard]] node_version64_body get_body() const { return body_.load(std::memory_order_acquire); }
    void set_body(node_version64_body b) { body_.store(b, std::memory_order_release); }
    void bump() { auto b = get_body(); b.inc(); set_body(b); }
private:
    std::atomic<node_version64_body> body_{};
};
} // namespace yakushima
