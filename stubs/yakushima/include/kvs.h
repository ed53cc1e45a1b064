#pragma once
// Functional stand-in: every storage is an ordered map guarded by one mutex and
// has a single index node whose version counts insertions and removals.
#include <atomic>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include "scheme.h"
#include "version.h"
namespace yakushima {

class tree_instance {
public:
    std::map<std::string, void*, std::less<>> map_;
    node_version64 nv_;
    void store_root_ptr(void*) { map_.clear(); }
};

namespace stub {
extern std::recursive_mutex& mtx();
extern std::map<std::string, tree_instance*, std::less<>>& trees();
extern tree_instance* find(std::string_view name);
// test hooks: number of index sessions entered and not left
extern std::atomic<long>& sessions();
} // namespace stub

class storage {
public:
    static storage* get_storages() { static storage s; return &s; }
    void store_root_ptr(void*);
};

struct inserted_node_info {
    node_version64* modified_nvp{};
    node_version64* created_nvp{};
};

class iscan_context {
public:
    std::string storage_;
    std::string l_, r_, cur_;
    scan_endpoint le_{}, re_{};
    bool started_{false};
    bool rtl_{false};
};

extern status init();
extern status fin();
extern status enter(Token& token);
extern status leave(Token token);
extern status create_storage(std::string_view name);
extern status delete_storage(std::string_view name);
extern status find_storage(std::string_view name, tree_instance** found = nullptr);
extern status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out);
extern status remove(Token token, std::string_view storage_name, std::string_view key);
extern status get_raw(std::string_view storage_name, std::string_view key, void*& out,
                      std::pair<node_version64_body, node_version64*>* checked_version);
extern status put_raw(std::string_view storage_name, std::string_view key, void* value,
                      bool unique, inserted_node_info* ii, void*** created);
extern status scan_raw(std::string_view storage_name, std::string_view l_key, scan_endpoint l_end,
                       std::string_view r_key, scan_endpoint r_end,
                       std::vector<std::pair<std::string, void*>>& out,
                       std::vector<std::pair<node_version64_body, node_version64*>>* nvec,
                       std::size_t max_size, bool right_to_left);
extern status iscan_open(std::string_view storage_name, std::string_view l_key, scan_endpoint l_end,
                         std::string_view r_key, scan_endpoint r_end, bool right_to_left,
                         bool early_abort, iscan_context*& context, void*& value,
                         const std::function<bool(node_version64*, node_version64_body)>& cb = nullptr);
extern status iscan_next(iscan_context* context, void*& value,
                         const std::function<bool(node_version64*, node_version64_body)>& cb = nullptr);
extern void iscan_close(iscan_context*& context);

template<class ValueType>
status get(std::string_view storage_name, std::string_view key,
           std::pair<ValueType*, std::size_t>& out,
           std::pair<node_version64_body, node_version64*>* checked_version = nullptr) {
    void* v{};
    auto rc = get_raw(storage_name, key, v, checked_version);
    if (rc == status::OK) {
        out.first = reinterpret_cast<ValueType*>(v);
        out.second = sizeof(ValueType);
    }
    return rc;
}

template<class ValueType>
status put([[maybe_unused]] Token token, std::string_view storage_name, std::string_view key,
           ValueType* value, [[maybe_unused]] std::size_t len = sizeof(ValueType),
           ValueType** created = nullptr,
           [[maybe_unused]] value_align_type align = static_cast<value_align_type>(alignof(ValueType)),
           bool unique_restriction = false, inserted_node_info* ii = nullptr) {
    void* raw{};
    std::memcpy(&raw, value, sizeof(raw));
    (void) created;
    return put_raw(storage_name, key, raw, unique_restriction, ii, nullptr);
}

template<class ValueType>
status scan(std::string_view storage_name, std::string_view l_key, scan_endpoint l_end,
            std::string_view r_key, scan_endpoint r_end,
            std::vector<std::tuple<std::string, ValueType*, std::size_t>>& out,
            std::vector<std::pair<node_version64_body, node_version64*>>* nvec = nullptr,
            std::size_t max_size = 0, bool right_to_left = false) {
    std::vector<std::pair<std::string, void*>> res;
    out.clear();
    if (nvec != nullptr) { nvec->clear(); }
    auto rc = scan_raw(storage_name, l_key, l_end, r_key, r_end, res, nvec, max_size, right_to_left);
    for (auto& e : res) {
        out.emplace_back(e.first, reinterpret_cast<ValueType*>(e.second), sizeof(ValueType));
    }
    return rc;
}

} // namespace yakushima
