#include "yakushima/include/kvs.h"
namespace yakushima {
namespace stub {
std::recursive_mutex& mtx() { static std::recursive_mutex m; return m; }
std::map<std::string, tree_instance*, std::less<>>& trees() {
    static std::map<std::string, tree_instance*, std::less<>> t; return t;
}
tree_instance* find(std::string_view name) {
    auto it = trees().find(name);
    return it == trees().end() ? nullptr : it->second;
}
std::atomic<long>& sessions() { static std::atomic<long> n{0}; return n; }
} // namespace stub
using lock = std::lock_guard<std::recursive_mutex>;
// removed trees are kept: node pointers may live on in node sets
static std::vector<tree_instance*>& graveyard() { static std::vector<tree_instance*> g; return g; }
static void bury(tree_instance* t) { t->map_.clear(); t->nv_.bump(); graveyard().push_back(t); }

status init() { return status::OK; }
status fin() {
    lock lk{stub::mtx()};
    for (auto& t : stub::trees()) { delete t.second; }
    stub::trees().clear();
    for (auto* t : graveyard()) { delete t; }
    graveyard().clear();
    return status::OK;
}
void storage::store_root_ptr(void*) {
    lock lk{stub::mtx()};
    for (auto& t : stub::trees()) { bury(t.second); }
    stub::trees().clear();
}
status enter(Token& token) {
    static char c;
    token = &c; ++stub::sessions(); return status::OK;
}
status leave(Token) { --stub::sessions(); return status::OK; }
status create_storage(std::string_view name) {
    lock lk{stub::mtx()};
    if (stub::find(name) != nullptr) { return status::WARN_UNIQUE_RESTRICTION; }
    stub::trees().emplace(std::string(name), new tree_instance());
    return status::OK;
}
status delete_storage(std::string_view name) {
    lock lk{stub::mtx()};
    auto it = stub::trees().find(name);
    if (it == stub::trees().end()) { return status::WARN_NOT_EXIST; }
    bury(it->second);
    stub::trees().erase(it);
    return status::OK;
}
status find_storage(std::string_view name, tree_instance** found) {
    lock lk{stub::mtx()};
    auto* t = stub::find(name);
    if (t == nullptr) { return status::WARN_NOT_EXIST; }
    if (found != nullptr) { *found = t; }
    return status::OK;
}
status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out) {
    lock lk{stub::mtx()};
    out.clear();
    for (auto& t : stub::trees()) { out.emplace_back(t.first, t.second); }
    return out.empty() ? status::WARN_NOT_EXIST : status::OK;
}
status remove(Token, std::string_view st, std::string_view key) {
    lock lk{stub::mtx()};
    auto* t = stub::find(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    auto it = t->map_.find(key);
    if (it == t->map_.end()) { return status::WARN_NOT_EXIST; }
    t->map_.erase(it);
    t->nv_.bump();
    return status::OK;
}
status get_raw(std::string_view st, std::string_view key, void*& out,
               std::pair<node_version64_body, node_version64*>* cv) {
    lock lk{stub::mtx()};
    auto* t = stub::find(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    auto it = t->map_.find(key);
    if (it == t->map_.end()) {
        if (cv != nullptr) { *cv = {t->nv_.get_stable_version(), &t->nv_}; }
        return status::WARN_NOT_EXIST;
    }
    out = it->second;
    return status::OK;
}
status put_raw(std::string_view st, std::string_view key, void* value, bool unique,
               inserted_node_info* ii, void***) {
    lock lk{stub::mtx()};
    auto* t = stub::find(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    auto it = t->map_.find(key);
    if (it != t->map_.end()) {
        if (unique) { return status::WARN_UNIQUE_RESTRICTION; }
        it->second = value;
        return status::OK;
    }
    t->map_.emplace(std::string(key), value);
    t->nv_.bump();
    if (ii != nullptr) { ii->modified_nvp = &t->nv_; ii->created_nvp = nullptr; }
    return status::OK;
}
static bool after_left(std::string_view k, std::string_view l, scan_endpoint le) {
    if (le == scan_endpoint::INF) { return true; }
    return le == scan_endpoint::INCLUSIVE ? k >= l : k > l;
}
static bool before_right(std::string_view k, std::string_view r, scan_endpoint re) {
    if (re == scan_endpoint::INF) { return true; }
    return re == scan_endpoint::INCLUSIVE ? k <= r : k < r;
}
status scan_raw(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
                scan_endpoint re, std::vector<std::pair<std::string, void*>>& out,
                std::vector<std::pair<node_version64_body, node_version64*>>* nvec,
                std::size_t max_size, bool rtl) {
    if (rtl && (max_size != 1 || re != scan_endpoint::INF)) { return status::ERR_BAD_USAGE; }
    lock lk{stub::mtx()};
    auto* t = stub::find(st);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    auto add = [&](const std::string& k, void* v) {
        out.emplace_back(k, v);
        if (nvec != nullptr) { nvec->emplace_back(t->nv_.get_stable_version(), &t->nv_); }
        return max_size == 0 || out.size() < max_size;
    };
    if (!rtl) {
        for (auto& e : t->map_) {
            if (!after_left(e.first, l, le) || !before_right(e.first, r, re)) { continue; }
            if (!add(e.first, e.second)) { break; }
        }
    } else {
        for (auto it = t->map_.rbegin(); it != t->map_.rend(); ++it) {
            if (!after_left(it->first, l, le) || !before_right(it->first, r, re)) { continue; }
            if (!add(it->first, it->second)) { break; }
        }
    }
    if (out.empty() && nvec != nullptr) { nvec->emplace_back(t->nv_.get_stable_version(), &t->nv_); }
    return status::OK;
}
static status step(iscan_context* c, void*& value,
                   const std::function<bool(node_version64*, node_version64_body)>& cb) {
    lock lk{stub::mtx()};
    auto* t = stub::find(c->storage_);
    if (t == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    if (cb && cb(&t->nv_, t->nv_.get_stable_version())) { return status::WARN_ABORTED_BY_USER; }
    if (!c->rtl_) {
        for (auto& e : t->map_) {
            if (c->started_ && e.first <= c->cur_) { continue; }
            if (!after_left(e.first, c->l_, c->le_) || !before_right(e.first, c->r_, c->re_)) { continue; }
            c->cur_ = e.first; c->started_ = true; value = e.second;
            return status::OK;
        }
    } else {
        for (auto it = t->map_.rbegin(); it != t->map_.rend(); ++it) {
            if (c->started_ && it->first >= c->cur_) { continue; }
            if (!after_left(it->first, c->l_, c->le_) || !before_right(it->first, c->r_, c->re_)) { continue; }
            c->cur_ = it->first; c->started_ = true; value = it->second;
            return status::OK;
        }
    }
    return status::OK_SCAN_END;
}
status iscan_open(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
                  scan_endpoint re, bool rtl, bool, iscan_context*& context, void*& value,
                  const std::function<bool(node_version64*, node_version64_body)>& cb) {
    lock lk{stub::mtx()};
    if (stub::find(st) == nullptr) { return status::WARN_STORAGE_NOT_EXIST; }
    context = new iscan_context();
    context->storage_ = st; context->l_ = l; context->le_ = le; context->r_ = r; context->re_ = re;
    context->rtl_ = rtl;
    return step(context, value, cb);
}
status iscan_next(iscan_context* c, void*& value,
                  const std::function<bool(node_version64*, node_version64_body)>& cb) {
    return step(c, value, cb);
}
void iscan_close(iscan_context*& c) { delete c; c = nullptr; }
} // namespace yakushima
