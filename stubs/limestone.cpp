#include <chrono>
#include <thread>
#include "limestone/api/datastore.h"
namespace limestone::api {
namespace stub {
std::recursive_mutex& mtx() { static std::recursive_mutex m; return m; }
std::vector<stub_log>& trace() { static std::vector<stub_log> t; return t; }
std::map<std::pair<storage_id_type, std::string>, std::pair<write_version_type, std::string>>& disk() {
    static std::map<std::pair<storage_id_type, std::string>, std::pair<write_version_type, std::string>> d;
    return d;
}
std::map<std::pair<storage_id_type, std::string>, write_version_type>& disk_seen() {
    static std::map<std::pair<storage_id_type, std::string>, write_version_type> d; return d;
}
epoch_t& durable() { static epoch_t e{0}; return e; }
bool& auto_durable() { static bool b{true}; return b; }
std::function<void(const stub_log&)>& hook() { static std::function<void(const stub_log&)> h; return h; }
void reset() {
    std::lock_guard<std::recursive_mutex> lk{mtx()};
    trace().clear(); disk().clear(); disk_seen().clear(); durable() = 0; auto_durable() = true; hook() = nullptr;
}
static void put(stub_log l) {
    std::lock_guard<std::recursive_mutex> lk{mtx()};
    if (hook()) { hook()(l); }
    using K = std::pair<storage_id_type, std::string>;
    if (l.kind == stub_log::ADD || l.kind == stub_log::REMOVE) {
        K k{l.st, l.key};
        auto it = disk_seen().find(k);
        // the newest write version wins, like replaying the log does
        if (it == disk_seen().end() || !(l.wv < it->second)) {
            disk_seen()[k] = l.wv;
            if (l.kind == stub_log::ADD) { disk()[k] = {l.wv, l.val}; } else { disk().erase(k); }
        }
    } else if (l.kind == stub_log::REMOVE_ST) {
        for (auto it = disk().begin(); it != disk().end();) {
            if (it->first.first == l.st && it->second.first < l.wv) { it = disk().erase(it); } else { ++it; }
        }
    }
    trace().push_back(std::move(l));
}
} // namespace stub
void log_channel::begin_session() { stub::put({stub_log::BEGIN, id_}); }
void log_channel::end_session() { stub::put({stub_log::END, id_}); }
void log_channel::add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv) {
    stub::put({stub_log::ADD, id_, st, std::string(key), std::string(val), wv});
}
void log_channel::add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv,
                            const std::vector<blob_id_type>& lobs) {
    stub::put({stub_log::ADD, id_, st, std::string(key), std::string(val), wv, lobs});
}
void log_channel::remove_entry(storage_id_type st, std::string_view key, write_version_type wv) {
    stub::put({stub_log::REMOVE, id_, st, std::string(key), {}, wv});
}
void log_channel::add_storage(storage_id_type st, write_version_type wv) {
    stub::put({stub_log::ADD_ST, id_, st, {}, {}, wv});
}
void log_channel::remove_storage(storage_id_type st, write_version_type wv) {
    stub::put({stub_log::REMOVE_ST, id_, st, {}, {}, wv});
}
bool cursor::next() {
    if (waiting_) {
        --*waiting_;
        for (int i = 0; i < 1000 && *waiting_ != 0; ++i) { std::this_thread::sleep_for(std::chrono::microseconds(20)); }
        waiting_ = nullptr;
    }
    if (pos_ >= e_.size()) { return false; } ++pos_;
    return true;
}
storage_id_type cursor::storage() const { return e_[pos_ - 1].st; }
void cursor::key(std::string& b) const { b = e_[pos_ - 1].key; }
void cursor::value(std::string& b) const { b = e_[pos_ - 1].val; }
std::unique_ptr<cursor> snapshot::get_cursor() const { return std::make_unique<cursor>(e_); }
std::vector<std::unique_ptr<cursor>> snapshot::get_partitioned_cursors(std::size_t n) const {
    std::vector<std::vector<stub_entry>> parts(n);
    for (std::size_t i = 0; i < e_.size(); ++i) { parts[i * n / (e_.empty() ? 1 : e_.size())].push_back(e_[i]); }
    std::vector<std::unique_ptr<cursor>> r;
    auto w = std::make_shared<std::atomic<std::size_t>>(n);
    for (auto& p : parts) {
        r.push_back(std::make_unique<cursor>(p));
        r.back()->waiting_ = w;
    }
    return r;
}
datastore::~datastore() = default;
void datastore::ready() {}
void datastore::recover() {}
std::unique_ptr<snapshot> datastore::get_snapshot() const {
    std::lock_guard<std::recursive_mutex> lk{stub::mtx()};
    std::vector<stub_entry> v;
    for (auto& e : stub::disk()) { v.push_back({e.first.first, e.first.second, e.second.second}); }
    return std::make_unique<snapshot>(v);
}
log_channel& datastore::create_channel() {
    std::lock_guard<std::recursive_mutex> lk{stub::mtx()};
    channels_.push_back(std::make_unique<log_channel>(this, channels_.size()));
    return *channels_.back();
}
epoch_t datastore::last_epoch() const { std::lock_guard<std::recursive_mutex> lk{stub::mtx()}; return stub::durable(); }
void datastore::switch_epoch(epoch_t ep) {
    std::function<void(epoch_t)> cb;
    {
        std::lock_guard<std::recursive_mutex> lk{stub::mtx()};
        stub::put({stub_log::EPOCH, 0, 0, {}, {}, write_version_type(ep, 0)});
        if (!stub::auto_durable() || ep == 0) { return; }
        stub::durable() = ep - 1;
        cb = cb_;
    }
    if (cb) { cb(ep - 1); }
}
void datastore::switch_available_boundary_version(write_version_type v) {
    stub::put({stub_log::BOUNDARY, 0, 0, {}, {}, v});
}
void datastore::add_persistent_callback(std::function<void(epoch_t)> cb) { cb_ = std::move(cb); }
void datastore::remove_persistent_callback() { cb_ = nullptr; }
std::future<void> datastore::shutdown() {
    {
        // every session has ended: the current epoch is on disk as well
        std::lock_guard<std::recursive_mutex> lk{stub::mtx()};
        for (auto it = stub::trace().rbegin(); it != stub::trace().rend(); ++it) {
            if (it->kind == stub_log::EPOCH) {
                if (stub::auto_durable() && stub::durable() < it->wv.get_major()) { stub::durable() = it->wv.get_major(); }
                break;
            }
        }
    }
    std::promise<void> p; p.set_value(); return p.get_future();
}
namespace stub {
void report_durable(datastore*, epoch_t ep, const std::function<void(epoch_t)>& cb) { durable() = ep; if (cb) { cb(ep); } }
} // namespace stub
} // namespace limestone::api
