#pragma once
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include "configuration.h"
#include "log_channel.h"
#include "snapshot.h"
#include "storage_id_type.h"
#include "write_version_type.h"
namespace limestone::api {
// everything handed to a log channel, in order of arrival
struct stub_log {
    enum kind_t { BEGIN, END, ADD, REMOVE, ADD_ST, REMOVE_ST, EPOCH, BOUNDARY } kind;
    std::size_t channel{};
    storage_id_type st{};
    std::string key{};
    std::string val{};
    write_version_type wv{};
    std::vector<blob_id_type> lobs{};
};
class datastore {
public:
    datastore() = default;
    explicit datastore(configuration const& conf) : conf_(conf) {}
    ~datastore();
    void ready();
    void recover();
    [[nodiscard]] std::unique_ptr<snapshot> get_snapshot() const;
    log_channel& create_channel();
    [[nodiscard]] epoch_t last_epoch() const;
    void switch_epoch(epoch_t ep);
    void switch_available_boundary_version(write_version_type v);
    void add_persistent_callback(std::function<void(epoch_t)> cb);
    void remove_persistent_callback();
    std::future<void> shutdown();
private:
    configuration conf_{};
    std::vector<std::unique_ptr<log_channel>> channels_;
    std::function<void(epoch_t)> cb_;
    friend class log_channel;
};
// The "disk" of the stand-in: shared by all datastore objects of the process.
namespace stub {
extern std::recursive_mutex& mtx();
extern std::vector<stub_log>& trace();          // all events
extern std::map<std::pair<storage_id_type, std::string>, std::pair<write_version_type, std::string>>& disk();
extern std::map<std::pair<storage_id_type, std::string>, write_version_type>& disk_seen();
extern epoch_t& durable();                       // last durable epoch
extern bool& auto_durable();                     // report epochs durable at switch_epoch
extern void report_durable(datastore* ds, epoch_t ep, const std::function<void(epoch_t)>& cb);
extern std::function<void(const stub_log&)>& hook(); // called for every event
extern void reset();
} // namespace stub
} // namespace limestone::api
