#pragma once
#include <string_view>
#include <vector>
#include "write_version_type.h"
namespace limestone::api {
class datastore;
class log_channel {
public:
    explicit log_channel(datastore* ds, std::size_t id) : ds_(ds), id_(id) {}
    void begin_session();
    void end_session();
    void add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv);
    void add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv,
                   const std::vector<blob_id_type>& large_objects);
    void remove_entry(storage_id_type st, std::string_view key, write_version_type wv);
    void add_storage(storage_id_type st, write_version_type wv);
    void remove_storage(storage_id_type st, write_version_type wv);
private:
    datastore* ds_;
    std::size_t id_;
};
} // namespace limestone::api
