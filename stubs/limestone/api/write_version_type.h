#pragma once
#include <cstdint>
#include "storage_id_type.h"
namespace limestone::api {
class write_version_type {
public:
    write_version_type() = default;
    write_version_type(epoch_t ma, std::uint64_t mi) : major_(ma), minor_(mi) {}
    bool operator<(const write_version_type& r) const {
        return major_ != r.major_ ? major_ < r.major_ : minor_ < r.minor_;
    }
    [[nodiscard]] epoch_t get_major() const { return major_; }
    [[nodiscard]] std::uint64_t get_minor() const { return minor_; }
private:
    epoch_t major_{};
    std::uint64_t minor_{};
};
} // namespace limestone::api
