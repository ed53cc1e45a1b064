#pragma once
#include <memory>
#include <vector>
#include "cursor.h"
namespace limestone::api {
class snapshot {
public:
    explicit snapshot(std::vector<stub_entry> e) : e_(std::move(e)) {}
    [[nodiscard]] std::unique_ptr<cursor> get_cursor() const;
    [[nodiscard]] std::vector<std::unique_ptr<cursor>> get_partitioned_cursors(std::size_t n) const;
private:
    std::vector<stub_entry> e_;
};
} // namespace limestone::api
