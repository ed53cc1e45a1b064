#pragma once
#include <string>
#include <vector>
#include "storage_id_type.h"
#include <atomic>
#include <memory>
namespace limestone::api {
struct stub_entry { storage_id_type st; std::string key; std::string val; };
class cursor {
public:
    explicit cursor(std::vector<stub_entry> e) : e_(std::move(e)) {}
    bool next();
    [[nodiscard]] storage_id_type storage() const;
    void key(std::string& buf) const;
    void value(std::string& buf) const;
    // the cursors of one partitioning start together
    std::shared_ptr<std::atomic<std::size_t>> waiting_{};
private:
    std::vector<stub_entry> e_;
    std::size_t pos_{0};
};
} // namespace limestone::api
