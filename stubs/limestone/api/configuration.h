#pragma once
#include <filesystem>
#include <string>
namespace limestone::api {
class configuration {
public:
    configuration() = default;
    void set_data_location(const std::filesystem::path& p) { loc_ = p; }
    void set_recover_max_parallelism(int n) { para_ = n; }
    [[nodiscard]] const std::filesystem::path& location() const { return loc_; }
    [[nodiscard]] int para() const { return para_; }
private:
    std::filesystem::path loc_;
    int para_{8};
};
} // namespace limestone::api
