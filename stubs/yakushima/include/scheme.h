#pragma once
// Stand-in for the yakushima index library (not available offline).
#include <cstddef>
#include <cstdint>
#include <new>
#include <ostream>
namespace yakushima {
enum class status : std::int32_t {
    WARN_ABORTED_BY_USER,
    WARN_CONCURRENT_OPERATIONS,
    WARN_EXIST,
    WARN_INVALID_TOKEN,
    WARN_MAX_SESSIONS,
    WARN_NOT_EXIST,
    WARN_STORAGE_NOT_EXIST,
    WARN_UNIQUE_RESTRICTION,
    OK_DESTROY_ALL,
    OK_RETRY_FETCH_LV,
    OK_RETRY_FROM_ROOT,
    OK_ROOT_IS_NULL,
    OK_SCAN_CONTINUE,
    OK_SCAN_END,
    OK,
    ERR_BAD_USAGE,
    ERR_FATAL,
};
inline std::ostream& operator<<(std::ostream& out, status s) {
    return out << static_cast<int>(s);
}
enum class scan_endpoint : char { EXCLUSIVE, INCLUSIVE, INF };
using Token = void*;
using value_align_type = std::align_val_t;
} // namespace yakushima
