#pragma once
namespace boost::filesystem {
struct path { path() = default; explicit path(const std::string&) {} std::string string() const { return {}; } };
} // namespace boost::filesystem
