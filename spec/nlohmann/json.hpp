#pragma once
namespace nlohmann {
struct json {
    template<class T> json& operator[](T&&) { return *this; }
    template<class T> json& operator=(T&&) { return *this; }
    template<class T> void push_back(T&&) {}
    std::string dump(int = 0) const { return {}; }
};
template<class O> O& operator<<(O& o, const json&) { return o; }
} // namespace nlohmann
