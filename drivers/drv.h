#pragma once
// Driver support: scenarios run the whole database of /repo (linked with the
// stand-ins for the index and log libraries) through its public interface.
// These are bounded stand-ins: a scenario reports FAIL only for an observed
// behaviour that contradicts the property.
#include <unistd.h>
#include <xmmintrin.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "concurrency_control/include/epoch.h"
#include "shirakami/interface.h"
#include "shirakami/transaction_state.h"
#include "shirakami/api_result.h"
#include "shirakami/api_sequence.h"
#include "shirakami/api_storage.h"
#include "shirakami/api_tx_id.h"
#include "glog/logging.h"

namespace drv {
using namespace shirakami;
using tt = transaction_options::transaction_type;

// the last steps, shown when a scenario fails
inline std::vector<std::string>& notes() {
    static std::vector<std::string> n;
    return n;
}
inline void note(const char* fmt, ...) {
    char b[300];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    static std::mutex m;
    std::lock_guard<std::mutex> lk{m};
    if (notes().size() > 400) { notes().erase(notes().begin(), notes().begin() + 200); }
    notes().emplace_back(b);
}
[[noreturn]] inline void fail(const char* fmt, ...) {
    for (auto& n : notes()) { std::printf("  %s\n", n.c_str()); }
    va_list ap;
    va_start(ap, fmt);
    std::printf("FAIL ");
    std::vprintf(fmt, ap);
    std::printf("\n");
    va_end(ap);
    std::fflush(stdout);
    _exit(1);
}
#define CHECK_(c, ...) do { if (!(c)) { drv::fail(__VA_ARGS__); } } while (0)

struct rng {
    std::uint64_t s;
    explicit rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
    std::uint64_t next() {
        s ^= s << 13U;
        s ^= s >> 7U;
        s ^= s << 17U;
        return s * 0x2545F4914F6CDD1DULL >> 11U;
    }
    std::uint64_t below(std::uint64_t n) { return next() % n; }
    std::uint64_t operator()(std::uint64_t n) { return below(n); }
    bool chance(int pct) { return static_cast<int>(below(100)) < pct; }
};

struct env {
    std::uint64_t seed{};
    bool thorough{};
    std::chrono::steady_clock::time_point t0{std::chrono::steady_clock::now()};
    [[nodiscard]] double secs() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    [[nodiscard]] bool more(double quick, double deep) const { return secs() < (thorough ? deep : quick); }
};

using scen_fn = void (*)(env&);
inline std::map<std::string, scen_fn>& scenarios() {
    static std::map<std::string, scen_fn> m;
    return m;
}
struct reg_scen {
    reg_scen(const char* n, scen_fn f) { scenarios()[n] = f; }
};
#define SCENARIO(name, props)                                                  \
    static void scen_##name(drv::env& E);                                      \
    static drv::reg_scen reg_##name(#name, &scen_##name);                      \
    static void scen_##name([[maybe_unused]] drv::env& E)

// ---- database
inline std::string& log_dir() {
    static std::string d = std::filesystem::current_path().string() + "/log";
    return d;
}
inline void open_db(database_options::open_mode m = database_options::open_mode::CREATE, std::size_t epoch_us = 200, std::size_t resolvers = 2) {
    database_options o(m, std::filesystem::path(log_dir()), epoch_us, false, resolvers);
    CHECK_(init(o) == Status::OK, "init does not succeed");
}
inline void close_db() { fin(); }

// ---- epochs: the clock stands still except for tick()
inline void stop_clock() {
    epoch::set_perm_to_proc(1);
    while (epoch::get_perm_to_proc() != 0) { _mm_pause(); }
}
inline void run_clock() { epoch::set_perm_to_proc(-1); }
inline void tick(int n = 1) {
    epoch::set_perm_to_proc(n);
    auto t = std::chrono::steady_clock::now();
    while (epoch::get_perm_to_proc() != 0) {
        std::this_thread::sleep_for(std::chrono::microseconds(20));
        CHECK_(std::chrono::steady_clock::now() - t < std::chrono::seconds(60), "the epoch does not advance");
    }
}

inline bool aborted_by(Status rc) { return rc == Status::ERR_CC || rc == Status::ERR_KVS || rc == Status::ERR_READ_AREA_VIOLATION; }

inline Storage new_storage() {
    static std::atomic<int> n{0};
    Storage st{};
    std::string name = "st" + std::to_string(n++);
    CHECK_(create_storage(name, st) == Status::OK, "create_storage does not succeed");
    return st;
}
inline Token session() {
    Token t{};
    CHECK_(enter(t) == Status::OK, "enter does not succeed");
    return t;
}
inline std::string str(Status s) { return std::string(to_string_view(s)); }

struct result {
    std::atomic<bool> done{false};
    Status rc{Status::OK};
    reason_code why{};
    durability_marker_type mark{};
    std::atomic<int> calls{0};
};
// commit through the callback interface; r must outlive the call
inline bool commit_to(Token t, result& r) {
    return commit(t, [&r](Status s, reason_code why, durability_marker_type m) {
        r.rc = s;
        r.why = why;
        r.mark = m;
        ++r.calls;
        r.done.store(true);
    });
}
inline void wait_done(const result& r, const char* what, bool ticking = true, int secs = 40) {
    auto t = std::chrono::steady_clock::now();
    while (!r.done.load()) {
        if (ticking) { tick(); } else { std::this_thread::sleep_for(std::chrono::microseconds(50)); }
        CHECK_(std::chrono::steady_clock::now() - t < std::chrono::seconds(secs), "%s", what);
    }
}
// one short transaction, repeated until it commits
inline void in_tx(const std::function<void(Token)>& f) {
    Token t = session();
    for (int i = 0; i < 200; ++i) {
        CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "tx_begin of a short transaction does not succeed");
        f(t);
        if (commit(t) == Status::OK) {
            leave(t);
            return;
        }
        std::this_thread::yield();
    }
    fail("an undisturbed short transaction never commits");
}
inline std::string q(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c >= 32 && c < 127) { r += static_cast<char>(c); } else { char b[8]; std::snprintf(b, 8, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}
} // namespace drv

int main(int argc, char** argv) {
    if (argc < 2) {
        for (auto& s : drv::scenarios()) { std::printf("%s\n", s.first.c_str()); }
        return 0;
    }
    google::InitGoogleLogging("drv");
    auto it = drv::scenarios().find(argv[1]);
    if (it == drv::scenarios().end()) { return 2; }
    drv::env e;
    e.seed = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1;
    e.thorough = argc > 3 && std::strcmp(argv[3], "thorough") == 0;
    it->second(e);
    std::fflush(stdout);
    _exit(0);
}
