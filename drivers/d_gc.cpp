// Readers next to background collection. Released memory is overwritten and
// kept for a while, so that a use after release shows.
#include <malloc.h>

#include <new>

#include "drv.h"

namespace {
constexpr std::size_t ring_size = 1U << 15U;
void** g_ring = static_cast<void**>(std::calloc(ring_size, sizeof(void*)));
std::atomic<std::size_t> g_pos{0};
std::atomic<bool> g_on{false};
void release(void* p) {
    if (p == nullptr) { return; }
    if (!g_on.load(std::memory_order_relaxed)) {
        std::free(p);
        return;
    }
    auto n = malloc_usable_size(p);
    std::memset(p, 0xDB, n);
    auto i = g_pos.fetch_add(1) % ring_size;
    void* old = __atomic_exchange_n(&g_ring[i], p, __ATOMIC_ACQ_REL);
    if (old != nullptr) { std::free(old); }
}
} // namespace
void* operator new(std::size_t n) { void* p = std::malloc(n == 0 ? 1 : n); if (p == nullptr) { std::abort(); } return p; }
void* operator new(std::size_t n, std::align_val_t a) { void* p = nullptr; if (posix_memalign(&p, static_cast<std::size_t>(a), n == 0 ? 1 : n) != 0) { std::abort(); } return p; }
void operator delete(void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { release(p); }

using namespace drv;

namespace {
std::string key_of(std::uint64_t i) { return "key" + std::to_string(i); }
// values say which key they belong to; some are too long for the small buffer
std::string value_of(const std::string& k, std::uint64_t n) { return k + "=" + std::to_string(n) + std::string(n % 2 == 0 ? 0 : 40, 'x'); }
void check_value(const std::string& k, const std::string& v, std::uint64_t limit, const char* who) {
    bool ok = v.compare(0, k.size() + 1, k + "=") == 0;
    std::uint64_t n = ok ? std::strtoull(v.c_str() + k.size() + 1, nullptr, 10) : 0;
    CHECK_(ok && n < limit && v == value_of(k, n), "%s reads %s at %s, which nobody wrote", who, q(v).c_str(), k.c_str());
}
using state = std::map<std::string, std::string>;
bool gives_up(Status rc) { return aborted_by(rc) || rc == Status::WARN_CONCURRENT_UPDATE || rc == Status::WARN_CONCURRENT_INSERT; }
// false: the transaction was aborted, or met a record in the middle of a change
bool read_all(Token t, Storage st, std::uint64_t keys, bool scan, state& out) {
    out.clear();
    if (!scan) {
        for (std::uint64_t i = 0; i < keys; ++i) {
            std::string v;
            Status rc = search_key(t, st, key_of(i), v);
            if (gives_up(rc)) { return false; }
            if (rc == Status::OK) { out[key_of(i)] = v; }
        }
        return true;
    }
    ScanHandle h{};
    Status rc = open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
    if (gives_up(rc)) { return false; }
    if (rc != Status::OK) { return true; }
    for (;;) {
        std::string k, v;
        rc = read_key_from_scan(t, h, k);
        if (gives_up(rc)) { return false; }
        if (rc == Status::OK) {
            rc = read_value_from_scan(t, h, v);
            if (gives_up(rc)) { return false; }
            if (rc == Status::OK) {
                CHECK_(out.emplace(k, v).second, "a scan gives one key twice");
            }
        }
        rc = next(t, h);
        if (gives_up(rc)) { return false; }
        if (rc != Status::OK) { break; }
    }
    close_scan(t, h);
    return true;
}
} // namespace

// Snapshot readers stay open for many epochs while records are overwritten,
// deleted and collected; what they read never changes.
SCENARIO(snapshots_while_collecting, "C16 C06") {
    rng R(E.seed * 7 + 3);
    g_on = true;
    constexpr std::uint64_t keys = 8;
    while (E.more(8, 60)) {
        open_db();
        Storage st = new_storage();
        stop_clock();
        struct reader {
            Token t{};
            tt type{};
            state seen{};
            bool alive{true};
            // short readers keep a cursor
            ScanHandle h{};
            bool cursor{};
        };
        std::vector<reader> readers;
        std::uint64_t serial = 0;
        state now;
        for (int step = 0; step < 250; ++step) {
            auto what = R(12);
            if (what < 5) {
                // a writer
                Token t = session();
                bool lng = R(4) == 0;
                CHECK_(tx_begin(lng ? transaction_options(t, tt::LONG, {st}) : transaction_options(t, tt::SHORT)) == Status::OK, "tx_begin fails");
                if (lng) { tick(1 + static_cast<int>(R(2))); }
                state mine = now;
                bool ok = true;
                for (std::uint64_t j = 0; ok && j <= R(4); ++j) {
                    std::string k = key_of(R(keys)), v = value_of(k, serial++);
                    Status rc{};
                    if (R(3) == 0) {
                        rc = delete_record(t, st, k);
                        if (rc == Status::OK) { mine.erase(k); }
                        if (rc == Status::WARN_CANCEL_PREVIOUS_INSERT || rc == Status::WARN_CANCEL_PREVIOUS_UPSERT) { ok = false; }
                    } else {
                        rc = R(2) ? upsert(t, st, k, v) : mine.count(k) != 0 ? update(t, st, k, v) : insert(t, st, k, v);
                        if (rc == Status::OK) { mine[k] = v; }
                    }
                    if (aborted_by(rc)) { ok = false; }
                }
                if (lng && R(2)) { tick(1 + static_cast<int>(R(3))); }
                if (ok && R(6) != 0) {
                    result r;
                    commit_to(t, r);
                    // a long writer waits for readers which began before it
                    auto t0 = std::chrono::steady_clock::now();
                    while (!r.done && std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(300)) { std::this_thread::sleep_for(std::chrono::microseconds(100)); }
                    if (!r.done) {
                        for (auto& rd : readers) {
                            if (rd.alive && rd.type == tt::LONG) { abort(rd.t); rd.alive = false; }
                        }
                        wait_done(r, "a commit does not end");
                    }
                    if (r.rc == Status::OK) { now = mine; }
                } else {
                    abort(t);
                }
                leave(t);
            } else if (what < 7) {
                tick(1 + static_cast<int>(R(3)));
            } else if (what == 7) {
                // let collection run
                run_clock();
                std::this_thread::sleep_for(std::chrono::microseconds(R(3000)));
                stop_clock();
            } else if (what == 8 && readers.size() < 6) {
                reader rd;
                rd.t = session();
                rd.type = R(3) == 0 ? tt::SHORT : R(2) ? tt::READ_ONLY : tt::LONG;
                CHECK_(tx_begin({rd.t, rd.type}) == Status::OK, "tx_begin fails");
                if (rd.type == tt::SHORT) {
                    rd.cursor = open_scan(rd.t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, rd.h) == Status::OK;
                } else {
                    tick(1 + static_cast<int>(R(2)));
                    if (R(3) != 0) {
                        CHECK_(read_all(rd.t, st, keys, R(2) != 0, rd.seen), "a reader of a snapshot is aborted");
                    } else {
                        // the snapshot is the present state: every writer has ended
                        for (int i = 0; i < 3; ++i) { tick(); }
                        CHECK_(read_all(rd.t, st, keys, true, rd.seen), "a reader of a snapshot is aborted");
                    }
                }
                for (auto& e : rd.seen) { check_value(e.first, e.second, serial, "a snapshot reader"); }
                readers.push_back(rd);
            } else if (!readers.empty()) {
                auto i = R(readers.size());
                auto& rd = readers[i];
                bool drop = !rd.alive || R(12) == 0;
                if (rd.alive && rd.type == tt::SHORT) {
                    if (rd.cursor) {
                        std::string k, v;
                        Status rc = read_key_from_scan(rd.t, rd.h, k);
                        if (rc == Status::OK) {
                            rc = read_value_from_scan(rd.t, rd.h, v);
                            if (rc == Status::OK) { check_value(k, v, serial, "a short scan"); }
                        }
                        if (!aborted_by(rc)) { rc = next(rd.t, rd.h); }
                        if (rc != Status::OK) { drop = true; }
                        if (aborted_by(rc)) { rd.alive = false; }
                    } else {
                        drop = true;
                    }
                } else if (rd.alive) {
                    state again;
                    CHECK_(read_all(rd.t, st, keys, R(2) != 0, again), "a reader of a snapshot is aborted");
                    if (again != rd.seen) {
                        for (auto& e : rd.seen) { CHECK_(again.count(e.first) != 0 && again[e.first] == e.second, "a %s transaction first reads %s at %s and later %s", rd.type == tt::LONG ? "long" : "read only", q(e.second).c_str(), e.first.c_str(), again.count(e.first) == 0 ? "nothing" : q(again[e.first]).c_str()); }
                        fail("a %s transaction reads a record which it did not find before", rd.type == tt::LONG ? "long" : "read only");
                    }
                }
                if (drop) {
                    if (rd.alive) { abort(rd.t); }
                    leave(rd.t);
                    readers.erase(readers.begin() + static_cast<long>(i));
                }
            }
        }
        for (auto& rd : readers) {
            if (rd.alive) { abort(rd.t); }
            leave(rd.t);
        }
        // the last state is there
        tick(3);
        std::this_thread::sleep_for(std::chrono::milliseconds(2));
        Token t = session();
        for (tt type : {tt::SHORT, tt::READ_ONLY}) {
            CHECK_(tx_begin({t, type}) == Status::OK, "tx_begin fails");
            if (type == tt::READ_ONLY) { tick(3); }
            state got;
            CHECK_(read_all(t, st, keys, true, got) && got == now, "the records differ from what was committed");
            abort(t);
        }
        leave(t);
        run_clock();
        close_db();
    }
    g_on = false;
}

// Money moves between accounts, which come and go. Every committed or
// snapshot reader sees the same sum.
SCENARIO(transfers, "C01 C02 C05 C06 C09 C16") {
    g_on = true;
    open_db();
    Storage st = new_storage();
    constexpr std::uint64_t keys = 12;
    constexpr long total = 1000 * static_cast<long>(keys);
    in_tx([&](Token t) {
        for (std::uint64_t i = 0; i < keys; ++i) { upsert(t, st, key_of(i), "1000"); }
    });
    std::atomic<bool> stop{false};
    std::atomic<std::uint64_t> done[5];
    for (auto& d : done) { d = 0; }
    auto num = [](const std::string& v) {
        char* e = nullptr;
        long n = std::strtol(v.c_str(), &e, 10);
        CHECK_(!v.empty() && *e == 0, "an account holds %s, which nobody wrote", q(v).c_str());
        return n;
    };
    auto sum_of = [&](const state& s) {
        long n = 0;
        for (auto& e : s) { n += num(e.second); }
        return n;
    };
    auto finish = [&](Token t, result& r) {
        commit_to(t, r);
        auto t0 = std::chrono::steady_clock::now();
        while (!r.done) {
            std::this_thread::yield();
            CHECK_(std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60), "a commit does not end");
        }
        CHECK_(r.calls == 1, "a commit is reported more than once");
        return r.rc == Status::OK;
    };
    auto move = [&](Token t, rng& R) {
        std::string a = key_of(R(keys)), b = key_of(R(keys)), va, vb;
        if (a == b) { return true; }
        Status rc = search_key(t, st, a, va);
        if (gives_up(rc)) { return false; }
        if (rc != Status::OK) { va = "0"; }
        bool has_a = rc == Status::OK;
        rc = search_key(t, st, b, vb);
        if (gives_up(rc)) { return false; }
        bool has_b = rc == Status::OK;
        if (!has_b) { vb = "0"; }
        long x = num(va), y = num(vb);
        if (!has_a) { return true; }
        if (R(4) == 0) {
            // close account a
            rc = delete_record(t, st, a);
            if (rc != Status::OK) { return false; }
            rc = upsert(t, st, b, std::to_string(x + y));
        } else {
            long d = static_cast<long>(R(100));
            rc = update(t, st, a, std::to_string(x - d));
            if (rc != Status::OK) { return false; }
            rc = has_b ? (R(2) ? upsert(t, st, b, std::to_string(y + d)) : update(t, st, b, std::to_string(y + d))) : (R(2) ? insert(t, st, b, std::to_string(y + d)) : upsert(t, st, b, std::to_string(y + d)));
        }
        return rc == Status::OK;
    };
    auto worker = [&](int kind, std::uint64_t seed) {
        rng R(seed);
        Token t = session();
        while (!stop) {
            tt type = kind == 0 || kind == 3 ? tt::SHORT : kind == 1 || kind == 4 ? tt::LONG : tt::READ_ONLY;
            transaction_options o = kind == 1 ? transaction_options(t, type, {st}) : transaction_options(t, type);
            CHECK_(tx_begin(o) == Status::OK, "tx_begin fails");
            if (type != tt::SHORT) {
                auto t0 = std::chrono::steady_clock::now();
                std::string v;
                while (search_key(t, st, "none", v) == Status::WARN_PREMATURE) {
                    std::this_thread::yield();
                    CHECK_(std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60), "a transaction never starts");
                }
            }
            result r;
            if (kind == 0 || kind == 1) {
                bool ok = true;
                for (std::uint64_t i = 0; ok && i <= R(2); ++i) { ok = move(t, R); }
                if (R(10) == 0) { ok = false; }
                if (!ok) {
                    abort(t);
                    if (kind == 1) { std::this_thread::sleep_for(std::chrono::microseconds(300)); }
                    continue;
                }
                if (finish(t, r)) { ++done[kind]; }
                if (kind == 1) { std::this_thread::sleep_for(std::chrono::microseconds(R(3000))); }
                continue;
            }
            state s;
            bool ok = read_all(t, st, keys, R(3) != 0, s);
            if (kind == 2) {
                CHECK_(ok, "a read only transaction is aborted");
                CHECK_(sum_of(s) == total, "a read only transaction sees the sum %ld instead of %ld", sum_of(s), total);
                for (std::uint64_t i = R(4); i > 0; --i) {
                    if (R(2)) { std::this_thread::sleep_for(std::chrono::microseconds(R(2000))); }
                    state s2;
                    CHECK_(read_all(t, st, keys, R(2) != 0, s2) && s2 == s, "a read only transaction does not read the same again");
                }
            }
            if (!ok) {
                abort(t);
                continue;
            }
            if (R(3) == 0 && kind == 4) { std::this_thread::sleep_for(std::chrono::microseconds(R(2000))); }
            if (finish(t, r)) {
                CHECK_(sum_of(s) == total, "a committed %s transaction sees the sum %ld instead of %ld", kind == 3 ? "short" : "long", sum_of(s), total);
                ++done[kind];
            }
            if (kind == 4) { std::this_thread::sleep_for(std::chrono::microseconds(R(2000))); }
        }
        leave(t);
    };
    std::vector<std::thread> ts;
    std::uint64_t n = E.seed * 100;
    for (int kind : {0, 0, 1, 2, 3, 4}) { ts.emplace_back(worker, kind, n++); }
    while (E.more(8, 60)) { std::this_thread::sleep_for(std::chrono::milliseconds(20)); }
    stop = true;
    for (auto& t : ts) { t.join(); }
    Token t = session();
    state s;
    bool read = false;
    for (int i = 0; i < 200 && !read; ++i) { // collection may still disturb a scan
        CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "tx_begin fails");
        read = read_all(t, st, keys, true, s);
        abort(t);
        if (!read) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
    }
    CHECK_(read && sum_of(s) == total, "at the end the sum is %ld instead of %ld", sum_of(s), total);
    leave(t);
    std::printf("committed: %lu short, %lu long, %lu snapshots, %lu short sums, %lu long sums\n", done[0].load(), done[1].load(), done[2].load(), done[3].load(), done[4].load());
    close_db();
    g_on = false;
}
