// What is sent to the datastore, what callers are told about it, and what a
// restart makes of it.
#include "drv.h"
#include "concurrency_control/include/session.h"
#include "limestone/api/datastore.h"
#include "storage.h"
#include "shirakami/tx_state_notification.h"
using namespace drv;
namespace lst = limestone::api::stub;
using limestone::api::stub_log;

namespace {
struct entry {
    bool del{};
    std::string val{};
    std::vector<blob_id_type> lobs{};
    bool operator<(const entry& o) const { return std::tie(del, val, lobs) < std::tie(o.del, o.val, o.lobs); }
    bool operator==(const entry& o) const { return std::tie(del, val, lobs) == std::tie(o.del, o.val, o.lobs); }
};
using rec_id = std::pair<Storage, std::string>;
std::string show(const entry& e) { return e.del ? "removal" : "value " + q(e.val) + " with " + std::to_string(e.lobs.size()) + " large objects"; }

// the log of the stand-in: per record, all entries; and the discipline of sessions
struct log_view {
    std::map<rec_id, std::vector<entry>> per{};
    std::map<std::string, std::uint64_t> epoch_of{}; // value -> datastore epoch in which its session began
    std::size_t n{0};
    bool is_user(Storage st) const { return st < storage::sequence_storage - 10; }
    void build() {
        std::lock_guard<std::recursive_mutex> lk{lst::mtx()};
        per.clear();
        n = 0;
        std::map<std::size_t, bool> open;
        std::map<std::size_t, std::uint64_t> began;
        std::uint64_t ep = 0;
        for (auto& l : lst::trace()) {
            switch (l.kind) {
                case stub_log::EPOCH: ep = l.wv.get_major(); break;
                case stub_log::BEGIN:
                    CHECK_(!open[l.channel], "a log session is begun twice");
                    open[l.channel] = true;
                    began[l.channel] = ep;
                    break;
                case stub_log::END:
                    CHECK_(open[l.channel], "a log session is ended that was not begun");
                    open[l.channel] = false;
                    break;
                case stub_log::ADD:
                case stub_log::REMOVE:
                    CHECK_(open[l.channel], "an entry is sent outside of a log session");
                    if (is_user(l.st)) {
                        ++n;
                        per[{l.st, l.key}].push_back({l.kind == stub_log::REMOVE, l.val, l.lobs});
                        epoch_of[l.val] = began[l.channel];
                    }
                    break;
                default: break;
            }
        }
    }
};

struct own_write {
    enum op_t { INS, UPD, DEL, UPS } op{};
    entry e{};
    bool existed{};
};

struct work {
    struct tx {
        Token t{};
        bool on{false};
        tt type{tt::SHORT};
        std::map<rec_id, own_write> w{};
        int since{0};
    };
    rng R;
    int clock{0};
    std::map<rec_id, int> written{}; // when a record was last written by a commit
    std::vector<Storage> sts{};
    std::vector<tx> txs{};
    std::map<rec_id, std::vector<entry>> want{}, optional{};
    std::size_t entries{0};
    int serial{0};
    struct mark {
        std::string val;
        std::uint64_t m;
    };
    std::vector<mark> marks{};
    explicit work(std::uint64_t seed) : R(seed) {}
    void enter_all(int n) {
        txs.resize(n);
        for (auto& x : txs) { x.t = drv::session(); }
    }
    void leave_all() {
        for (auto& x : txs) {
            if (x.on) { abort(x.t); }
            x.on = false;
            leave(x.t);
        }
    }
    void step() {
        auto n = R(txs.size());
        auto& x = txs[n];
        if (!x.on) {
            x.type = R(3) == 0 ? tt::LONG : tt::SHORT;
            transaction_options o(x.t, x.type);
            if (x.type == tt::LONG) { o.set_write_preserve(sts); }
            CHECK_(tx_begin(o) == Status::OK, "tx_begin fails");
            note("T%d begins %s", static_cast<int>(n), x.type == tt::LONG ? "long" : "short");
            x.on = true;
            x.since = ++clock;
            x.w.clear();
            if (x.type == tt::LONG) { tick(); }
            return;
        }
        rec_id id{sts[R(sts.size())], R(5) == 0 ? "u" + std::to_string(++serial) : R(6) == 0 ? "" : "k" + std::to_string(R(5))};
        std::string v = "v" + std::to_string(++serial);
        std::vector<blob_id_type> lobs;
        if (R(4) == 0) {
            for (std::uint64_t i = 0; i <= R(3); ++i) { lobs.push_back(100 + R(1000)); }
        }
        const blob_id_type* bp = lobs.empty() ? nullptr : lobs.data();
        auto own = x.w.find(id);
        Status rc{};
        auto lost = [&](Status s) {
            if (!aborted_by(s)) { return false; }
            note("T%d fails", static_cast<int>(n));
            x.on = false;
            return true;
        };
        switch (R(7)) {
            case 0:
                rc = insert(x.t, id.first, id.second, v, bp, lobs.size());
                note("T%d insert %llx:%s %s -> %s", static_cast<int>(n), static_cast<unsigned long long>(id.first), id.second.c_str(), v.c_str(), str(rc).c_str());
                if (lost(rc)) { return; }
                if (rc == Status::OK) { x.w[id] = {own != x.w.end() ? own_write::UPD : own_write::INS, {false, v, lobs}, own != x.w.end()}; }
                break;
            case 1:
                rc = update(x.t, id.first, id.second, v, bp, lobs.size());
                note("T%d update %llx:%s %s -> %s", static_cast<int>(n), static_cast<unsigned long long>(id.first), id.second.c_str(), v.c_str(), str(rc).c_str());
                if (lost(rc)) { return; }
                if (rc == Status::OK) {
                    if (own == x.w.end()) { x.w[id] = {own_write::UPD, {false, v, lobs}, true}; }
                    else { own->second.e = {false, v, lobs}; }
                }
                break;
            case 2:
            case 3:
                rc = upsert(x.t, id.first, id.second, v, bp, lobs.size());
                note("T%d upsert %llx:%s %s -> %s", static_cast<int>(n), static_cast<unsigned long long>(id.first), id.second.c_str(), v.c_str(), str(rc).c_str());
                if (lost(rc)) { return; }
                if (rc == Status::OK) {
                    if (own == x.w.end()) { x.w[id] = {own_write::UPS, {false, v, lobs}, false}; }
                    else { own->second.e = {false, v, lobs}; }
                }
                break;
            case 4:
                rc = delete_record(x.t, id.first, id.second);
                note("T%d delete %llx:%s %s -> %s", static_cast<int>(n), static_cast<unsigned long long>(id.first), id.second.c_str(), v.c_str(), str(rc).c_str());
                if (lost(rc)) { return; }
                if (rc == Status::OK) { x.w[id] = {own_write::DEL, {true, "", {}}, true}; }
                if (rc == Status::WARN_CANCEL_PREVIOUS_INSERT) { x.w.erase(id); }
                if (rc == Status::WARN_CANCEL_PREVIOUS_UPSERT) { x.w[id] = {own_write::UPS, {true, "?", {}}, true}; }
                break;
            default: {
                if (R(4) == 0) {
                    note("T%d abort", static_cast<int>(n));
                    CHECK_(abort(x.t) == Status::OK, "abort fails");
                    x.on = false;
                    return;
                }
                result r;
                if (commit_to(x.t, r) && r.rc == Status::WARN_PREMATURE) { return; }
                wait_commit(x, r);
                note("T%d commit -> %s", static_cast<int>(n), str(r.rc).c_str());
                x.on = false;
                CHECK_(r.calls == 1, "the commit callback ran %d times", r.calls.load());
                if (r.rc != Status::OK) {
                    CHECK_(r.rc == Status::ERR_CC || r.rc == Status::ERR_KVS, "commit gives %s", str(r.rc).c_str());
                    CHECK_(r.why != reason_code::UNKNOWN && r.why == transaction_result_info(x.t)->get_reason_code(), "the commit callback does not tell the reason of the failure (%s, %s)", std::string(to_string_view(r.why)).c_str(), std::string(to_string_view(transaction_result_info(x.t)->get_reason_code())).c_str());
                    return;
                }
                ++clock;
                for (auto& e : x.w) {
                    bool late = x.type == tt::LONG && written.count(e.first) != 0;
                    written[e.first] = clock;
                    if (late) {
                        // may come before the other one in the serial order: need not be logged then
                        optional[e.first].push_back(e.second.e);
                        continue;
                    }
                    want[e.first].push_back(e.second.e);
                    if (e.second.e.val != "?") {
                        ++entries;
                        if (!e.second.e.del) { marks.push_back({e.second.e.val, r.mark}); }
                    }
                }
            }
        }
    }
    // a long transaction may wait for older ones: finish those first
    void wait_commit(tx& x, result& r) {
        for (int i = 0; i < 3 && !r.done; ++i) { tick(); }
        if (!r.done) {
            for (auto& y : txs) {
                if (&y != &x && y.on && y.type == tt::LONG) {
                    note("  aborting an older one");
                    abort(y.t);
                    y.on = false;
                }
            }
        }
        wait_done(r, "commit does not end");
    }
};

std::map<rec_id, std::string> contents(const std::vector<Storage>& sts, tt type) {
    for (int i = 0; i < 50; ++i) {
        std::map<rec_id, std::string> m;
        Token t = drv::session();
        CHECK_(tx_begin({t, type}) == Status::OK, "tx_begin fails");
        if (type != tt::SHORT) { tick(2); }
        for (auto st : sts) {
            ScanHandle h{};
            Status rc = open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
            if (rc == Status::WARN_NOT_FOUND) { continue; }
            if (aborted_by(rc)) { break; }
            CHECK_(rc == Status::OK, "open_scan gives %s", str(rc).c_str());
            do {
                std::string k, v;
                rc = read_key_from_scan(t, h, k);
                if (rc != Status::OK) { continue; }
                if (read_value_from_scan(t, h, v) == Status::OK) { m[{st, k}] = v; }
            } while (next(t, h) == Status::OK);
        }
        for (auto& e : m) {
            std::string v;
            Status rc = search_key(t, e.first.first, e.first.second, v);
            if (rc == Status::OK) { CHECK_(v == e.second, "a search and a scan of the same transaction differ"); }
        }
        result r;
        commit_to(t, r);
        wait_done(r, "commit does not end");
        leave(t);
        if (r.rc == Status::OK) { return m; }
        tick();
    }
    fail("an undisturbed reader never commits");
}
} // namespace

SCENARIO(log_content, "C18 C19") {
    lst::reset();
    open_db();
    stop_clock();
    work W(E.seed * 17 + 5);
    for (int i = 0; i < 2; ++i) { W.sts.push_back(new_storage()); }
    tick(2);
    W.enter_all(4);
    log_view L;
    while (E.more(6, 60)) {
        for (int i = 0; i < 300; ++i) { W.step(); }
        for (auto& x : W.txs) {
            if (x.on) { abort(x.t); }
            x.on = false;
        }
        tick(3);
        auto t0 = std::chrono::steady_clock::now();
        auto complete = [&] {
            for (auto& w : W.want) {
                auto got = L.per[w.first];
                for (auto& e : w.second) {
                    auto it = std::find(got.begin(), got.end(), e);
                    if (it != got.end()) { got.erase(it); } else if (e.val != "?") { return false; }
                }
            }
            return true;
        };
        for (int i = 0;; ++i) {
            L.build();
            if ((i > 2 && complete()) || std::chrono::steady_clock::now() - t0 > std::chrono::seconds(10)) { break; }
            tick();
        }
        for (auto& w : W.want) {
            // entries of one record arrive in any order; a cancelled upsert may or may not remove a record
            auto got = L.per[w.first];
            auto exp = w.second;
            std::vector<entry> sure;
            std::size_t maybe = 0;
            for (auto& e : exp) {
                if (e.val == "?") { ++maybe; } else { sure.push_back(e); }
            }
            for (auto& e : sure) {
                auto it = std::find(got.begin(), got.end(), e);
                CHECK_(it != got.end(), "no entry is logged for the committed write of %s to %s", show(e).c_str(), (std::to_string(w.first.first) + q(w.first.second)).c_str());
                got.erase(it);
            }
            for (auto& e : W.optional[w.first]) {
                if (e.val == "?") { ++maybe; }
                auto it = std::find(got.begin(), got.end(), e);
                if (it != got.end()) { got.erase(it); }
            }
            for (auto& g : got) { CHECK_(g.del && maybe-- > 0, "an entry is logged that no committed transaction wrote, or twice: %s of %s", show(g).c_str(), q(w.first.second).c_str()); }
        }
        for (auto& g : L.per) { CHECK_(g.second.empty() || W.want.count(g.first) != 0 || W.optional.count(g.first) != 0, "an entry is logged for the record %s that no committed transaction wrote", q(g.first.second).c_str()); }
        for (auto& m : W.marks) {
            auto it = L.epoch_of.find(m.val);
            if (it != L.epoch_of.end()) { CHECK_(it->second <= m.m, "a commit is reported with a marker (%llu) that becomes durable before its log session (%llu)", static_cast<unsigned long long>(m.m), static_cast<unsigned long long>(it->second)); }
        }
        W.marks.clear();
        // replaying the log by versions gives the contents of the database
        auto now = contents(W.sts, tt::SHORT);
        std::map<rec_id, std::string> disk;
        {
            std::lock_guard<std::recursive_mutex> lk{lst::mtx()};
            for (auto& d : lst::disk()) {
                if (L.is_user(d.first.first)) { disk[d.first] = d.second.second; }
            }
        }
        for (auto& e : now) {
            auto it = disk.find(e.first);
            CHECK_(it != disk.end() && it->second == e.second, "the record %s reads as %s but replaying the log by version order gives %s", q(e.first.second).c_str(), q(e.second).c_str(), it == disk.end() ? "nothing" : q(it->second).c_str());
        }
        for (auto& e : disk) { CHECK_(now.count(e.first) != 0, "the record %s does not exist but replaying the log by version order gives %s", q(e.first.second).c_str(), q(e.second).c_str()); }
        if (lst::trace().size() > 40000) { break; }
    }
    W.leave_all();
    run_clock();
    close_db();
    std::map<std::size_t, int> open;
    for (auto& l : lst::trace()) {
        if (l.kind == stub_log::BEGIN) { ++open[l.channel]; }
        if (l.kind == stub_log::END) { --open[l.channel]; }
    }
    for (auto& o : open) { CHECK_(o.second == 0, "a log session is still open after shutdown"); }
}

// many threads at a time: nothing is dropped by concurrent flushes
SCENARIO(log_threads, "C18") {
    lst::reset();
    open_db();
    Storage st = new_storage();
    std::atomic<bool> stop{false};
    std::mutex m;
    std::map<std::string, std::string> want;
    std::atomic<std::size_t> n{0};
    std::vector<std::thread> th;
    for (int w = 0; w < 5; ++w) {
        th.emplace_back([&, w] {
            rng r(E.seed * 11 + w);
            Token t = drv::session();
            for (int i = 0; !stop && i < 20000; ++i) {
                tx_begin({t, tt::SHORT});
                std::map<std::string, std::string> mine;
                for (std::uint64_t j = 0; j <= r(4); ++j) {
                    std::string k = std::to_string(w) + "_" + std::to_string(r(30)), v = std::to_string(i) + "." + std::to_string(j);
                    if (upsert(t, st, k, v) == Status::OK) { mine[k] = v; }
                }
                if (commit(t) == Status::OK) {
                    n += mine.size();
                    std::lock_guard<std::mutex> lk{m};
                    for (auto& e : mine) { want[e.first] = e.second; }
                }
                if (r(50) == 0) { std::this_thread::sleep_for(std::chrono::microseconds(r(500))); }
            }
            leave(t);
        });
    }
    while (E.more(3, 15)) { std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
    stop = true;
    for (auto& x : th) { x.join(); }
    close_db();
    log_view L;
    L.build();
    CHECK_(L.n == n, "%zu entries are logged for %zu committed writes", L.n, n.load());
    for (auto& e : want) {
        auto it = lst::disk().find({st, e.first});
        CHECK_(it != lst::disk().end() && it->second.second == e.second, "replaying the log gives another value of %s", e.first.c_str());
    }
}

SCENARIO(durability_callbacks, "C19") {
    rng R(E.seed + 9);
    while (E.more(4, 30)) {
        lst::reset();
        open_db();
        stop_clock();
        std::mutex m;
        std::vector<std::pair<int, std::uint64_t>> calls;
        std::vector<std::pair<int, std::uint64_t>> want;
        std::uint64_t reported = 0;
        int regs = 0;
        std::atomic<std::uint64_t> told{0};
        CHECK_(register_durability_callback([&](durability_marker_type d) { told = d; }) == Status::OK, "register_durability_callback fails");
        auto settle = [&] {
            auto t0 = std::chrono::steady_clock::now();
            while (told + 1 != static_cast<std::uint64_t>(epoch::get_global_epoch())) { CHECK_(std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20), "a durability callback is not told the durable epoch"); }
        };
        tick();
        settle();
        for (int i = 0; i < 12; ++i) {
            if (R(3) == 0 && regs < 6) {
                int me = regs++;
                CHECK_(register_durability_callback([&, me](durability_marker_type d) {
                    std::lock_guard<std::mutex> lk{m};
                    calls.emplace_back(me, d);
                }) == Status::OK, "register_durability_callback fails");
                // a new callback is told the present durable epoch
                want.emplace_back(me, told.load());
            }
            std::size_t from;
            {
                std::lock_guard<std::recursive_mutex> lk{lst::mtx()};
                from = lst::trace().size();
            }
            tick(1 + static_cast<int>(R(3)));
            settle();
            std::vector<std::uint64_t> eps;
            auto t0 = std::chrono::steady_clock::now();
            {
                std::lock_guard<std::recursive_mutex> lk{lst::mtx()};
                for (auto k = from; k < lst::trace().size(); ++k) {
                    if (lst::trace()[k].kind == stub_log::EPOCH) { eps.push_back(lst::trace()[k].wv.get_major()); }
                }
            }
            CHECK_(!eps.empty(), "the datastore is not told about the new epoch");
            for (auto e : eps) {
                for (int k = 0; k < regs; ++k) { want.emplace_back(k, e - 1); }
                CHECK_(e - 1 >= reported, "epochs told to the datastore decrease");
                reported = e - 1;
            }
            for (;;) {
                std::lock_guard<std::mutex> lk{m};
                if (calls.size() >= want.size() || std::chrono::steady_clock::now() - t0 > std::chrono::seconds(5)) { break; }
            }
            std::lock_guard<std::mutex> lk{m};
            CHECK_(calls == want, "durability callbacks: %zu calls instead of %zu, or with other epochs or in another order (%llu %llu)", calls.size(), want.size(), static_cast<unsigned long long>(calls[0].second), static_cast<unsigned long long>(calls[1].second));
        }
        // commit callbacks
        Token t = drv::session();
        Storage st = new_storage();
        for (int i = 0; i < 10; ++i) {
            tt type = R(3) == 0 ? tt::READ_ONLY : R(2) ? tt::SHORT : tt::LONG;
            CHECK_(tx_begin(type == tt::LONG ? transaction_options(t, type, {st}) : transaction_options(t, type)) == Status::OK, "tx_begin fails");
            if (type != tt::SHORT) { tick(1 + static_cast<int>(R(2))); }
            if (type != tt::READ_ONLY && R(2)) { upsert(t, st, "a" + std::to_string(R(3)), "x"); }
            result r;
            std::uint64_t before = epoch::get_global_epoch();
            {
                // a log session which is still open decides by the epoch it was begun in
                std::lock_guard<std::recursive_mutex> lk{lst::mtx()};
                std::map<std::uint64_t, std::uint64_t> open;
                std::uint64_t now = 0;
                for (auto& l : lst::trace()) {
                    if (l.kind == stub_log::EPOCH) { now = l.wv.get_major(); }
                    if (l.kind == stub_log::BEGIN) { open[l.channel] = now; }
                    if (l.kind == stub_log::END) { open.erase(l.channel); }
                }
                for (auto& e : open) { before = std::min(before, e.second); }
            }
            commit_to(t, r);
            wait_done(r, "commit does not end");
            CHECK_(r.calls == 1 && r.rc == Status::OK && r.why == reason_code::UNKNOWN, "the callback of a successful commit: %d calls, %s", r.calls.load(), str(r.rc).c_str());
            CHECK_(r.mark >= before && r.mark <= static_cast<std::uint64_t>(epoch::get_global_epoch()), "the durability marker %llu of a commit lies outside of the epochs %llu to %llu during the commit", (unsigned long long) r.mark, (unsigned long long) before, (unsigned long long) epoch::get_global_epoch());
            result r2;
            CHECK_(commit_to(t, r2) && r2.done && r2.rc == Status::WARN_NOT_BEGIN && r2.calls == 1, "commit without a transaction does not call back with the failure");
        }
        leave(t);
        run_clock();
        close_db();
        auto n = calls.size();
        open_db();
        stop_clock();
        tick(2);
        run_clock();
        close_db();
        CHECK_(calls.size() == n, "a durability callback is called after the database was shut down");
    }
}

SCENARIO(recovery, "C20") {
    lst::reset();
    rng R(E.seed * 3 + 1);
    std::map<std::string, std::pair<Storage, storage_option>> model;
    std::map<rec_id, std::string> recs;
    std::map<SequenceId, std::pair<SequenceVersion, SequenceValue>> seqs;
    std::set<SequenceId> dead;
    std::set<Storage> gone;
    open_db();
    stop_clock();
    int serial = 0, restarts = 0;
    while (E.more(7, 60)) {
        // change something
        for (int n = 0; n < 60; ++n) {
            int what = static_cast<int>(R(14));
            if (model.size() < 2 || what == 0) {
                std::string name = "s" + std::to_string(serial++);
                storage_option o;
                if (R(3) == 0) { o.id(static_cast<std::uint64_t>(R(50))); }
                o.payload(R(2) ? std::string("p\0q", 3) + std::to_string(serial) : std::string{});
                bool used = false;
                for (auto& e : model) { used = used || e.second.first == o.id(); }
                Storage st{};
                Status rc = create_storage(name, st, o);
                CHECK_(rc == (used ? Status::WARN_ALREADY_EXISTS : Status::OK), "create_storage gives %s", str(rc).c_str());
                if (!used) {
                    for (auto& e : model) { CHECK_(e.second.first != st, "a new storage gets the handle of another one"); }
                    model.emplace(name, std::make_pair(st, o));
                }
            } else if (what == 1) {
                auto it = model.begin();
                std::advance(it, R(model.size()));
                if (R(2)) {
                    it->second.second.payload(std::to_string(serial++));
                    CHECK_(storage_set_options(it->second.first, it->second.second) == Status::OK, "storage_set_options fails");
                } else if (R(2) && model.size() > 2) {
                    CHECK_(delete_storage(it->second.first) == Status::OK, "delete_storage fails");
                    tick(2);
                    for (auto r = recs.begin(); r != recs.end();) {
                        if (r->first.first == it->second.first) { r = recs.erase(r); } else { ++r; }
                    }
                    model.erase(it);
                }
            } else if (what == 2) {
                SequenceId id{};
                CHECK_(create_sequence(&id) == Status::OK, "create_sequence fails");
                CHECK_(seqs.count(id) == 0 && dead.count(id) == 0, "a sequence identifier is handed out again after a restart");
                seqs[id] = {0, 0};
            } else if (what == 3 && !seqs.empty()) {
                auto it = seqs.begin();
                std::advance(it, R(seqs.size()));
                if (R(5) == 0) {
                    CHECK_(delete_sequence(it->first) == Status::OK, "delete_sequence fails");
                    dead.insert(it->first);
                    seqs.erase(it);
                } else {
                    it->second = {it->second.first + 1 + R(3), static_cast<SequenceValue>(serial++) - 50};
                    in_tx([&](Token t) { CHECK_(update_sequence(t, it->first, it->second.first, it->second.second) == Status::OK, "update_sequence fails"); });
                }
            } else if (what == 4) {
                tick();
            } else {
                auto it = model.begin();
                std::advance(it, R(model.size()));
                Storage st = it->second.first;
                bool lng = R(4) == 0;
                Token t = drv::session();
                CHECK_(tx_begin(lng ? transaction_options(t, tt::LONG, {st}) : transaction_options(t, tt::SHORT)) == Status::OK, "tx_begin fails");
                if (lng) { tick(); }
                auto mine = recs;
                bool ok = true;
                for (std::uint64_t j = 0; ok && j <= R(3); ++j) {
                    std::string k = R(10) == 0 ? std::string{} : std::string("k\0", 2) + std::to_string(R(8)), v = "v" + std::to_string(serial++);
                    Status rc{};
                    if (R(3) == 0) {
                        rc = delete_record(t, st, k);
                        if (rc == Status::OK || rc == Status::WARN_CANCEL_PREVIOUS_INSERT) { mine.erase({st, k}); }
                        if (rc == Status::WARN_CANCEL_PREVIOUS_UPSERT) { ok = false; } // may bring back the old record or delete it
                    } else {
                        rc = upsert(t, st, k, v);
                        if (rc == Status::OK) { mine[{st, k}] = v; }
                    }
                    if (aborted_by(rc)) { ok = false; }
                }
                result r;
                if (ok && R(5) != 0) {
                    commit_to(t, r);
                    wait_done(r, "commit does not end");
                    if (r.rc == Status::OK) { recs = mine; }
                } else {
                    abort(t);
                }
                leave(t);
            }
        }
        if (R(2)) { tick(2); }
        auto last = epoch::get_global_epoch();
        run_clock();
        fin(false); // waits for the log
        // restart
        note("restart %d", restarts);
        {
            database_options o(database_options::open_mode::RESTORE, std::filesystem::path(log_dir()), 200, false, 2);
            o.set_index_restore_threads(static_cast<int>(R(5)));
            auto dur = lst::durable();
            CHECK_(init(o) == Status::OK, "init in restore mode fails");
            CHECK_(epoch::get_global_epoch() > static_cast<epoch::epoch_t>(dur), "the global epoch does not start beyond the last durable epoch");
            (void) last;
        }
        stop_clock();
        ++restarts;
        std::vector<std::string> l;
        CHECK_(list_storage(l) == Status::OK && l.size() == model.size(), "%zu storages are found after a restart instead of %zu", l.size(), model.size());
        std::vector<Storage> sts;
        for (auto& e : model) {
            Storage st{};
            Status rc = get_storage(e.first, st);
            CHECK_(rc == Status::OK && st == e.second.first, "after a restart the storage %s is not found or has another handle: %s", e.first.c_str(), str(rc).c_str());
            storage_option o;
            rc = storage_get_options(st, o);
            CHECK_(rc == Status::OK && o.id() == e.second.second.id() && o.payload() == e.second.second.payload(), "after a restart the options of the storage %s differ", e.first.c_str());
            sts.push_back(st);
        }
        for (tt type : {tt::SHORT, tt::LONG, tt::READ_ONLY}) {
            auto got = contents(sts, type);
            for (auto& e : recs) { CHECK_(got.count(e.first) != 0 && got[e.first] == e.second, "after a restart the record %s is %s instead of %s", q(e.first.second).c_str(), got.count(e.first) == 0 ? "missing" : q(got[e.first]).c_str(), q(e.second).c_str()); }
            for (auto& e : got) { CHECK_(recs.count(e.first) != 0, "after a restart the record %s %s exists", q(e.first.second).c_str(), q(e.second).c_str()); }
        }
        for (auto& e : seqs) {
            SequenceVersion v{};
            SequenceValue x{};
            Status rc = read_sequence(e.first, &v, &x);
            CHECK_(rc == Status::OK && v == e.second.first && x == e.second.second, "after a restart a sequence reads as %s version %zu value %lld instead of version %zu value %lld", str(rc).c_str(), v, static_cast<long long>(x), e.second.first, static_cast<long long>(e.second.second));
        }
        for (auto id : dead) {
            SequenceVersion v{};
            SequenceValue x{};
            CHECK_(read_sequence(id, &v, &x) == Status::WARN_NOT_FOUND, "after a restart a deleted sequence is found");
        }
    }
    run_clock();
    close_db();
}

// Many storages and sequences are recovered by several threads.
SCENARIO(parallel_recovery, "C20") {
    rng R(E.seed * 5 + 2);
    while (E.more(4, 40)) {
        lst::reset();
        open_db();
        std::map<rec_id, std::string> recs;
        std::map<std::string, std::pair<Storage, std::string>> model;
        std::vector<SequenceId> seqs;
        std::size_t n = 20 + R(60);
        for (std::size_t i = 0; i < n; ++i) {
            std::string name = "s" + std::to_string(i);
            storage_option o;
            o.payload("p" + std::to_string(R(1000)));
            Storage st{};
            CHECK_(create_storage(name, st, o) == Status::OK, "create_storage fails");
            model[name] = {st, std::string(o.payload())};
            auto m = R(4);
            in_tx([&](Token t) {
                for (std::uint64_t k = 0; k < m; ++k) {
                    std::string key = "k" + std::to_string(k), v = "v" + std::to_string(R(1000));
                    CHECK_(upsert(t, st, key, v) == Status::OK, "upsert fails");
                    recs[{st, key}] = v;
                }
            });
        }
        std::size_t q1 = 30 + R(200);
        Token t = drv::session();
        for (std::size_t i = 0; i < q1; ++i) {
            SequenceId id{};
            CHECK_(create_sequence(&id) == Status::OK, "create_sequence fails");
            CHECK_(tx_begin({t, tt::SHORT}) == Status::OK && update_sequence(t, id, 3, static_cast<SequenceValue>(id) - 7) == Status::OK && commit(t) == Status::OK, "update_sequence fails");
            seqs.push_back(id);
        }
        leave(t);
        fin(false);
        for (int again = 0; again < 3; ++again) {
            database_options o(database_options::open_mode::RESTORE, std::filesystem::path(log_dir()), 200, false, 2);
            o.set_index_restore_threads(2 + static_cast<int>(R(8)));
            CHECK_(init(o) == Status::OK, "init in restore mode fails");
            std::vector<Storage> sts;
            for (auto& e : model) {
                Storage st{};
                Status rc = get_storage(e.first, st);
                CHECK_(rc == Status::OK && st == e.second.first, "after a restart the storage %s is not found or has another handle: %s", e.first.c_str(), str(rc).c_str());
                storage_option so;
                CHECK_(storage_get_options(st, so) == Status::OK && so.payload() == e.second.second, "after a restart the options of the storage %s differ", e.first.c_str());
                sts.push_back(st);
            }
            auto got = contents(sts, tt::SHORT);
            CHECK_(got == recs, "after a restart %zu records exist instead of %zu, or they differ", got.size(), recs.size());
            for (auto id : seqs) {
                SequenceVersion v{};
                SequenceValue x{};
                Status rc = read_sequence(id, &v, &x);
                CHECK_(rc == Status::OK && v == 3 && x == static_cast<SequenceValue>(id) - 7, "after a restart a sequence reads as %s version %zu value %lld", str(rc).c_str(), v, static_cast<long long>(x));
            }
            fin(false);
        }
    }
}
