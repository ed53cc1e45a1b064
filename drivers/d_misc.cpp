// Sequences, storages, sessions, result information, state handles, strands,
// the worker pool, epochs and commit timestamps through the public interface.
#include "drv.h"
#include "concurrency_control/include/session.h"
#include "database/include/thread_pool.h"
#include "limestone/api/datastore.h"
#include "storage.h"
#include "index/yakushima/include/interface.h"
using namespace drv;

namespace {
void restart() {
    run_clock();
    close_db();
    open_db(database_options::open_mode::RESTORE);
    stop_clock();
}
} // namespace

// ---------------------------------------------------------------- sequences
SCENARIO(sequences, "C21") {
    struct seq {
        SequenceVersion ver{};
        SequenceValue val{};
        bool dead{};
    };
    for (int part = 0; part < 2; ++part) {
        if (part == 0) { limestone::api::stub::reset(); }
        open_db();
        stop_clock();
        rng R(E.seed * 31 + part);
        std::map<SequenceId, seq> model;
        std::set<SequenceId> ever;
        struct tx {
            Token t{};
            bool on{false};
            tt type{tt::SHORT};
            std::map<SequenceId, std::pair<SequenceVersion, SequenceValue>> w{};
        };
        std::vector<tx> txs(4);
        for (auto& x : txs) { x.t = drv::session(); }
        std::int64_t serial = 0;
        auto check = [&](const char* when) {
            for (auto id : ever) {
                SequenceVersion v{};
                SequenceValue val{};
                Status rc = read_sequence(id, &v, &val);
                auto it = model.find(id);
                if (it == model.end()) {
                    CHECK_(rc == Status::WARN_NOT_FOUND, "%s: a deleted sequence reads as %s", when, str(rc).c_str());
                    continue;
                }
                CHECK_(rc == Status::OK, "%s: reading a sequence gives %s", when, str(rc).c_str());
                CHECK_(v == it->second.ver && val == it->second.val, "%s: sequence %zu reads as version %zu value %lld, but version %zu value %lld was committed last", when, static_cast<std::size_t>(id), v, static_cast<long long>(val), it->second.ver, static_cast<long long>(it->second.val));
            }
        };
        int steps = 0;
        while (E.more(4.0 * (part + 1), 40.0 * (part + 1))) {
            ++steps;
            int what = static_cast<int>(R(12));
            if (model.size() < 3 || what == 0) {
                SequenceId id{};
                CHECK_(create_sequence(&id) == Status::OK, "create_sequence fails");
                CHECK_(ever.insert(id).second, "create_sequence returns an identifier for the second time");
                model[id] = {};
                note("create %zu", static_cast<std::size_t>(id));
            } else if (what == 1 && R(3) == 0) {
                auto it = model.begin();
                std::advance(it, R(model.size()));
                note("delete %zu", static_cast<std::size_t>(it->first));
                CHECK_(delete_sequence(it->first) == Status::OK, "delete_sequence fails");
                CHECK_(delete_sequence(it->first) == Status::WARN_NOT_FOUND, "deleting a sequence twice succeeds");
                model.erase(it);
            } else if (what == 2) {
                tick(1 + static_cast<int>(R(3)));
                note("tick");
            } else {
                auto n = R(txs.size());
                auto& x = txs[n];
                if (!x.on) {
                    x.type = R(2) ? tt::SHORT : tt::LONG;
                    note("T%d begins %s", static_cast<int>(n), x.type == tt::SHORT ? "short" : "long");
                    CHECK_(tx_begin({x.t, x.type}) == Status::OK, "tx_begin fails");
                    x.on = true;
                    x.w.clear();
                    if (x.type == tt::LONG) { tick(); }
                } else if (R(3) != 0) {
                    auto it = ever.begin();
                    std::advance(it, R(ever.size()));
                    auto m = model.find(*it);
                    SequenceVersion v = (m == model.end() ? 1 : m->second.ver) + R(3);
                    if (v == 0) { v = 1; }
                    for (auto& y : txs) {
                        for (auto& e : y.w) {
                            // the same version twice is undefined
                            if (y.on && e.first == *it && e.second.first == v && &y != &x) { ++v; }
                        }
                    }
                    SequenceValue val = ++serial;
                    auto own = x.w.find(*it);
                    Status want = own != x.w.end() && own->second.first >= v ? Status::WARN_ALREADY_EXISTS : Status::OK;
                    Status rc = update_sequence(x.t, *it, v, val);
                    note("T%d update %zu version %zu value %lld -> %s", static_cast<int>(n), static_cast<std::size_t>(*it), v, static_cast<long long>(val), str(rc).c_str());
                    CHECK_(rc == want, "update_sequence gives %s instead of %s", str(rc).c_str(), str(want).c_str());
                    if (rc == Status::OK) { x.w[*it] = {v, val}; }
                } else {
                    x.on = false;
                    if (R(4) == 0) {
                        note("T%d abort", static_cast<int>(n));
                        CHECK_(abort(x.t) == Status::OK, "abort fails");
                    } else {
                        note("T%d commit", static_cast<int>(n));
                        result r;
                        commit_to(x.t, r);
                        wait_done(r, "commit does not end");
                        CHECK_(r.rc == Status::OK, "commit fails: %s", str(r.rc).c_str());
                        for (auto& e : x.w) {
                            auto m = model.find(e.first);
                            if (m != model.end() && e.second.first > m->second.ver) { m->second = {e.second.first, e.second.second}; }
                        }
                    }
                }
            }
            check("while running");
            SequenceId no = 1000000000 + R(1000);
            SequenceVersion v{};
            SequenceValue val{};
            CHECK_(read_sequence(no, &v, &val) == Status::WARN_NOT_FOUND, "an unknown sequence is found");
            if (part == 1 && steps % 150 == 0) {
                for (auto& x : txs) {
                    if (x.on) { abort(x.t); }
                    x.on = false;
                    leave(x.t);
                }
                tick(3);
                note("restart");
                restart();
                check("after a restart");
                for (auto& x : txs) { x.t = drv::session(); }
            }
        }
        for (auto& x : txs) {
            if (x.on) { abort(x.t); }
            leave(x.t);
        }
        CHECK_(update_sequence(drv::session(), 1, 1, 1) == Status::WARN_NOT_BEGIN, "update_sequence without a transaction is not rejected");
        run_clock();
        close_db();
    }
}

// ---------------------------------------------------------------- storages
SCENARIO(storages, "C22") {
    struct sto {
        Storage h{};
        std::uint64_t id{};
        std::string pay{};
        std::map<std::string, std::string> rec{};
    };
    limestone::api::stub::reset();
    open_db();
    rng R(E.seed * 5 + 3);
    std::map<std::string, sto> model;
    std::set<Storage> handles;
    Token t = drv::session();
    auto names = [&] { return "n" + std::to_string(R(6)) + (R(4) == 0 ? std::string("\0x", 2) : std::string{}); };
    auto pay = [&] { return R(3) == 0 ? std::string{} : std::string("p\0", 2) + std::to_string(R(1000)); };
    auto check = [&] {
        std::vector<std::string> l;
        CHECK_(list_storage(l) == Status::OK, "list_storage fails");
        std::set<std::string> ls(l.begin(), l.end());
        CHECK_(ls.size() == l.size() && ls.size() == model.size(), "list_storage lists %zu names, %zu storages exist", l.size(), model.size());
        for (int i = 0; i < 6; ++i) {
            for (auto& n : {"n" + std::to_string(i), "n" + std::to_string(i) + std::string("\0x", 2)}) {
                Storage h{};
                Status rc = get_storage(n, h);
                auto it = model.find(n);
                CHECK_((ls.count(n) != 0) == (it != model.end()), "list_storage is wrong about %s", q(n).c_str());
                if (it == model.end()) {
                    CHECK_(rc == Status::WARN_NOT_FOUND, "get_storage of an unused name gives %s", str(rc).c_str());
                    continue;
                }
                CHECK_(rc == Status::OK && h == it->second.h, "get_storage of %s gives %s handle %llx instead of %llx", q(n).c_str(), str(rc).c_str(), static_cast<unsigned long long>(h), static_cast<unsigned long long>(it->second.h));
                storage_option o;
                rc = storage_get_options(h, o);
                CHECK_(rc == Status::OK, "storage_get_options gives %s", str(rc).c_str());
                CHECK_(o.id() == it->second.id && o.payload() == it->second.pay, "options of %s are %llu %s instead of %llu %s", q(n).c_str(), static_cast<unsigned long long>(o.id()), q(std::string(o.payload())).c_str(), static_cast<unsigned long long>(it->second.id), q(it->second.pay).c_str());
            }
        }
        for (auto& e : model) {
            CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "tx_begin fails");
            for (int i = 0; i < 3; ++i) {
                std::string k = "k" + std::to_string(i), v;
                Status rc = search_key(t, e.second.h, k, v);
                auto it = e.second.rec.find(k);
                CHECK_(it == e.second.rec.end() ? rc == Status::WARN_NOT_FOUND : (rc == Status::OK && v == it->second), "a storage holds a wrong record %s: %s %s", k.c_str(), str(rc).c_str(), q(v).c_str());
            }
            abort(t);
        }
    };
    int steps = 0;
    while (E.more(5, 60)) {
        ++steps;
        switch (R(8)) {
            case 0:
            case 1:
            case 2: {
                std::string n = names(), p = pay();
                storage_option o;
                o.payload(p);
                bool own = R(2) == 0;
                if (own) { o.id(R(12)); }
                bool wide = R(12) == 0;
                if (wide) { o.id((1ULL << 32U) + R(3)); }
                bool used = false;
                for (auto& e : model) { used = used || e.second.h == o.id(); }
                Storage h{};
                Status rc = create_storage(n, h, o);
                note("create %s id %llx -> %s", q(n).c_str(), static_cast<unsigned long long>(o.id()), str(rc).c_str());
                if (model.count(n) != 0) {
                    CHECK_(rc == Status::WARN_ALREADY_EXISTS, "creating a storage under the used name %s gives %s", q(n).c_str(), str(rc).c_str());
                } else if (wide) {
                    CHECK_(rc == Status::WARN_STORAGE_ID_DEPLETION, "creating a storage with an id beyond 32 bits gives %s", str(rc).c_str());
                } else if (used) {
                    CHECK_(rc == Status::WARN_ALREADY_EXISTS, "creating a storage with a used id gives %s", str(rc).c_str());
                } else {
                    CHECK_(rc == Status::OK, "create_storage gives %s", str(rc).c_str());
                    if (own) { CHECK_(h == o.id(), "the handle of a storage with a chosen id is another"); }
                    else { CHECK_(handles.insert(h).second && h > UINT32_MAX, "a generated handle is used again or collides with user ids"); }
                    model[n] = sto{h, o.id(), p, {}};
                }
                break;
            }
            case 3: {
                if (model.empty() || R(2) == 0) { break; }
                auto it = model.begin();
                std::advance(it, R(model.size()));
                note("delete %s", q(it->first).c_str());
                CHECK_(delete_storage(it->second.h) == Status::OK, "delete_storage fails");
                CHECK_(delete_storage(it->second.h) == Status::WARN_INVALID_HANDLE, "deleting a storage twice is not rejected");
                storage_option o;
                CHECK_(storage_get_options(it->second.h, o) == Status::WARN_NOT_FOUND, "a deleted storage has options");
                CHECK_(storage_set_options(it->second.h, o) == Status::WARN_NOT_FOUND, "options of a deleted storage can be set");
                CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "tx_begin fails");
                std::string v;
                CHECK_(search_key(t, it->second.h, "k0", v) == Status::WARN_STORAGE_NOT_FOUND, "a deleted storage can be read");
                CHECK_(upsert(t, it->second.h, "k0", v) == Status::WARN_STORAGE_NOT_FOUND, "a deleted storage can be written");
                abort(t);
                model.erase(it);
                break;
            }
            case 4: {
                if (model.empty()) { break; }
                auto it = model.begin();
                std::advance(it, R(model.size()));
                it->second.pay = pay();
                note("options %s", q(it->first).c_str());
                CHECK_(storage_set_options(it->second.h, {it->second.id, it->second.pay}) == Status::OK, "storage_set_options fails");
                break;
            }
            case 5:
            case 6: {
                if (model.empty()) { break; }
                auto it = model.begin();
                std::advance(it, R(model.size()));
                std::string k = "k" + std::to_string(R(3)), v = "v" + std::to_string(steps);
                in_tx([&](Token s) { CHECK_(upsert(s, it->second.h, k, v) == Status::OK, "upsert fails"); });
                it->second.rec[k] = v;
                break;
            }
            default: {
                Storage internal[] = {storage::meta_storage, storage::wp_meta_storage, storage::sequence_storage};
                Storage h = internal[R(3)];
                Status rc = delete_storage(h);
                CHECK_(rc != Status::OK, "an internal storage can be deleted");
                if (R(4) == 0) {
                    std::string big(30 * 1024 + 1, 'n');
                    CHECK_(create_storage(big, h) == Status::WARN_INVALID_KEY_LENGTH, "an oversized name is not rejected");
                    CHECK_(get_storage(big, h) == Status::WARN_INVALID_KEY_LENGTH, "an oversized name is not rejected");
                }
                SequenceId id{};
                CHECK_(create_sequence(&id) == Status::OK, "sequences stop working after the deletion of an internal storage was refused");
            }
        }
        check();
        if (steps % 200 == 0) {
            leave(t);
            stop_clock();
            tick(3);
            note("restart");
            restart();
            run_clock();
            handles.clear();
            for (auto& e : model) { handles.insert(e.second.h); }
            t = drv::session();
            check();
        }
    }
    leave(t);
    close_db();
}

// ---------------------------------------------------------------- sessions
// a session is given back only after the pending commit of its transaction
static void leave_pending(Storage st) {
    Token a = drv::session();
    Token b = drv::session();
    stop_clock();
    CHECK_(tx_begin({a, tt::LONG, {st}}) == Status::OK && tx_begin({b, tt::LONG}) == Status::OK, "tx_begin fails");
    tick(2);
    CHECK_(upsert(a, st, "a", "B") == Status::OK, "upsert fails");
    std::string v;
    CHECK_(search_key(b, st, "a", v) == Status::OK, "search_key fails");
    result ra, rb;
    CHECK_(!commit_to(b, rb), "a commit that depends on a running transaction is decided");
    std::atomic<bool> left{false}, early{false};
    std::thread th([&] {
        Status rc = leave(b);
        early = !rb.done.load();
        left = true;
        CHECK_(rc == Status::OK, "leave gives %s", str(rc).c_str());
    });
    for (int i = 0; i < 20 && !left.load(); ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
    commit_to(a, ra);
    wait_done(ra, "the commit of the older transaction is never decided");
    wait_done(rb, "the pending commit is never decided");
    for (int i = 0; i < 20000 && !left.load(); ++i) { tick(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
    CHECK_(left.load(), "leave does not return after the pending commit was decided");
    th.join();
    CHECK_(!early.load(), "leave gives the session back while the commit of its transaction is pending");
    CHECK_(leave(a) == Status::OK, "leave fails");
    run_clock();
}
SCENARIO(sessions, "C23") {
    open_db();
    rng R(E.seed + 17);
    Storage st = new_storage();
    in_tx([&](Token s) { CHECK_(upsert(s, st, "a", "A") == Status::OK, "upsert fails"); });
    for (int i = 0; i < 3; ++i) { leave_pending(st); }
    std::vector<Token> all;
    std::set<Token> seen;
    for (;;) {
        Token t{};
        Status rc = enter(t);
        if (rc == Status::ERR_SESSION_LIMIT) { break; }
        CHECK_(rc == Status::OK, "enter gives %s", str(rc).c_str());
        CHECK_(seen.insert(t).second, "one session is handed out twice");
        all.push_back(t);
        CHECK_(all.size() < 100000, "the number of sessions is not limited");
    }
    CHECK_(all.size() > 100, "only %zu sessions are available", all.size());
    CHECK_(leave(all.back()) == Status::OK, "leave fails");
    Token again{};
    CHECK_(enter(again) == Status::OK && again == all.back(), "a session returned by leave is not available");
    for (auto t : all) { CHECK_(leave(t) == Status::OK, "leave fails"); }
    // operations without a transaction
    Token t = drv::session();
    auto unbegun = [&](const char* when) {
        std::string v;
        ScanHandle h{};
        TxStateHandle hd{};
        bool b{};
        std::vector<std::pair<const char*, Status>> rs{
            {"insert", insert(t, st, "a", "x")}, {"update", update(t, st, "a", "x")}, {"upsert", upsert(t, st, "a", "x")}, {"delete_record", delete_record(t, st, "a")},
            {"search_key", search_key(t, st, "a", v)}, {"exist_key", exist_key(t, st, "a")}, {"open_scan", open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h)},
            {"next", next(t, h)}, {"read_key_from_scan", read_key_from_scan(t, h, v)}, {"read_value_from_scan", read_value_from_scan(t, h, v)}, {"close_scan", close_scan(t, h)},
            {"commit", commit(t)}, {"abort", abort(t)}, {"get_tx_id", get_tx_id(t, v)}, {"acquire_tx_state_handle", acquire_tx_state_handle(t, hd)},
            {"check_ltx_is_highest_priority", check_ltx_is_highest_priority(t, b)}, {"update_sequence", update_sequence(t, 1, 1, 1)}};
        for (auto& r : rs) { CHECK_(r.second == Status::WARN_NOT_BEGIN, "%s %s gives %s", r.first, when, str(r.second).c_str()); }
    };
    for (tt type : {tt::SHORT, tt::LONG, tt::READ_ONLY}) {
        for (int end = 0; end < 2; ++end) {
            unbegun("without a transaction");
            CHECK_(tx_begin({t, type}) == Status::OK, "tx_begin fails");
            for (tt again2 : {tt::SHORT, tt::LONG, tt::READ_ONLY}) { CHECK_(tx_begin({t, again2}) == Status::WARN_ALREADY_BEGIN, "a second begin is not rejected"); }
            if (end == 0) {
                CHECK_(abort(t) == Status::OK, "abort fails");
            } else {
                result r;
                Status rc{};
                for (int i = 0; i < 200000; ++i) {
                    std::string v;
                    rc = search_key(t, st, "a", v);
                    if (rc != Status::WARN_PREMATURE) { break; }
                    std::this_thread::sleep_for(std::chrono::microseconds(50));
                }
                CHECK_(rc == Status::OK, "search_key gives %s", str(rc).c_str());
                commit_to(t, r);
                wait_done(r, "commit does not end", false);
                CHECK_(r.rc == Status::OK, "commit gives %s", str(r.rc).c_str());
            }
            unbegun("after the end of the transaction");
        }
    }
    CHECK_(tx_begin({t, tt::SHORT, {st}}) == Status::WARN_ILLEGAL_OPERATION, "a reservation by a short transaction is not rejected");
    unbegun("after a rejected begin");
    leave(t);
    // identifiers are never given twice; sessions are held by one thread at a time
    std::mutex m;
    std::set<std::string> ids;
    std::map<Token, int> held;
    std::atomic<bool> bad{false}, dup{false};
    std::vector<std::thread> th;
    int rounds = E.thorough ? 3000 : 400;
    for (int n = 0; n < 6; ++n) {
        th.emplace_back([&, n] {
            rng r(E.seed * 100 + n);
            for (int i = 0; i < rounds; ++i) {
                Token s{};
                if (enter(s) != Status::OK) { continue; }
                {
                    std::lock_guard<std::mutex> lk{m};
                    if (++held[s] != 1) { bad = true; }
                }
                int k = 1 + static_cast<int>(r(3));
                for (int j = 0; j < k; ++j) {
                    tt type = r(3) == 0 ? tt::LONG : r(2) ? tt::SHORT : tt::READ_ONLY;
                    std::string id, id2;
                    if (tx_begin({s, type}) != Status::OK || get_tx_id(s, id) != Status::OK || get_tx_id(s, id2) != Status::OK || id != id2) { bad = true; }
                    abort(s);
                    std::lock_guard<std::mutex> lk{m};
                    if (!ids.insert(id).second) { dup = true; }
                }
                {
                    std::lock_guard<std::mutex> lk{m};
                    --held[s];
                }
                if (leave(s) != Status::OK) { bad = true; }
            }
        });
    }
    for (auto& x : th) { x.join(); }
    CHECK_(!bad, "a session is handed out to two holders at a time");
    CHECK_(!dup, "a transaction identifier is given twice");
    close_db();
}

// ---------------------------------------------------------------- result info
SCENARIO(reasons, "C25") {
    open_db();
    stop_clock();
    rng R(E.seed + 3);
    Storage a = new_storage(), b = new_storage();
    in_tx([&](Token s) {
        for (auto k : {"k1", "k2", "k3"}) {
            upsert(s, a, k, "0");
            upsert(s, b, k, "0");
        }
    });
    tick(3);
    Token t = drv::session(), u = drv::session(), w = drv::session();
    auto name = [](Storage s) {
        std::vector<std::string> l;
        list_storage(l);
        for (auto& n : l) {
            Storage h{};
            if (get_storage(n, h) == Status::OK && h == s) { return n; }
        }
        return std::string("?");
    };
    auto expect = [&](Token s, reason_code rc, const char* what, Storage st, const std::string& key, bool has_key) {
        auto ri = transaction_result_info(s);
        CHECK_(ri != nullptr, "%s: no result information", what);
        CHECK_(ri->get_reason_code() == rc, "%s: the reason is reported as %s", what, std::string(to_string_view(ri->get_reason_code())).c_str());
        if (has_key) { CHECK_(ri->get_has_storage_name_info() && ri->get_has_key_info(), "%s: key and storage are not given", what); }
        if (st != 0 && ri->get_has_storage_name_info()) {
            CHECK_(ri->get_storage_name() == name(st), "%s: the storage is reported as %s, not %s", what, std::string(ri->get_storage_name()).c_str(), name(st).c_str());
        }
        if (ri->get_has_key_info()) { CHECK_(ri->get_key() == key, "%s: the key is reported as %s, not %s", what, q(std::string(ri->get_key())).c_str(), q(key).c_str()); }
    };
    auto fresh = [&](Token s) {
        auto ri = transaction_result_info(s);
        CHECK_(ri->get_reason_code() == reason_code::UNKNOWN && !ri->get_has_key_info() && !ri->get_has_storage_name_info(), "a new transaction starts with the result information of an old one");
    };
    while (E.more(4, 40)) {
        Storage st = R(2) ? a : b, other = st == a ? b : a;
        std::string k = "k" + std::to_string(1 + R(3)), v;
        switch (R(8)) {
            case 0: { // a read that was overtaken
                note("read verify");
                CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "begin");
                fresh(t);
                CHECK_(search_key(t, st, k, v) == Status::OK, "search");
                upsert(t, other, "k1", "x");
                CHECK_(tx_begin({u, tt::SHORT}) == Status::OK, "begin");
                upsert(u, st, k, "1");
                CHECK_(commit(u) == Status::OK, "commit");
                Status rc = commit(t);
                CHECK_(rc == Status::ERR_CC, "an overtaken read commits: %s", str(rc).c_str());
                expect(t, reason_code::CC_OCC_READ_VERIFY, "overtaken read", st, k, true);
                CHECK_(commit(t) == Status::WARN_NOT_BEGIN, "commit");
                expect(t, reason_code::CC_OCC_READ_VERIFY, "overtaken read (later)", st, k, true);
                break;
            }
            case 1: { // phantom
                note("phantom");
                CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "begin");
                fresh(t);
                ScanHandle h{};
                CHECK_(open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h) == Status::OK, "scan");
                do { read_key_from_scan(t, h, v); } while (next(t, h) == Status::OK);
                std::string nk = "p" + std::to_string(R.next());
                CHECK_(tx_begin({u, tt::SHORT}) == Status::OK, "begin");
                CHECK_(insert(u, st, nk, "1") == Status::OK, "insert");
                CHECK_(commit(u) == Status::OK, "commit");
                Status rc = commit(t);
                CHECK_(rc == Status::ERR_CC, "a phantom commits: %s", str(rc).c_str());
                expect(t, reason_code::CC_OCC_PHANTOM_AVOIDANCE, "phantom", 0, "", false);
                break;
            }
            case 2: { // reservation
                note("reservation");
                CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "begin");
                fresh(t);
                CHECK_(search_key(t, st, k, v) == Status::OK, "search");
                CHECK_(tx_begin({w, tt::LONG, {st}}) == Status::OK, "begin long");
                tick();
                Status rc = commit(t);
                CHECK_(rc == Status::ERR_CC, "a read of a reserved storage commits: %s", str(rc).c_str());
                expect(t, reason_code::CC_OCC_WP_VERIFY, "reservation", st, k, false);
                CHECK_(abort(w) == Status::OK, "abort");
                expect(w, reason_code::USER_ABORT, "abort", 0, "", false);
                break;
            }
            case 3: { // read area
                note("read area");
                tick(2);
                transaction_options o(w, tt::LONG);
                o.set_read_area({{other}, {}});
                CHECK_(tx_begin(o) == Status::OK, "begin long");
                fresh(w);
                tick();
                Status rc = R(2) ? search_key(w, st, k, v) : exist_key(w, st, k);
                CHECK_(rc == Status::ERR_READ_AREA_VIOLATION, "a read outside the read area gives %s", str(rc).c_str());
                expect(w, reason_code::CC_LTX_READ_AREA_VIOLATION, "read area", st, k, false);
                break;
            }
            case 4: { // user abort
                note("user abort");
                CHECK_(tx_begin({t, R(2) ? tt::SHORT : tt::READ_ONLY}) == Status::OK, "begin");
                fresh(t);
                CHECK_(abort(t) == Status::OK, "abort");
                expect(t, reason_code::USER_ABORT, "user abort", 0, "", false);
                break;
            }
            case 5: { // a long transaction against a committed short read
                note("committed read");
                tick(2);
                CHECK_(tx_begin({u, tt::LONG, {other}}) == Status::OK, "begin long");
                tick(2);
                CHECK_(tx_begin({w, tt::LONG, {st}}) == Status::OK, "begin long");
                fresh(w);
                tick(2);
                // w reads what u is going to write, another short transaction commits a read of w's storage: w can not move before u
                CHECK_(search_key(w, other, k, v) == Status::OK, "search");
                CHECK_(upsert(u, other, k, "2") == Status::OK, "upsert");
                CHECK_(upsert(w, st, k, "3") == Status::OK, "upsert");
                result r1, r2;
                commit_to(u, r1);
                wait_done(r1, "commit of the first long transaction");
                CHECK_(r1.rc == Status::OK, "the first long transaction fails: %s", str(r1.rc).c_str());
                commit_to(w, r2);
                wait_done(r2, "commit of the second long transaction");
                CHECK_(r2.rc == Status::OK || r2.rc == Status::ERR_CC, "commit gives %s", str(r2.rc).c_str());
                if (r2.rc != Status::OK) {
                    CHECK_(transaction_result_info(w)->get_reason_code() == r2.why, "the callback reports another reason than the result information");
                    CHECK_(r2.why == reason_code::CC_LTX_READ_UPPER_BOUND_VIOLATION || r2.why == reason_code::CC_LTX_WRITE_COMMITTED_READ_PROTECTION || r2.why == reason_code::CC_LTX_PHANTOM_AVOIDANCE, "wrong reason %s", std::string(to_string_view(r2.why)).c_str());
                }
                break;
            }
            case 6: { // the record is gone, or has come into being, at commit
                bool del = R(2), ins = R(3) == 0;
                note("key-value error");
                std::string nk = ins ? "n" + std::to_string(R.next()) : k;
                CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "begin");
                fresh(t);
                Status rc = ins ? insert(t, st, nk, "1") : del ? delete_record(t, st, k) : update(t, st, k, "1");
                CHECK_(rc == Status::OK, "write gives %s", str(rc).c_str());
                CHECK_(tx_begin({u, tt::SHORT}) == Status::OK, "begin");
                rc = ins ? upsert(u, st, nk, "2") : delete_record(u, st, k);
                CHECK_(rc == Status::OK, "write gives %s", str(rc).c_str());
                CHECK_(commit(u) == Status::OK, "commit");
                rc = commit(t);
                CHECK_(rc == Status::ERR_KVS, "a write whose condition does not hold any more commits: %s", str(rc).c_str());
                expect(t, ins ? reason_code::KVS_INSERT : del ? reason_code::KVS_DELETE : reason_code::KVS_UPDATE, "key-value error", st, nk, true);
                in_tx([&](Token s) { upsert(s, st, nk, "0"); });
                break;
            }
            default: { // success clears nothing it should not and reports no reason
                note("insert twice");
                CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "begin");
                fresh(t);
                CHECK_(insert(t, st, k, "1") == Status::WARN_ALREADY_EXISTS, "insert of an existing key");
                result r;
                commit_to(t, r);
                wait_done(r, "commit");
                if (r.rc == Status::OK) {
                    CHECK_(r.why == reason_code::UNKNOWN, "a reason is reported for a success");
                } else {
                    CHECK_(r.why == transaction_result_info(t)->get_reason_code(), "the callback reports another reason than the result information");
                }
            }
        }
        tick();
    }
    run_clock();
    close_db();
}

// ---------------------------------------------------------------- state handles
SCENARIO(states, "C26") {
    open_db();
    stop_clock();
    rng R(E.seed + 29);
    Storage st = new_storage();
    tick(2);
    using K = TxState::StateKind;
    struct tx {
        Token t{};
        tt type{};
        TxStateHandle h{};
        bool have{}, on{};
        int phase{}; // rank of the last reported state
        result r{};
        bool committing{}, failed{};
    };
    auto rank = [](K k) {
        switch (k) {
            case K::WAITING_START: return 0;
            case K::STARTED: return 1;
            case K::WAITING_CC_COMMIT: return 2;
            case K::WAITING_DURABLE: return 3;
            case K::DURABLE: return 4;
            case K::ABORTED: return 5;
            default: return -1;
        }
    };
    std::set<TxStateHandle> released;
    std::set<TxStateHandle> issued;
    while (E.more(5, 40)) {
        std::vector<std::unique_ptr<tx>> txs;
        for (int i = 0; i < 4; ++i) {
            txs.push_back(std::make_unique<tx>());
            auto& x = *txs.back();
            x.t = drv::session();
            x.type = R(2) ? tt::LONG : R(2) ? tt::SHORT : tt::READ_ONLY;
            transaction_options o(x.t, x.type);
            if (x.type == tt::LONG) { o.set_write_preserve({st}); }
            CHECK_(tx_begin(o) == Status::OK, "tx_begin fails");
            x.on = true;
            Status rc = acquire_tx_state_handle(x.t, x.h);
            CHECK_(rc == Status::OK, "acquire gives %s", str(rc).c_str());
            CHECK_(issued.insert(x.h).second, "a state handle in use is issued again");
            released.erase(x.h);
            TxStateHandle h2{};
            CHECK_(acquire_tx_state_handle(x.t, h2) == Status::WARN_ALREADY_EXISTS && h2 == x.h, "a second acquire does not return the handle");
            x.have = true;
            TxState s;
            CHECK_(check_tx_state(x.h, s) == Status::OK, "check_tx_state fails");
            CHECK_(s.state_kind() == (x.type == tt::SHORT ? K::STARTED : K::WAITING_START), "a begun transaction is reported as %s", std::string(to_string_view(s.state_kind())).c_str());
            x.phase = rank(s.state_kind());
        }
        int steps = 10 + static_cast<int>(R(20));
        for (int n = 0; n < steps; ++n) {
            auto& x = *txs[R(txs.size())];
            switch (R(4)) {
                case 0: tick(1); break;
                case 1:
                    if (x.on && !x.committing) {
                        TxState s;
                        if (x.have && x.type != tt::SHORT) { check_tx_state(x.h, s); }
                        std::string v;
                        Status rc = x.type == tt::LONG ? upsert(x.t, st, "k", "v") : search_key(x.t, st, "k", v);
                        if (x.type != tt::SHORT && x.have && s.state_kind() == K::STARTED) {
                            CHECK_(rc != Status::WARN_PREMATURE, "a transaction reported as started may not start yet");
                        }
                        if (x.have && rc == Status::OK && x.type != tt::SHORT) {
                            CHECK_(check_tx_state(x.h, s) == Status::OK && s.state_kind() == K::STARTED, "a transaction that works is reported as %s", std::string(to_string_view(s.state_kind())).c_str());
                        }
                        if (rc == Status::ERR_CC) { x.on = false; x.failed = true; }
                    }
                    break;
                case 2:
                    if (!x.on || x.committing || R(2)) { break; }
                    if (R(3) == 0) {
                        CHECK_(abort(x.t) == Status::OK, "abort fails");
                        x.on = false;
                        x.failed = true;
                    } else {
                        bool now = commit_to(x.t, x.r);
                        if (now && x.r.rc == Status::WARN_PREMATURE) {
                            x.r.done = false;
                            x.r.calls = 0;
                            break;
                        }
                        if (!now) {
                            x.committing = true;
                            TxState s;
                            if (x.have) { CHECK_(check_tx_state(x.h, s) == Status::OK && (s.state_kind() == K::WAITING_CC_COMMIT || x.r.done), "a waiting transaction is reported as %s", std::string(to_string_view(s.state_kind())).c_str()); }
                        } else {
                            x.on = false;
                            x.failed = x.r.rc != Status::OK;
                        }
                    }
                    break;
                default:
                    if (x.have && R(6) == 0) {
                        CHECK_(release_tx_state_handle(x.h) == Status::OK, "release fails");
                        x.have = false;
                        released.insert(x.h);
                        issued.erase(x.h);
                    }
            }
            for (auto& y : txs) {
                if (y->committing && y->r.done) {
                    y->committing = false;
                    y->on = false;
                    y->failed = y->r.rc != Status::OK;
                }
            }
            for (auto& y : txs) {
                if (!y->have) { continue; }
                bool was_on = y->on, was_c = y->committing;
                TxState s;
                CHECK_(check_tx_state(y->h, s) == Status::OK, "a valid state handle is rejected");
                int k = rank(s.state_kind());
                CHECK_(k >= y->phase, "the reported state goes back from %d to %s", y->phase, std::string(to_string_view(s.state_kind())).c_str());
                y->phase = k;
                if (y->failed) { CHECK_(k == 5, "an aborted transaction is reported as %s", std::string(to_string_view(s.state_kind())).c_str()); }
                else if (!was_on) { CHECK_(k == 3 || k == 4, "a committed transaction is reported as %s", std::string(to_string_view(s.state_kind())).c_str()); }
                else if (!was_c) { CHECK_(k <= 1, "a running transaction is reported as %s", std::string(to_string_view(s.state_kind())).c_str()); }
                else { CHECK_(k >= 2, "a transaction waiting for its commit is reported as %s", std::string(to_string_view(s.state_kind())).c_str()); }
            }
            for (auto h : released) {
                TxState s;
                CHECK_(check_tx_state(h, s) == Status::WARN_INVALID_HANDLE, "a released handle is accepted");
                CHECK_(release_tx_state_handle(h) == Status::WARN_INVALID_HANDLE, "a handle can be released twice");
            }
            TxState s;
            CHECK_(check_tx_state(1ULL << 60U, s) == Status::WARN_INVALID_HANDLE, "a handle that was never issued is accepted");
            CHECK_(check_tx_state(0, s) == Status::WARN_INVALID_HANDLE, "the undefined handle is accepted");
        }
        for (auto& x : txs) {
            if (x->on && !x->committing) {
                abort(x->t);
                x->on = false;
            }
        }
        for (auto& x : txs) {
            if (x->committing) { wait_done(x->r, "a waiting commit does not end"); }
        }
        tick(3);
        for (auto& x : txs) {
            if (x->have) {
                TxState s;
                CHECK_(check_tx_state(x->h, s) == Status::OK, "a valid state handle is rejected");
                if (s.state_kind() != K::ABORTED) { CHECK_(s.state_kind() == K::DURABLE, "a transaction committed epochs ago is reported as %s", std::string(to_string_view(s.state_kind())).c_str()); }
                CHECK_(release_tx_state_handle(x->h) == Status::OK, "release fails");
                released.insert(x->h);
                issued.erase(x->h);
            }
            leave(x->t);
        }
    }
    run_clock();
    close_db();
}

// ---------------------------------------------------------------- strands
SCENARIO(strands, "C27") {
    open_db();
    rng R(E.seed + 41);
    Storage st = new_storage();
    Token t = drv::session();
    int round = 0;
    std::map<std::string, std::string> model;
    while (E.more(6, 60)) {
        ++round;
        tt type = R(3) == 0 ? tt::LONG : tt::SHORT;
        CHECK_(tx_begin(type == tt::LONG ? transaction_options(t, type, {st}) : transaction_options(t, type)) == Status::OK, "tx_begin fails");
        if (type == tt::LONG) {
            for (int i = 0; i < 200000; ++i) {
                std::string v;
                if (search_key(t, st, "warm", v) != Status::WARN_PREMATURE) { break; }
                std::this_thread::sleep_for(std::chrono::microseconds(50));
            }
        }
        // short transactions that scan may fail when records are inserted besides
        bool scans = type == tt::LONG || R(2) == 0;
        bool inserts = type == tt::LONG || !scans;
        std::atomic<int> bad{0};
        std::atomic<bool> lost{false};
        std::vector<std::thread> th;
        const int N = 4;
        std::vector<std::map<std::string, std::string>> add(N);
        std::string shared_key = "s" + std::to_string(R(3)), fresh = "f" + std::to_string(round);
        bool have_shared = model.count(shared_key) != 0;
        std::atomic<int> inserted{0};
        for (int n = 0; n < N; ++n) {
            th.emplace_back([&, n] {
                rng r(E.seed * 1000 + round * 10 + n);
                auto& mine = add[n];
                auto gone = [&](Status rc) {
                    if (rc == Status::ERR_CC || rc == Status::WARN_NOT_BEGIN) {
                        lost = true;
                        auto ri = transaction_result_info(t);
                        note("an operation of thread %d gives %s, reason %s", n, str(rc).c_str(), std::string(to_string_view(ri->get_reason_code())).c_str());
                    }
                    return lost.load();
                };
                auto known = [&](const std::string& k) -> std::string {
                    auto it = mine.find(k);
                    if (it != mine.end()) { return it->second; }
                    auto m = model.find(k);
                    return m == model.end() ? "-" : m->second;
                };
                for (int i = 0; i < 12; ++i) {
                    std::string k = std::to_string(n) + "_" + std::to_string(r(12)), v = std::to_string(round) + "v" + std::to_string(i), got;
                    if (inserts || known(k) != "-") {
                        Status rc = upsert(t, st, k, v);
                        if (gone(rc)) { return; }
                        if (rc != Status::OK) { bad = 1; return; }
                        mine[k] = v;
                    }
                    Status rc = search_key(t, st, k, got);
                    if (gone(rc)) { return; }
                    if (known(k) == "-" ? rc != Status::WARN_NOT_FOUND : (rc != Status::OK || got != known(k))) { bad = 2; return; }
                    if (known(k) != "-" && r(3) == 0) {
                        rc = update(t, st, k, v + "u");
                        if (gone(rc)) { return; }
                        if (rc != Status::OK) { bad = 3; return; }
                        mine[k] = v + "u";
                    }
                    if (have_shared) {
                        rc = update(t, st, shared_key, std::string(1 + r(60), static_cast<char>('a' + n)));
                        if (gone(rc)) { return; }
                        if (rc != Status::OK) { bad = 6; return; }
                        rc = search_key(t, st, shared_key, got);
                        if (gone(rc)) { return; }
                        if (rc != Status::OK || got.empty() || got.find_first_not_of(got[0]) != std::string::npos) { bad = 7; return; }
                    }
                    if (scans && r(3) == 0) {
                        ScanHandle h{};
                        rc = open_scan(t, st, std::to_string(n) + "_", scan_endpoint::INCLUSIVE, std::to_string(n) + "_z", scan_endpoint::INCLUSIVE, h);
                        if (gone(rc)) { return; }
                        std::map<std::string, std::string> want;
                        for (auto& e : model) {
                            if (e.first[0] - '0' == n) { want.insert(e); }
                        }
                        for (auto& e : mine) { want[e.first] = e.second; }
                        std::size_t c = 0;
                        if (rc == Status::OK) {
                            do {
                                std::string w;
                                rc = read_key_from_scan(t, h, got);
                                if (gone(rc)) { return; }
                                if (rc == Status::WARN_NOT_FOUND) { continue; }
                                rc = read_value_from_scan(t, h, w);
                                if (gone(rc)) { return; }
                                if (want.count(got) == 0 || want[got] != w) {
                                    note("thread %d finds %s %s (%s)", n, q(got).c_str(), q(w).c_str(), want.count(got) == 0 ? "-" : want[got].c_str());
                                    bad = 5;
                                    return;
                                }
                                ++c;
                            } while ((rc = next(t, h)) == Status::OK);
                            if (gone(rc)) { return; }
                            rc = close_scan(t, h);
                            if (gone(rc)) { return; }
                        }
                        if (c != want.size()) { bad = 8; return; }
                    }
                }
                if (inserts) {
                    Status rc = insert(t, st, fresh, std::to_string(n));
                    if (gone(rc)) { return; }
                    if (rc == Status::OK) { ++inserted; }
                    else if (rc != Status::WARN_ALREADY_EXISTS && rc != Status::WARN_CONCURRENT_INSERT) { bad = 4; }
                }
            });
        }
        for (auto& x : th) { x.join(); }
        CHECK_(bad == 0, "an operation of one of several threads in a transaction goes wrong (%d)", bad.load());
        // an aborted insertion leaves work for the collector, which may make later scans fail
        bool go = inserts || R(4) != 0;
        note("round %d %s lost %d go %d", round, type == tt::LONG ? "long" : "short", static_cast<int>(lost), static_cast<int>(go));
        CHECK_(!lost, "a transaction that has no competitor fails when it is used by several threads");
        CHECK_(inserted == (inserts ? 1 : 0), "%d threads of a transaction inserted the same key", inserted.load());
        if (!go) {
            CHECK_(abort(t) == Status::OK, "abort fails");
        } else {
            result r;
            commit_to(t, r);
            wait_done(r, "commit does not end", false);
            note("commit gives %s", str(r.rc).c_str());
            if (r.rc == Status::OK) {
                for (auto& a : add) {
                    for (auto& e : a) { model[e.first] = e.second; }
                }
                if (inserts) { model[fresh] = "?"; }
                if (have_shared) { model[shared_key] = "?"; }
            } else {
                CHECK_(type == tt::SHORT, "a lone long transaction fails to commit: %s", str(r.rc).c_str());
            }
        }
        if (model.count(shared_key) == 0) {
            in_tx([&](Token s) { upsert(s, st, shared_key, "a"); });
            model[shared_key] = "?";
        }
        for (int i = 0; i < 100; ++i) {
            CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "tx_begin fails");
            std::size_t n = 0;
            ScanHandle h{};
            Status rc = open_scan(t, st, "", scan_endpoint::INF, "", scan_endpoint::INF, h);
            if (rc == Status::OK) {
                do {
                    std::string k, v;
                    rc = read_key_from_scan(t, h, k);
                    if (rc == Status::WARN_NOT_FOUND) { continue; }
                    if (rc != Status::OK) { break; }
                    read_value_from_scan(t, h, v);
                    auto it = model.find(k);
                    CHECK_(it != model.end(), "%s is found although it was not committed", q(k).c_str());
                    CHECK_(it->second == "?" || it->second == v, "%s is %s instead of %s after several threads wrote", q(k).c_str(), q(v).c_str(), q(it->second).c_str());
                    ++n;
                } while (next(t, h) == Status::OK);
            }
            if (commit(t) != Status::OK) { continue; }
            CHECK_(n == model.size(), "%zu records are found instead of %zu after several threads wrote", n, model.size());
            break;
        }
    }
    leave(t);
    // reads and updates racing with the end of their transaction
    in_tx([&](Token s) { upsert(s, st, "x", "0"); });
    for (int i = 0; i < (E.thorough ? 4000 : 600); ++i) {
        Token s = drv::session();
        CHECK_(tx_begin({s, tt::SHORT}) == Status::OK, "tx_begin fails");
        std::atomic<bool> go{false};
        std::atomic<int> ok{0};
        std::string val = "r" + std::to_string(i);
        Status up{};
        std::thread a([&] {
            while (!go) { _mm_pause(); }
            up = update(s, st, "x", val);
        });
        std::thread b([&] {
            while (!go) { _mm_pause(); }
            if (abort(s) == Status::OK) { ++ok; }
        });
        std::thread c([&] {
            while (!go) { _mm_pause(); }
            if (abort(s) == Status::OK) { ++ok; }
        });
        go = true;
        a.join();
        b.join();
        c.join();
        CHECK_(ok == 1, "a transaction is terminated %d times", ok.load());
        CHECK_(up == Status::OK || up == Status::WARN_NOT_BEGIN, "an update racing with abort gives %s", str(up).c_str());
        std::string v;
        in_tx([&](Token r) { CHECK_(search_key(r, st, "x", v) == Status::OK, "search fails"); });
        CHECK_(v == "0", "an update of an aborted transaction is visible");
        leave(s);
    }
    close_db();
}

// ---------------------------------------------------------------- worker pool
SCENARIO(pool, "C28") {
    rng R(E.seed + 53);
    alignas(64) static char tasks[4096];
    FLAGS_minloglevel = 0;
    FLAGS_logtostderr = true;
    int keep = dup(2);
    FILE* nul = std::freopen("/dev/null", "w", stderr);
    (void) nul;
    (void) keep;
    while (E.more(5, 40)) {
        std::size_t workers = 1 + R(6);
        auto before = google::LogMessage::num_messages(google::GLOG_INFO);
        thread_pool::init(workers);
        int n = static_cast<int>(R(400));
        std::vector<std::thread> th;
        for (int p = 0; p < 3; ++p) {
            th.emplace_back([&] {
                for (int i = 0; i < n; ++i) { thread_pool::push_task_queue(reinterpret_cast<thread_task*>(&tasks[i % 4096])); }
            });
        }
        for (auto& x : th) { x.join(); }
        if (R(2)) { std::this_thread::sleep_for(std::chrono::microseconds(R(500))); }
        if (R(3) == 0) {
            // the workers stay while the pool runs
            auto t = std::chrono::steady_clock::now();
            while (!thread_pool::get_task_queue().empty()) { CHECK_(std::chrono::steady_clock::now() - t < std::chrono::seconds(20), "tasks are not taken"); }
            thread_pool::push_task_queue(reinterpret_cast<thread_task*>(&tasks[0]));
            t = std::chrono::steady_clock::now();
            while (!thread_pool::get_task_queue().empty()) { CHECK_(std::chrono::steady_clock::now() - t < std::chrono::seconds(20), "a task handed to the running pool is not taken"); }
            ++before;
        }
        thread_pool::fin();
        CHECK_(thread_pool::get_task_queue().empty(), "tasks are left after shutdown");
        auto done = google::LogMessage::num_messages(google::GLOG_INFO) - before;
        CHECK_(done == 3LL * n, "%lld of %d tasks were executed", static_cast<long long>(done), 3 * n);
    }
}

// ---------------------------------------------------------------- epochs
SCENARIO(epochs, "C17") {
    open_db();
    rng R(E.seed + 61);
    Storage st = new_storage();
    std::atomic<bool> stop{false};
    std::atomic<int> bad{0};
    std::vector<std::thread> th;
    th.emplace_back([&] {
        epoch::epoch_t last = epoch::get_global_epoch(), ss = epoch::get_cc_safe_ss_epoch();
        while (!stop) {
            auto s = epoch::get_cc_safe_ss_epoch();
            auto e = epoch::get_global_epoch();
            if (e < last) { bad = 1; }
            if (s < ss) { bad = 2; }
            if (s > e + 1) { bad = 3; }
            last = e;
            ss = s;
        }
    });
    for (int n = 0; n < 3; ++n) {
        th.emplace_back([&, n] {
            rng r(E.seed * 7 + n);
            Token t = drv::session();
            while (!stop) {
                tx_begin({t, tt::SHORT});
                std::string k = std::to_string(r(5)), v;
                upsert(t, st, k, std::to_string(r.next()));
                commit(t);
                if (r(4) == 0) { std::this_thread::sleep_for(std::chrono::microseconds(r(300))); }
            }
            leave(t);
        });
    }
    // a snapshot must not change: what is read once is read again, while long
    // transactions write with their old epochs
    for (int n = 0; n < 2; ++n) {
        th.emplace_back([&] {
            Token t = drv::session();
            while (!stop) {
                tx_begin({t, tt::READ_ONLY});
                std::map<std::string, std::string> first;
                for (int pass = 0; pass < 6 && !stop; ++pass) {
                    for (int i = 0; i < 5; ++i) {
                        std::string k = std::to_string(i), v;
                        Status rc = search_key(t, st, k, v);
                        if (rc == Status::WARN_PREMATURE) { --pass; std::this_thread::sleep_for(std::chrono::microseconds(50)); break; }
                        if (rc != Status::OK) { v = "-"; }
                        auto it = first.find(k);
                        if (it == first.end()) { first[k] = v; }
                        else if (it->second != v) { bad = 4; }
                    }
                    std::this_thread::sleep_for(std::chrono::microseconds(200));
                }
                commit(t);
            }
            leave(t);
        });
    }
    for (int n = 0; n < 2; ++n) {
        th.emplace_back([&, n] {
            rng r(E.seed * 13 + n);
            Token t = drv::session();
            while (!stop) {
                tx_begin({t, tt::LONG, {st}});
                auto* ti = static_cast<shirakami::session*>(t);
                for (int i = 0; i < 3; ++i) {
                    std::this_thread::sleep_for(std::chrono::microseconds(r(800)));
                    upsert(t, st, std::to_string(r(5)), std::to_string(r.next()));
                    if (epoch::get_cc_safe_ss_epoch() > ti->get_valid_epoch()) { bad = 5; }
                }
                result res;
                for (;;) {
                    if (commit_to(t, res) && res.rc == Status::WARN_PREMATURE) { res.done = false; continue; }
                    break;
                }
                auto w = std::chrono::steady_clock::now();
                while (!res.done) {
                    if (std::chrono::steady_clock::now() - w > std::chrono::seconds(30)) { bad = 6; break; }
                    std::this_thread::sleep_for(std::chrono::microseconds(50));
                }
            }
            leave(t);
        });
    }
    while (E.more(6, 60)) { std::this_thread::sleep_for(std::chrono::milliseconds(20)); }
    stop = true;
    for (auto& x : th) { x.join(); }
    const char* const what[] = {"", "the global epoch decreases", "the snapshot epoch decreases", "the snapshot epoch lies beyond the global epoch", "a read-only snapshot changes while it is read", "the snapshot epoch lies beyond an undecided long transaction", "a long transaction never ends"};
    CHECK_(bad == 0, "%s", what[bad.load()]);
    // one at a time
    stop_clock();
    for (int i = 0; i < 20; ++i) {
        auto e = epoch::get_global_epoch();
        tick(1);
        CHECK_(epoch::get_global_epoch() == e + 1, "one step of the clock moves the epoch by %lld", static_cast<long long>(epoch::get_global_epoch() - e));
    }
    run_clock();
    close_db();
}

// ---------------------------------------------------------------- timestamps
SCENARIO(timestamps, "C04") {
    open_db();
    stop_clock();
    rng R(E.seed + 71);
    Storage st = new_storage();
    const int keys = 6, sessions = 4;
    std::vector<Token> ts;
    std::vector<tid_word> last(sessions);
    for (int i = 0; i < sessions; ++i) { ts.push_back(drv::session()); }
    auto rec = [&](const std::string& k) {
        Record* r{};
        return get<Record>(st, k, r) == Status::OK ? r : nullptr;
    };
    auto less = [](tid_word a, tid_word b) { return a.get_epoch() < b.get_epoch() || (a.get_epoch() == b.get_epoch() && a.get_tid() < b.get_tid()); };
    while (E.more(5, 50)) {
        int n = static_cast<int>(R(sessions));
        Token t = ts[n];
        auto* ti = static_cast<shirakami::session*>(t);
        CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "tx_begin fails");
        std::vector<std::pair<std::string, tid_word>> seen;
        std::set<std::string> wrote;
        int ops = 1 + static_cast<int>(R(5));
        for (int i = 0; i < ops; ++i) {
            std::string k = "k" + std::to_string(R(keys)), v;
            int what = static_cast<int>(R(4));
            Record* r = rec(k);
            if (r != nullptr && !r->get_tidw_ref().get_absent()) { seen.emplace_back(k, r->get_tidw_ref()); }
            if (what == 0) {
                search_key(t, st, k, v);
            } else if (what == 1) {
                Status rc = delete_record(t, st, k);
                if (rc == Status::OK) { wrote.insert(k); }
                if (rc == Status::WARN_CANCEL_PREVIOUS_INSERT || rc == Status::WARN_CANCEL_PREVIOUS_UPSERT) { wrote.erase(k); }
            } else if (what == 2) {
                if (insert(t, st, k, "i") == Status::OK) { wrote.insert(k); }
            } else {
                if (upsert(t, st, k, "u") == Status::OK) { wrote.insert(k); }
            }
        }
        auto e = epoch::get_global_epoch();
        Status rc = commit(t);
        if (rc != Status::OK) { continue; }
        tid_word ct = ti->get_mrc_tid();
        if (!wrote.empty()) {
            for (auto& s : seen) { CHECK_(less(s.second, ct), "a transaction's timestamp is not greater than that of the version of %s it read or overwrote", s.first.c_str()); }
            CHECK_(less(last[n], ct), "a session's timestamps do not increase");
            CHECK_(ct.get_epoch() == e, "the epoch of a timestamp is not the global epoch of its commit");
            last[n] = ct;
            for (auto& k : wrote) {
                Record* r = rec(k);
                if (r == nullptr) { continue; }
                tid_word w = r->get_tidw_ref();
                CHECK_(w.get_epoch() == ct.get_epoch() && w.get_tid() == ct.get_tid(), "the record %s of a committed transaction carries another timestamp (%llu.%llu, not %llu.%llu)", k.c_str(), static_cast<unsigned long long>(w.get_epoch()), static_cast<unsigned long long>(w.get_tid()), static_cast<unsigned long long>(ct.get_epoch()), static_cast<unsigned long long>(ct.get_tid()));
                CHECK_(!w.get_lock(), "the record %s stays locked", k.c_str());
            }
        }
        if (R(6) == 0) { tick(1); }
    }
    for (auto t : ts) { leave(t); }
    run_clock();
    close_db();
}

// reservations as other transactions see them: a write of a short transaction
// conflicts exactly while a running long transaction reserved the storage
SCENARIO(reservations, "C12") {
    open_db();
    stop_clock();
    rng R(E.seed * 5 + 3);
    constexpr int NS = 4;
    std::vector<Storage> st;
    for (int i = 0; i < NS; ++i) { st.push_back(new_storage()); }
    Storage gone = new_storage();
    CHECK_(delete_storage(gone) == Status::OK, "delete_storage fails");
    struct ltx {
        Token t{};
        bool live{false};
        std::set<int> res;
        std::set<int> wrote;
    };
    std::vector<ltx> L(5);
    for (auto& l : L) { l.t = drv::session(); }
    Token s = drv::session();
    std::size_t fresh = 0;
    auto look = [&](const char* when) {
        for (int i = 0; i < NS; ++i) {
            bool res = false;
            for (auto& l : L) { res |= l.live && l.res.count(i) != 0; }
            CHECK_(tx_begin({s, tt::SHORT}) == Status::OK, "tx_begin fails");
            Status rc = insert(s, st[i], "n" + std::to_string(fresh++), "v");
            CHECK_(!res || rc == Status::WARN_CONFLICT_ON_WRITE_PRESERVE, "%s: a write to storage %d, which is reserved, gives %s", when, i, str(rc).c_str());
            CHECK_(res || rc == Status::OK, "%s: a write to storage %d, which nobody reserves, gives %s", when, i, str(rc).c_str());
            if (rc == Status::OK) { rc = commit(s); CHECK_(rc == Status::OK, "%s: commit of a write to storage %d gives %s", when, i, str(rc).c_str()); } else { abort(s); }
        }
    };
    std::size_t begun = 0, refused = 0, ended = 0;
    for (int step = 0; step < 60 || E.more(3, 30); ++step) {
        auto& l = L[R(L.size())];
        if (!l.live) {
            transaction_options::write_preserve_type wp;
            std::set<int> res;
            int n = static_cast<int>(R(4));
            for (int i = 0; i < n; ++i) {
                int x = static_cast<int>(R(NS));
                res.insert(x);
                wp.push_back(st[x]);
                if (R.chance(20)) { wp.push_back(st[x]); }
            }
            bool bad = R.chance(35);
            if (bad) { wp.insert(wp.begin() + static_cast<long>(R(wp.size() + 1)), R.chance(50) ? gone : Storage{~0ULL >> 1U}); }
            Status rc = tx_begin({l.t, tt::LONG, wp});
            note("%d begin bad=%d n=%zu: %s", step, bad, res.size(), str(rc).c_str());
            if (bad) {
                CHECK_(rc != Status::OK, "a transaction that reserves a storage which does not exist begins");
                ++refused;
                tick(2);
                look("after a refused begin");
                continue;
            }
            CHECK_(rc == Status::OK, "tx_begin gives %s", str(rc).c_str());
            l.live = true;
            l.res = res;
            l.wrote.clear();
            ++begun;
            tick(2);
            look("after a begin");
        } else if (R.chance(50) && !l.res.empty()) {
            int x = *std::next(l.res.begin(), static_cast<long>(R(l.res.size())));
            Status rc = upsert(l.t, st[x], "k" + std::to_string(R(3)), "w");
            CHECK_(rc == Status::OK, "a write to an own reserved storage gives %s", str(rc).c_str());
            l.wrote.insert(x);
            look("after a write");
        } else {
            if (R.chance(50)) {
                CHECK_(abort(l.t) == Status::OK, "abort fails");
                note("%d abort", step);
            } else {
                result r;
                commit_to(l.t, r);
                wait_done(r, "commit of a transaction that read nothing is not decided");
                CHECK_(r.rc == Status::OK, "commit of a transaction that read nothing gives %s", str(r.rc).c_str());
                note("%d commit", step);
            }
            l.live = false;
            ++ended;
            look("after an end");
        }
    }
    std::printf("reservations: %zu begun, %zu refused, %zu ended\n", begun, refused, ended);
}
