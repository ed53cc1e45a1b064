// Single-threaded transactions of all three kinds against a reference model:
// every status, value and scan result and the committed content must agree.
#include "drv.h"
using namespace drv;

namespace {
struct pend {
    enum kind { INSERT, UPDATE, UPSERT, DELETE } k{};
    std::string v{};
};
using table = std::map<std::string, std::string>;
struct world {
    std::vector<Storage> st{};
    std::vector<table> now{};
    std::vector<bool> dirty{};
    bool tombstones{};
    std::vector<std::string> keys{};
};
using overlay = std::map<std::pair<int, std::string>, pend>;

// removal of unhooked records in the background may fail a short transaction's
// commit or insertion; it has no effect then
struct disturbed {};
Status see(Token t, Status rc) {
    if (rc == Status::ERR_CC && transaction_result_info(t)->get_reason_code() == reason_code::CC_OCC_PHANTOM_AVOIDANCE) { throw disturbed{}; }
    return rc;
}

table view(const world& w, const overlay& ov, int s) {
    table t = w.now[s];
    for (auto& e : ov) {
        if (e.first.first != s) { continue; }
        if (e.second.k == pend::DELETE) { t.erase(e.first.second); } else { t[e.first.second] = e.second.v; }
    }
    return t;
}

bool within(const std::string& k, const std::string& l, scan_endpoint le, const std::string& r, scan_endpoint re) {
    if (le == scan_endpoint::INCLUSIVE && k < l) { return false; }
    if (le == scan_endpoint::EXCLUSIVE && k <= l) { return false; }
    if (re == scan_endpoint::INCLUSIVE && k > r) { return false; }
    if (re == scan_endpoint::EXCLUSIVE && k >= r) { return false; }
    return true;
}

std::string ends(const std::string& l, scan_endpoint le, const std::string& r, scan_endpoint re) {
    auto e = [](scan_endpoint x) { return x == scan_endpoint::INF ? "inf" : x == scan_endpoint::INCLUSIVE ? "incl" : "excl"; };
    return q(l).substr(0, 40) + e(le) + " .. " + q(r).substr(0, 40) + e(re);
}

// what the write set holds after the operation, and the status it must report
Status apply(const world& w, overlay& ov, int s, int op, const std::string& k, const std::string& v) {
    auto it = ov.find({s, k});
    bool was = w.now[s].count(k) != 0;
    auto put = [&](pend::kind kk) { ov[{s, k}] = pend{kk, v}; };
    switch (op) {
        case 0:
            if (it != ov.end()) {
                if (it->second.k != pend::DELETE) { return Status::WARN_ALREADY_EXISTS; }
                put(pend::UPDATE);
                return Status::OK;
            }
            if (was) { return Status::WARN_ALREADY_EXISTS; }
            put(pend::INSERT);
            return Status::OK;
        case 1:
            if (it != ov.end()) {
                if (it->second.k == pend::DELETE) { return Status::WARN_NOT_FOUND; }
                it->second.v = v;
                return Status::OK;
            }
            if (!was) { return Status::WARN_NOT_FOUND; }
            put(pend::UPDATE);
            return Status::OK;
        case 2:
            if (it != ov.end()) {
                if (it->second.k == pend::DELETE) { it->second.k = pend::UPDATE; }
                it->second.v = v;
                return Status::OK;
            }
            put(pend::UPSERT);
            return Status::OK;
        default:
            if (it != ov.end()) {
                switch (it->second.k) {
                    case pend::INSERT: ov.erase(it); return Status::WARN_CANCEL_PREVIOUS_INSERT;
                    case pend::UPDATE: it->second.k = pend::DELETE; return Status::OK;
                    case pend::UPSERT:
                        if (was) { it->second.k = pend::DELETE; } else { ov.erase(it); }
                        return Status::WARN_CANCEL_PREVIOUS_UPSERT;
                    default: return Status::WARN_NOT_FOUND;
                }
            }
            if (!was) { return Status::WARN_NOT_FOUND; }
            put(pend::DELETE);
            return Status::OK;
    }
}

Status call(Token t, Storage st, int op, const std::string& k, const std::string& v) {
    switch (op) {
        case 0: return insert(t, st, k, v);
        case 1: return update(t, st, k, v);
        case 2: return upsert(t, st, k, v);
        default: return delete_record(t, st, k);
    }
}
const char* const names[] = {"insert", "update", "upsert", "delete_record"};

void check_scan(const world& w, const overlay& ov, Token t, Token other, int s, rng& R, tt type) {
    auto pick = [&] { return R(8) == 0 ? std::string{} : w.keys[R(w.keys.size())]; };
    const scan_endpoint eps[] = {scan_endpoint::INF, scan_endpoint::INCLUSIVE, scan_endpoint::EXCLUSIVE};
    std::string l = pick(), r = pick();
    scan_endpoint le = eps[R(3)], re = eps[R(3)];
    std::size_t max = R(3) == 0 ? 1 + R(4) : 0;
    bool back = type == tt::READ_ONLY && R(4) == 0;
    if (back) {
        max = 1;
        re = scan_endpoint::INF;
        r.clear();
    }
    std::vector<std::pair<std::string, std::string>> want;
    bool own_del = false;
    for (auto& e : view(w, ov, s)) {
        if (within(e.first, l, le, r, re)) { want.emplace_back(e); }
    }
    for (auto& e : ov) { own_del = own_del || (e.first.first == s && e.second.k == pend::DELETE); }
    if (back) { std::reverse(want.begin(), want.end()); }
    bool loose = max != 0 && (w.dirty[s] || own_del);
    std::size_t full = max != 0 && want.size() > max ? max : want.size();
    std::string where = "a scan of " + ends(l, le, r, re) + " limit " + std::to_string(max) + (back ? " backwards" : "");
    ScanHandle h{};
    Status rc = see(t, open_scan(t, w.st[s], l, le, r, re, h, max, back));
    if (rc == Status::WARN_NOT_FOUND) {
        CHECK_(full == 0 || loose, "%s finds nothing although %zu records are visible", where.c_str(), full);
        return;
    }
    CHECK_(rc == Status::OK, "open_scan: %s in an undisturbed transaction (%s)", str(rc).c_str(), where.c_str());
    if (R(4) == 0) {
        std::string k;
        CHECK_(next(t, nullptr) == Status::WARN_INVALID_HANDLE, "next on a null handle is not rejected");
        CHECK_(read_value_from_scan(t, nullptr, k) == Status::WARN_INVALID_HANDLE, "reading through a null handle is not rejected");
        CHECK_(tx_begin({other, tt::SHORT}) == Status::OK, "tx_begin fails");
        CHECK_(next(other, h) == Status::WARN_INVALID_HANDLE, "another session can advance the scan");
        CHECK_(read_key_from_scan(other, h, k) == Status::WARN_INVALID_HANDLE, "another session can read through the scan");
        CHECK_(close_scan(other, h) == Status::WARN_INVALID_HANDLE, "another session can close the scan");
        CHECK_(abort(other) == Status::OK, "abort fails");
    }
    std::size_t n = 0;
    for (;;) {
        std::string k, v;
        bool kf = R(2) == 0;
        if (kf) { rc = see(t, read_key_from_scan(t, h, k)); }
        Status rv = see(t, read_value_from_scan(t, h, v));
        if (!kf) { rc = see(t, read_key_from_scan(t, h, k)); }
        CHECK_(rc == rv, "%s: key gives %s but value %s", where.c_str(), str(rc).c_str(), str(rv).c_str());
        if (rc == Status::WARN_NOT_FOUND) { // a deleted record under the cursor
            rc = see(t, next(t, h));
            if (rc == Status::WARN_SCAN_LIMIT) { break; }
            continue;
        }
        CHECK_(rc == Status::OK, "%s: reading under the cursor gives %s", where.c_str(), str(rc).c_str());
        CHECK_(n < want.size() && (max == 0 || n < max), "%s returns more than the %zu records it should: %s", where.c_str(), full, q(k).substr(0, 60).c_str());
        CHECK_(k == want[n].first, "%s: record %zu is %s, not %s", where.c_str(), n, q(k).substr(0, 60).c_str(), q(want[n].first).substr(0, 60).c_str());
        CHECK_(v == want[n].second, "%s: value of %s is %s, not %s", where.c_str(), q(k).substr(0, 60).c_str(), q(v).substr(0, 60).c_str(), q(want[n].second).substr(0, 60).c_str());
        ++n;
        rc = see(t, next(t, h));
        if (rc == Status::WARN_SCAN_LIMIT) { break; }
        CHECK_(rc == Status::OK, "%s: next gives %s", where.c_str(), str(rc).c_str());
    }
    CHECK_(n == full || loose, "%s returns %zu records instead of %zu", where.c_str(), n, full);
    CHECK_(close_scan(t, h) == Status::OK, "close_scan of an open scan fails");
    CHECK_(close_scan(t, h) == Status::WARN_INVALID_HANDLE, "closing a closed scan is not rejected");
}

void check_read(const world& w, const overlay& ov, Token t, int s, const std::string& k, bool value) {
    table m = view(w, ov, s);
    auto it = m.find(k);
    std::string v;
    Status rc = see(t, value ? search_key(t, w.st[s], k, v) : exist_key(t, w.st[s], k));
    if (it == m.end()) {
        CHECK_(rc == Status::WARN_NOT_FOUND, "a read of the missing key %s gives %s", q(k).substr(0, 60).c_str(), str(rc).c_str());
    } else {
        CHECK_(rc == Status::OK, "a read of the existing key %s gives %s", q(k).substr(0, 60).c_str(), str(rc).c_str());
        CHECK_(!value || v == it->second, "the value of %s is %s, not %s", q(k).substr(0, 60).c_str(), q(v).substr(0, 60).c_str(), q(it->second).substr(0, 60).c_str());
    }
}

// nothing of the open transaction shows to another one
void check_hidden(const world& w, const overlay& ov, Token t, rng& R) {
    if (ov.empty()) { return; }
    auto it = ov.begin();
    std::advance(it, R(ov.size()));
    std::string v;
    CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "tx_begin fails");
    Status rc = search_key(t, w.st[it->first.first], it->first.second, v);
    auto f = w.now[it->first.first].find(it->first.second);
    if (f == w.now[it->first.first].end()) {
        CHECK_(rc == Status::WARN_NOT_FOUND || rc == Status::WARN_CONCURRENT_INSERT || rc == Status::ERR_CC, "a pending write of a new key is visible to another transaction: %s", str(rc).c_str());
    } else if (rc == Status::OK) {
        CHECK_(v == f->second, "another transaction's pending value %s is read", q(v).substr(0, 60).c_str());
    } else {
        CHECK_(rc == Status::ERR_CC || rc == Status::WARN_CONCURRENT_UPDATE, "a key with a pending write reads as %s", str(rc).c_str());
    }
    if (rc != Status::ERR_CC) { CHECK_(abort(t) == Status::OK, "abort fails"); }
}

// locked records would make this wait for ever or conflict
void check_content_once(const world& w, Token t) {
    CHECK_(tx_begin({t, tt::SHORT}) == Status::OK, "the session can not begin a new transaction");
    for (std::size_t s = 0; s < w.st.size(); ++s) {
        ScanHandle h{};
        Status rc = see(t, open_scan(t, w.st[s], "", scan_endpoint::INF, "", scan_endpoint::INF, h));
        auto it = w.now[s].begin();
        if (rc == Status::WARN_NOT_FOUND) {
            CHECK_(w.now[s].empty(), "a storage is found empty although it holds %zu records", w.now[s].size());
            continue;
        }
        CHECK_(rc == Status::OK, "open_scan: %s", str(rc).c_str());
        for (;;) {
            std::string k, v;
            rc = see(t, read_key_from_scan(t, h, k));
            if (rc == Status::WARN_NOT_FOUND) {
                rc = see(t, next(t, h));
                if (rc == Status::WARN_SCAN_LIMIT) { break; }
                continue;
            }
            CHECK_(rc == Status::OK, "a finished transaction left the record %s unreadable: %s", q(k).substr(0, 60).c_str(), str(rc).c_str());
            CHECK_(see(t, read_value_from_scan(t, h, v)) == Status::OK, "value unreadable");
            CHECK_(it != w.now[s].end() && it->first == k && it->second == v, "after the transaction ended %s = %s is found, expected %s", q(k).substr(0, 60).c_str(), q(v).substr(0, 60).c_str(), it == w.now[s].end() ? "nothing" : (q(it->first).substr(0, 60) + " = " + q(it->second).substr(0, 60)).c_str());
            ++it;
            rc = see(t, next(t, h));
            if (rc == Status::WARN_SCAN_LIMIT) { break; }
            CHECK_(rc == Status::OK, "next: %s", str(rc).c_str());
        }
        CHECK_(it == w.now[s].end(), "the record %s is missing", q(it->first).substr(0, 60).c_str());
    }
    for (std::size_t s = 0; s < w.st.size(); ++s) {
        for (auto& k : w.keys) { check_read(w, {}, t, static_cast<int>(s), k, true); }
    }
    Status rc = see(t, commit(t));
    CHECK_(rc == Status::OK, "an undisturbed reading transaction does not commit: %s", str(rc).c_str());
}
void check_content(const world& w, Token t) {
    for (int i = 0; i < 100; ++i) {
        try {
            check_content_once(w, t);
            return;
        } catch (disturbed&) { std::this_thread::sleep_for(std::chrono::microseconds(100 * i)); }
    }
    fail("an undisturbed reading transaction never commits");
}

std::string some_value(rng& R, int& serial) {
    std::string v = "v" + std::to_string(serial++);
    switch (R(8)) {
        case 0: return "";
        case 1: return v + std::string(2000 + R(3000), 'x');
        case 2: return v + std::string("\0\xff\0", 3);
        default: return v;
    }
}

void run_model(env& E, bool deletes, bool iscan, double quick, double deep) {
    database_options o(database_options::open_mode::CREATE, std::filesystem::path(log_dir()), 200, false, 2);
    o.set_iterator_based_scan(iscan);
    CHECK_(init(o) == Status::OK, "init fails");
    stop_clock();
    rng R(E.seed * 77 + (deletes ? 1 : 0) + (iscan ? 2 : 0));
    world w;
    for (int i = 0; i < 3; ++i) {
        w.st.push_back(new_storage());
        w.now.emplace_back();
        w.dirty.push_back(false);
    }
    tick(2);
    const std::string pool[] = {"", "a", "aa", std::string("a\0", 2), std::string("\0", 1), "b", "\xff", "\xff\xff", "abcdefgh", "abcdefghi", "abcdefgh" "abcdefgh" "x",
                                std::string(30, 'k') + "1", std::string(30, 'k') + "2", std::string(30 * 1024, 'z'), "m", "n", "ab", "ba", "c", "d"};
    for (auto& k : pool) { w.keys.push_back(k); }
    Token t = session(), other = session();
    int serial = 0, all = 0, disturbances = 0;
    while (E.more(quick, deep)) {
        tt type = R(10) < 5 ? tt::SHORT : R(2) ? tt::LONG : tt::READ_ONLY;
        std::vector<bool> wp(w.st.size(), type == tt::SHORT), ra(w.st.size(), true);
        transaction_options opt(t, type);
        if (type == tt::LONG) {
            transaction_options::write_preserve_type ws;
            for (std::size_t s = 0; s < w.st.size(); ++s) {
                if (R(3) != 0) {
                    wp[s] = true;
                    ws.push_back(w.st[s]);
                }
            }
            std::set<Storage> pl, nl;
            int how = static_cast<int>(R(5));
            int in = static_cast<int>(R(w.st.size())), out = static_cast<int>((in + 1) % w.st.size());
            if (how == 1 || how == 3) {
                pl.insert(w.st[in]);
                if (R(2)) { pl.insert(w.st[(in + 2) % 3]); }
            }
            if (how == 2) { nl.insert(w.st[out]); }
            if (how == 3) {
                nl.insert(w.st[out]);
                pl.insert(w.st[out]);
            }
            for (std::size_t s = 0; s < w.st.size(); ++s) {
                ra[s] = (pl.empty() || pl.count(w.st[s]) != 0) && nl.count(w.st[s]) == 0;
            }
            opt.set_write_preserve(ws);
            opt.set_read_area({pl, nl});
        }
        if (type != tt::SHORT) { tick(3); }
        note("begin %s", type == tt::SHORT ? "short" : type == tt::LONG ? "long" : "read-only");
        CHECK_(tx_begin(opt) == Status::OK, "tx_begin fails");
        CHECK_(tx_begin(opt) == Status::WARN_ALREADY_BEGIN, "a second begin in a running transaction is not rejected");
        if (type != tt::SHORT) {
            if (R(3) == 0) {
                std::string v;
                Status rc = search_key(t, w.st[0], "a", v);
                CHECK_(rc == Status::WARN_PREMATURE, "a read before the start epoch gives %s", str(rc).c_str());
            }
            tick(1);
        }
        overlay ov;
        std::vector<bool> del(w.st.size(), false);
        int todo = 1 + static_cast<int>(R(14));
        bool over = false;
        try {
        while (todo-- > 0 && !over) {
            int s = static_cast<int>(R(w.st.size()));
            const std::string& k = w.keys[R(w.keys.size())];
            auto outside = [&](Status rc, const char* what) {
                CHECK_(rc == Status::ERR_READ_AREA_VIOLATION, "%s outside the declared read area gives %s", what, str(rc).c_str());
                CHECK_(transaction_result_info(t)->get_reason_code() == reason_code::CC_LTX_READ_AREA_VIOLATION, "wrong reason for the read area violation");
                over = true;
                ov.clear();
            };
            switch (R(10)) {
                case 0:
                case 1:
                    if (!ra[s]) {
                        std::string v;
                        outside(search_key(t, w.st[s], k, v), "search_key");
                        break;
                    }
                    check_read(w, ov, t, s, k, R(3) != 0);
                    break;
                case 2:
                case 3:
                    if (!ra[s]) {
                        ScanHandle h{};
                        outside(open_scan(t, w.st[s], "", scan_endpoint::INF, "", scan_endpoint::INF, h), "open_scan");
                        break;
                    }
                    check_scan(w, ov, t, other, s, R, type);
                    break;
                case 4:
                    if (type == tt::SHORT) { check_hidden(w, ov, other, R); }
                    break;
                default: {
                    int op = static_cast<int>(R(4));
                    if (op == 3 && !deletes) { op = 2; }
                    std::string v = some_value(R, serial);
                    if (type == tt::READ_ONLY) {
                        Status rc = call(t, w.st[s], op, k, v);
                        CHECK_(rc == Status::WARN_ILLEGAL_OPERATION, "%s in a read-only transaction gives %s", names[op], str(rc).c_str());
                        break;
                    }
                    if (!wp[s]) {
                        Status rc = call(t, w.st[s], op, k, v);
                        CHECK_(rc == Status::WARN_WRITE_WITHOUT_WP, "%s of an unreserved storage gives %s", names[op], str(rc).c_str());
                        break;
                    }
                    if (!ra[s] && op != 2) {
                        outside(call(t, w.st[s], op, k, v), names[op]);
                        break;
                    }
                    auto before = ov.find({s, k});
                    std::string had = before == ov.end() ? "no pending write" : before->second.k == pend::DELETE ? "a pending delete" : "a pending write";
                    Status want = apply(w, ov, s, op, k, v);
                    Status rc = see(t, call(t, w.st[s], op, k, v));
                    note("%s s%d %s -> %s", names[op], s, q(k).substr(0, 20).c_str(), str(rc).c_str());
                    CHECK_(rc == want, "%s of %s (%s, %s) gives %s instead of %s", names[op], q(k).substr(0, 40).c_str(), w.now[s].count(k) ? "committed" : "not committed", had.c_str(), str(rc).c_str(), str(want).c_str());
                    if (op == 3) { del[s] = true; }
                    if (R(12) == 0) {
                        std::string big(30 * 1024 + 1, 'q');
                        rc = call(t, w.st[s], op, big, v);
                        CHECK_(rc == Status::WARN_INVALID_KEY_LENGTH, "a key of %zu bytes gives %s", big.size(), str(rc).c_str());
                    }
                }
            }
            if (type != tt::SHORT && R(8) == 0) { tick(1); }
        }
        if (!over) {
            if (R(4) == 0 && deletes) {
                note("abort");
                CHECK_(abort(t) == Status::OK, "abort fails");
                for (std::size_t s = 0; s < w.st.size(); ++s) { w.dirty[s] = true; }
            } else {
                note("commit");
                result r;
                commit_to(t, r);
                wait_done(r, "commit does not finish");
                see(t, r.rc);
                CHECK_(r.rc == Status::OK, "an undisturbed transaction fails to commit: %s", str(r.rc).c_str());
                for (std::size_t s = 0; s < w.st.size(); ++s) {
                    w.now[s] = view(w, ov, static_cast<int>(s));
                    if (del[s]) { w.dirty[s] = true; }
                }
            }
        } else {
            for (std::size_t s = 0; s < w.st.size(); ++s) { w.dirty[s] = true; }
        }
        } catch (disturbed&) {
            note("disturbed");
            CHECK_(type == tt::SHORT, "a long transaction fails for a phantom of short ones");
            for (std::size_t s = 0; s < w.st.size(); ++s) { w.dirty[s] = true; }
            ++disturbances;
        }
        ++all;
        std::string dummy;
        CHECK_(search_key(t, w.st[0], "a", dummy) == Status::WARN_NOT_BEGIN, "a read after the end of the transaction is not rejected");
        CHECK_(upsert(t, w.st[0], "a", "x") == Status::WARN_NOT_BEGIN, "a write after the end of the transaction is not rejected");
        check_content(w, other);
        if (R(5) == 0) { tick(1); }
    }
    // records of refused transactions are collected meanwhile: the scans they meet fail as phantoms
    CHECK_(deletes ? disturbances * 2 < all + 10 : disturbances * 10 < all + 10, "%d of %d undisturbed transactions fail", disturbances, all);
    leave(t);
    leave(other);
    run_clock();
    close_db();
}
} // namespace

SCENARIO(ops_model, "C05 C07 C08 C13 C23 C24") {
    for (int m = 0; m < 4; ++m) { run_model(E, (m & 1) != 0, (m & 2) != 0, 2.0 * (m + 1), 15.0 * (m + 1)); }
}
