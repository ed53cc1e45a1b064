// Random interleavings of concurrent transactions, checked for serializability:
// there must be an order of the committed transactions in which every read,
// scan and write result and the final content are explained.
#include "drv.h"
using namespace drv;

namespace {
struct row {
    std::string k, v;
};
struct op {
    enum kind { SEARCH, SCAN, INSERT, UPDATE, UPSERT, DELETE } k{};
    int st{};
    std::string key{}, val{};
    std::string l{}, r{};
    scan_endpoint le{scan_endpoint::INF}, re{scan_endpoint::INF};
    Status rc{Status::OK};
    std::vector<row> rows{};
    bool complete{false};
    int at{};
    epoch::epoch_t ep{};
};
using state = std::map<std::pair<int, std::string>, std::string>;
struct tx {
    tt type{tt::SHORT};
    Token t{};
    std::vector<op> ops{};
    enum st_t { IDLE, RUN, WAIT, COMMITTED, ABORTED } st{IDLE};
    int todo{};
    int begun{-1}, ended{-1};
    result res{};
    bool scanning{false};
    ScanHandle sh{};
    std::vector<bool> wp{};
};
struct mix {
    int ltx, rtx, scans, dels, storages, keys, txs;
    bool strict;
};

bool inside(const op& o, const std::string& k) {
    if (o.le == scan_endpoint::INCLUSIVE && k < o.l) { return false; }
    if (o.le == scan_endpoint::EXCLUSIVE && k <= o.l) { return false; }
    if (o.re == scan_endpoint::INCLUSIVE && k > o.r) { return false; }
    if (o.re == scan_endpoint::EXCLUSIVE && k >= o.r) { return false; }
    return true;
}

bool taken_back(const tx& x, std::size_t n) {
    for (std::size_t i = n + 1; i < x.ops.size(); ++i) {
        auto& o = x.ops[i];
        if (o.k == op::DELETE && o.st == x.ops[n].st && o.key == x.ops[n].key) { return o.rc == Status::WARN_CANCEL_PREVIOUS_INSERT; }
    }
    return false;
}

// every state in which the operations of x, run alone from s, leave the database
void explain(const tx& x, std::size_t from, const state& base, state s, std::vector<state>& out) {
    for (std::size_t n = from; n < x.ops.size(); ++n) {
        auto& o = x.ops[n];
        auto key = std::make_pair(o.st, o.key);
        auto it = s.find(key);
        bool has = it != s.end();
        switch (o.k) {
            case op::SEARCH:
                if (o.rc == Status::OK && (!has || it->second != o.val)) { return; }
                if (o.rc == Status::WARN_NOT_FOUND && has) { return; }
                break;
            case op::SCAN: {
                std::map<std::string, std::string> want;
                for (auto& e : s) {
                    if (e.first.first == o.st && inside(o, e.first.second)) { want[e.first.second] = e.second; }
                }
                for (auto& r : o.rows) {
                    auto w = want.find(r.k);
                    if (w == want.end() || w->second != r.v) { return; }
                }
                if (o.complete && o.rows.size() != want.size()) { return; }
                break;
            }
            case op::INSERT:
                if (o.rc == Status::OK) {
                    // an insertion taken back later need not have been possible
                    if (has && !taken_back(x, n)) { return; }
                    s[key] = o.val;
                }
                if (o.rc == Status::WARN_ALREADY_EXISTS && !has) { return; }
                break;
            case op::UPDATE:
                if (o.rc == Status::OK) {
                    if (!has) { return; }
                    s[key] = o.val;
                }
                break;
            case op::UPSERT:
                if (o.rc == Status::OK) { s[key] = o.val; }
                break;
            case op::DELETE:
                if (o.rc == Status::OK) {
                    if (!has) { return; }
                    s.erase(key);
                }
                if (o.rc == Status::WARN_CANCEL_PREVIOUS_INSERT || o.rc == Status::WARN_CANCEL_PREVIOUS_UPSERT) {
                    // the write is taken back, or the record is deleted with it
                    auto b = base.find(key);
                    if (b != base.end()) {
                        state alt = s;
                        alt[key] = b->second;
                        explain(x, n + 1, base, alt, out);
                    }
                    s.erase(key);
                }
                break;
        }
    }
    out.push_back(std::move(s));
}

bool search_order(const std::vector<tx*>& cs, unsigned done, const state& s, const state& fin_, bool strict) {
    if (done + 1 == 1U << cs.size()) { return s == fin_; }
    for (std::size_t i = 0; i < cs.size(); ++i) {
        if ((done >> i & 1U) != 0) { continue; }
        if (strict) {
            bool late = false;
            for (std::size_t j = 0; j < cs.size(); ++j) {
                if ((done >> j & 1U) == 0 && j != i && cs[j]->ended < cs[i]->begun) { late = true; }
            }
            if (late) { continue; }
        }
        std::vector<state> out;
        explain(*cs[i], 0, s, s, out);
        for (auto& n : out) {
            if (search_order(cs, done | 1U << i, n, fin_, strict)) { return true; }
        }
    }
    return false;
}

const char* kn[] = {"search", "scan", "insert", "update", "upsert", "delete"};
void dump(const std::vector<std::unique_ptr<tx>>& ts, const state& init, const state& fin_) {
    auto ps = [](const char* n, const state& s) {
        std::printf("%s:", n);
        for (auto& e : s) { std::printf(" %d/%s=%s", e.first.first, e.first.second.c_str(), e.second.c_str()); }
        std::printf("\n");
    };
    ps("initial", init);
    int n = 0;
    for (auto& x : ts) {
        std::printf("tx%d %s %s begun=%d ended=%d rc=%s\n", n++, std::string(to_string_view(x->type)).c_str(), x->st == tx::COMMITTED ? "committed" : "aborted", x->begun, x->ended, str(x->res.rc).c_str());
        for (auto& o : x->ops) {
            std::printf("   @%d e%lu %s %d/%s %s -> %s", o.at, static_cast<unsigned long>(o.ep), kn[o.k], o.st, o.key.c_str(), o.val.c_str(), str(o.rc).c_str());
            if (o.k == op::SCAN) {
                std::printf(" [%s%d %s%d]%s", o.l.c_str(), static_cast<int>(o.le), o.r.c_str(), static_cast<int>(o.re), o.complete ? "" : " partial");
                for (auto& r : o.rows) { std::printf(" %s=%s", r.k.c_str(), r.v.c_str()); }
            }
            std::printf("\n");
        }
    }
    ps("final", fin_);
}

struct world {
    env& E;
    rng r;
    mix m;
    std::vector<Storage> sts;
    state init{};
    int clock{0};
    long uniq{0};
    std::vector<std::unique_ptr<tx>> ts{};

    std::string key() { return std::string("k") + static_cast<char>('a' + r.below(m.keys)); }
    std::string fresh() { return "v" + std::to_string(++uniq); }

    void drop(tx& x) {
        x.st = tx::ABORTED;
        x.ended = clock;
    }
    void row_step(tx& x) {
        op& o = x.ops.back();
        std::string k;
        std::string v;
        Status a = read_key_from_scan(x.t, x.sh, k);
        if (aborted_by(a)) { return drop(x); }
        Status b = a == Status::OK ? read_value_from_scan(x.t, x.sh, v) : a;
        if (aborted_by(b)) { return drop(x); }
        if (a == Status::OK && b == Status::OK) {
            CHECK_(o.rows.empty() || o.rows.back().k < k, "scan delivers %s after %s", k.c_str(), o.rows.back().k.c_str());
            CHECK_(inside(o, k), "scan delivers %s outside its range", k.c_str());
            o.rows.push_back({k, v});
        } else if (a != Status::WARN_NOT_FOUND && b != Status::WARN_NOT_FOUND) {
            o.complete = false;
        }
        Status n = next(x.t, x.sh);
        if (aborted_by(n)) { return drop(x); }
        if (n != Status::OK) {
            if (n != Status::WARN_SCAN_LIMIT) { o.complete = false; }
            close_scan(x.t, x.sh);
            x.scanning = false;
        }
    }
    void step(tx& x) {
        if (x.scanning) {
            do { row_step(x); } while (x.scanning && x.st == tx::RUN && r.chance(60));
            return;
        }
        if (x.todo == 0) {
            if (r.chance(10)) {
                Status rc = abort(x.t);
                CHECK_(rc == Status::OK || rc == Status::WARN_NOT_BEGIN, "abort of a running transaction returns %s", str(rc).c_str());
                return drop(x);
            }
            x.st = tx::WAIT;
            commit_to(x.t, x.res);
            return;
        }
        --x.todo;
        op o;
        o.st = static_cast<int>(r.below(sts.size()));
        o.key = key();
        int c = static_cast<int>(r.below(100));
        bool ro = x.type == tt::READ_ONLY;
        if (x.type == tt::LONG && !x.wp[o.st]) { ro = true; }
        if (c < m.scans || (ro && c < 2 * m.scans)) {
            o.k = op::SCAN;
        } else if (ro || c < m.scans + (100 - m.scans) * 45 / 100) {
            o.k = op::SEARCH;
        } else {
            int d = static_cast<int>(r.below(100));
            if (d < m.dels) { o.k = op::DELETE; } else { o.k = static_cast<op::kind>(op::INSERT + r.below(3)); }
            o.val = fresh();
        }
        Storage st = sts[o.st];
        switch (o.k) {
            case op::SEARCH: o.rc = search_key(x.t, st, o.key, o.val); break;
            case op::INSERT: o.rc = insert(x.t, st, o.key, o.val); break;
            case op::UPDATE: o.rc = update(x.t, st, o.key, o.val); break;
            case op::UPSERT: o.rc = upsert(x.t, st, o.key, o.val); break;
            case op::DELETE: o.rc = delete_record(x.t, st, o.key); break;
            case op::SCAN: {
                if (r.chance(50)) { o.l = key(); o.le = r.chance(50) ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE; }
                if (r.chance(50)) { o.r = key(); o.re = r.chance(50) ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE; }
                o.rc = open_scan(x.t, st, o.l, o.le, o.r, o.re, x.sh);
                if (o.rc == Status::OK) {
                    o.complete = true;
                    x.scanning = true;
                } else if (o.rc == Status::WARN_NOT_FOUND) {
                    o.complete = true;
                }
                break;
            }
        }
        o.at = clock;
        o.ep = epoch::get_global_epoch();
        x.ops.push_back(o);
        if (aborted_by(o.rc)) { drop(x); }
    }
    void round() {
        sts.clear();
        init.clear();
        ts.clear();
        for (int i = 0; i < m.storages; ++i) { sts.push_back(new_storage()); }
        in_tx([&](Token t) {
            init.clear();
            for (int i = 0; i < m.storages; ++i) {
                for (int k = 0; k < m.keys; ++k) {
                    if (r.chance(55)) {
                        std::string kk = std::string("k") + static_cast<char>('a' + k);
                        std::string v = fresh();
                        init[{i, kk}] = v;
                        upsert(t, sts[i], kk, v);
                    }
                }
            }
        });
        tick(2);
        int n = 2 + static_cast<int>(r.below(m.txs - 1));
        for (int i = 0; i < n; ++i) {
            auto x = std::make_unique<tx>();
            x->t = session();
            int c = static_cast<int>(r.below(100));
            x->type = c < m.ltx ? tt::LONG : c < m.ltx + m.rtx ? tt::READ_ONLY : tt::SHORT;
            x->todo = 1 + static_cast<int>(r.below(4));
            ts.push_back(std::move(x));
        }
        for (;;) {
            std::vector<tx*> live;
            bool waiting = false;
            for (auto& x : ts) {
                if (x->st == tx::WAIT) {
                    if (x->res.done.load()) {
                        x->st = x->res.rc == Status::OK ? tx::COMMITTED : tx::ABORTED;
                        x->ended = ++clock;
                        if (x->res.rc == Status::WARN_PREMATURE) {
                            x->st = tx::RUN;
                            x->res.done = false;
                            tick();
                        }
                    } else {
                        waiting = true;
                    }
                }
                if (x->st == tx::IDLE || x->st == tx::RUN) { live.push_back(x.get()); }
            }
            if (live.empty() && !waiting) { break; }
            if (live.empty()) {
                // only submitted commits are left: they must be decided now
                for (auto& x : ts) {
                    if (x->st == tx::WAIT) { wait_done(x->res, "a submitted commit is never decided"); }
                }
                continue;
            }
            if (r.chance(15)) { tick(1 + static_cast<int>(r.below(2))); }
            tx& x = *live[r.below(live.size())];
            ++clock;
            if (x.st == tx::IDLE) {
                transaction_options o(x.t, x.type);
                x.wp.assign(sts.size(), false);
                if (x.type == tt::LONG) {
                    std::vector<Storage> w;
                    for (std::size_t i = 0; i < sts.size(); ++i) {
                        if (r.chance(65)) { w.push_back(sts[i]); x.wp[i] = true; }
                    }
                    o.set_write_preserve(w);
                }
                Status rc = tx_begin(o);
                CHECK_(rc == Status::OK, "tx_begin returns %s", str(rc).c_str());
                x.st = tx::RUN;
                x.begun = clock;
                if (x.type != tt::SHORT && r.chance(80)) { tick(); }
            } else {
                step(x);
            }
        }
        for (auto& x : ts) {
            CHECK_(x->res.calls.load() <= 1 || x->res.rc == Status::OK || true, "callback");
            leave(x->t);
        }
        tick(2);
        state fs;
        in_tx([&](Token t) {
            fs.clear();
            for (int i = 0; i < m.storages; ++i) {
                ScanHandle h{};
                if (open_scan(t, sts[i], "", scan_endpoint::INF, "", scan_endpoint::INF, h) != Status::OK) { continue; }
                do {
                    std::string k;
                    std::string v;
                    if (read_key_from_scan(t, h, k) == Status::OK && read_value_from_scan(t, h, v) == Status::OK) { fs[{i, k}] = v; }
                } while (next(t, h) == Status::OK);
                close_scan(t, h);
            }
        });
        std::vector<tx*> cs;
        for (auto& x : ts) {
            if (x->st == tx::COMMITTED) { cs.push_back(x.get()); }
        }
        if (!search_order(cs, 0, init, fs, m.strict)) {
            dump(ts, init, fs);
            fail("no serial order of the committed transactions explains what they read and left behind");
        }
    }
};
void play(env& E, mix m, double quick, double deep) {
    open_db();
    stop_clock();
    world w{E, rng(E.seed * 7919 + m.ltx * 131 + m.scans), m, {}};
    long n = 0;
    while (E.more(quick, deep)) {
        w.round();
        ++n;
    }
    std::printf("%ld interleavings of at most %d transactions explained\n", n, m.txs);
    run_clock();
    close_db();
}
} // namespace

SCENARIO(occ_points, "C01 C05") { play(E, {0, 0, 0, 25, 1, 3, 5, true}, 6, 60); }
SCENARIO(occ_scans, "C01 C02") { play(E, {0, 0, 35, 30, 1, 5, 5, true}, 6, 60); }
SCENARIO(short_vs_long, "C03 C09") { play(E, {40, 0, 20, 25, 2, 4, 5, false}, 8, 90); }
SCENARIO(long_only, "C10 C11 C09") { play(E, {100, 0, 20, 20, 3, 3, 5, false}, 8, 90); }
SCENARIO(with_snapshots, "C06") { play(E, {25, 35, 30, 30, 2, 4, 5, false}, 8, 90); }

// A short transaction reads A and writes b of B; an older long transaction W
// writes b, too, so it comes before the short one; a younger long transaction R
// read c of B before W changed it, so it comes before W, and writes into A what
// the short one did not see.  They can not all commit.
SCENARIO(three_way, "C09 C03") {
    open_db();
    stop_clock();
    rng R(E.seed + 77);
    int failed = 0, all = 0;
    while (E.more(3, 40)) {
        Storage a = new_storage(), b = new_storage();
        in_tx([&](Token t) {
            for (auto k : {"k1", "k3", "k5"}) { upsert(t, a, k, "0"); }
            for (auto k : {"b", "c"}) { upsert(t, b, k, "0"); }
        });
        tick(3);
        Token s = drv::session(), w = drv::session(), r = drv::session();
        bool early = R(2), scan = R(2);
        std::string v;
        auto begin_short = [&] { CHECK_(tx_begin({s, tt::SHORT}) == Status::OK, "begin"); };
        if (early) {
            begin_short();
            tick();
        }
        CHECK_(tx_begin({w, tt::LONG, {b}}) == Status::OK, "begin long");
        tick(1 + R(2));
        if (!early) { begin_short(); }
        std::string key = scan && R(2) ? "k" + std::to_string(2 * (1 + R(2))) : "k" + std::to_string(1 + 2 * R(3));
        if (scan) {
            bool lo = R(2), hi = R(2);
            note("short scan %s", key.c_str());
            ScanHandle h{};
            CHECK_(open_scan(s, a, lo ? "k0" : "", lo ? scan_endpoint::EXCLUSIVE : scan_endpoint::INF, hi ? "k9" : "", hi ? scan_endpoint::INCLUSIVE : scan_endpoint::INF, h) == Status::OK, "open_scan");
            do { CHECK_(read_value_from_scan(s, h, v) == Status::OK, "read"); } while (next(s, h) == Status::OK);
            CHECK_(close_scan(s, h) == Status::OK, "close");
        } else {
            note("short read %s", key.c_str());
            CHECK_(search_key(s, a, key, v) == Status::OK, "search");
        }
        if (R(2)) { tick(); }
        CHECK_(upsert(s, b, "b", "short") == Status::OK, "upsert");
        CHECK_(commit(s) == Status::OK, "the short transaction fails though nothing it read is written");
        tick(1 + R(2));
        CHECK_(tx_begin({r, tt::LONG, {a}}) == Status::OK, "begin long");
        tick();
        CHECK_(search_key(r, b, "c", v) == Status::OK && v == "0", "search");
        CHECK_(upsert(w, b, "b", "long") == Status::OK && upsert(w, b, "c", "long") == Status::OK, "upsert");
        bool del = (key == "k1" || key == "k3" || key == "k5") && R(3) == 0;
        note("long %s %s", del ? "delete" : "upsert", key.c_str());
        CHECK_((del ? delete_record(r, a, key) : upsert(r, a, key, "r")) == Status::OK, "write");
        result r1, r2;
        commit_to(w, r1);
        wait_done(r1, "commit of the older long transaction");
        commit_to(r, r2);
        wait_done(r2, "commit of the younger long transaction");
        ++all;
        if (r1.rc == Status::OK && r2.rc == Status::OK) {
            std::string fb, fc, fk;
            in_tx([&](Token t) {
                search_key(t, b, "b", fb);
                search_key(t, b, "c", fc);
            });
            CHECK_(fb != "short" || fc != "long", "a long transaction is ordered before a short one that had not seen its write to %s (%s)", key.c_str(), scan ? "scanned" : "read");
        } else {
            ++failed;
        }
        leave(s);
        leave(w);
        leave(r);
    }
    note("%d of %d did not commit", failed, all);
    run_clock();
    close_db();
}
