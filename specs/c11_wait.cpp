// C11: whom a long transaction waits for
//@property C11: *
//@property C10: overlap wait_for waits
//@sources src/concurrency_control/ongoing_tx.cpp src/concurrency_control/read_plan.cpp src/concurrency_control/session.cpp
//@override _ZN9shirakami10ongoing_tx14waiting_bypassEPNS_7sessionE = bypass_contract
//@override _ZN9shirakami7session16extract_wait_forEv = wait_for_contract
//@override _ZN9shirakami9read_plan25check_potential_read_antiEmPv = anti_contract
//@real _ZN9shirakami7session16extract_wait_forEv wait_for
//@real _ZN9shirakami9read_plan25check_potential_read_antiEmPv may_read may_read_rest
//@override _ZNSt8vf_assocImKmSt11vf_key_selfImESt4lessImELb1EE6insertERS0_ = insert_contract
//@override _ZNSt9vf_vectorISt5tupleIJmmPN9shirakami7sessionEEESaIS4_EE5eraseEPKS4_ = erase_contract
//@override _ZNKSt8vf_assocISt5tupleIJmbSt9vf_stringN9shirakami13scan_endpointES1_S3_EEKS4_St11vf_key_selfIS4_ESt4lessIS4_ELb1EE8vf_orderEv = no_order
//@opt may_read unroll=2
//@opt may_read_rest unroll=2
//@nonative *
//@assumed running long transactions are registered in the order of their ids (tx_begin registers them under one mutex)
//@assumed ongoing_tx::waiting_bypass (disabled unless asked for in the environment): any status
#include "sh.h"
#include "concurrency_control/include/ongoing_tx.h"
#include "concurrency_control/include/read_plan.h"
using namespace shirakami;

static bool anti;
static vf_u64 updated;
static vf_u64 nw;
extern "C" Status bypass_contract(session*) { return vf_flag("bypass") ? Status::OK : Status::ERR_CC; }
extern "C" void wait_for_contract(std::set<std::size_t>* out, session*) {
    new (out) std::set<std::size_t>();
    vf_fill_n(*out, nw, [](vf_u64 i) { return vf_in_at("wait", i); });
}
extern "C" void no_order(void*) {}
struct two { vf_u64 a, b; };
static vf_u64 watched, seen, wrong;
static vf_u64 erased;
extern "C" two insert_contract(void*, const std::size_t* id) {
    if (*id == watched) { seen = 1; }
    return {0, 1};
}
extern "C" void* erase_contract(void*, ongoing_tx::tx_info_elem_type* e) {
    erased = 1;
    if (std::get<1>(*e) != watched) { wrong = 1; }
    return e;
}
extern "C" bool anti_contract(std::size_t, Token) { return anti; }
namespace shirakami::long_tx {
void update_wp_at_commit(session*) { ++updated; }
}

VF_HARNESS(overlap) {
    auto wl = vf_str("wl"), wr = vf_str("wr"), rl = vf_str("rl"), rr = vf_str("rr"), k = vf_str("key");
    vf_u64 a = vf_in("a") & 3U, b = vf_in("b") & 3U;
    vf_assume(a < 3 && b < 3);
    auto le = a == 0 ? scan_endpoint::INF : a == 1 ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE;
    auto re = b == 0 ? scan_endpoint::INF : b == 1 ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE;
    bool r = read_plan::check_range_overlap(wl, wr, rl, le, rr, re);
    bool written = !(k < wl) && !(wr < k);
    bool read = (a == 0 || (a == 1 ? !(k < rl) : rl < k)) && (b == 0 || (b == 1 ? !(rr < k) : k < rr));
    VF_ASSERT(r || !written || !read, "a key written and read makes the ranges overlap");
    VF_ASSERT(!r || a == 0 || !(wr < rl), "ranges apart do not overlap: writes before reads");
    VF_ASSERT(!r || b == 0 || !(rr < wl), "ranges apart do not overlap: writes after reads");
    VF_DONE();
}

struct world {
    session* ti;
    vf_u64 n, k, id;
    static bool lt(const void* a, const void* b) {
        return std::get<1>(*static_cast<const ongoing_tx::tx_info_elem_type*>(a)) < std::get<1>(*static_cast<const ongoing_tx::tx_info_elem_type*>(b));
    }
    world() : ti(vf_session()) {
        new (&ti->wp_set_) session::wp_set_type();
        new (&ti->mtx_overtaken_ltx_set_) std::shared_mutex();
        new (&ti->read_set_for_ltx_) std::remove_reference_t<decltype(ti->read_set_for_ltx())>();
        new (&ti->range_read_set_for_ltx_) std::remove_reference_t<decltype(ti->get_range_read_set_for_ltx())>();
        new (&ongoing_tx::mtx_) std::shared_mutex();
        auto& v = ongoing_tx::get_tx_info();
        new (&v) ongoing_tx::tx_info_type();
        n = vf_size("n");
        k = vf_in("k");
        vf_assume(k < n);
        vf_expose(k);
        vf_fill_n(v, n, [](vf_u64 i) { return ongoing_tx::tx_info_elem_type(vf_in_at("ep", i), vf_in_at("txid", i), nullptr); });
#ifndef VF_NATIVE
        vf_assume_pairs(v.r_, n, &lt);
#endif
        id = vf_in("id");
        ti->set_long_tx_id(id);
        nw = vf_size("nw");
        anti = vf_flag("anti");
        updated = 0;
    }
};
// one of the transactions overtaken is still running
VF_HARNESS(waits) {
    world w;
    vf_u64 j = vf_in("j");
    vf_assume(j < nw);
    vf_expose(j);
    vf_assume(vf_in_at("txid", w.k) < w.id && vf_in_at("wait", j) == vf_in_at("txid", w.k));
    Status s{};
    VF_ASSERT(ongoing_tx::exist_wait_for(w.ti, s), "a transaction overtaken that still runs is waited for");
    VF_ASSERT(w.ti->get_was_considering_forwarding_at_once(), "the transaction remembers that it may be ordered before others");
    VF_DONE();
}
// none of the transactions overtaken is running
VF_HARNESS(does_not_wait) {
    world w;
    vf_assume(vf_in_at("txid", 0) >= w.id);
    w.ti->set_tx_type(transaction_options::transaction_type::LONG);
    bool was = vf_flag("was");
    w.ti->set_was_considering_forwarding_at_once(was);
    bool wp = vf_flag("wp");
    if (wp) { w.ti->wp_set_.emplace_back(1, nullptr); }
    bool req = vf_flag("req");
    w.ti->set_requested_commit(req);
    bool considering = was || nw != 0;
    bool reads = !w.ti->is_write_only_ltx_now();
    Status s{};
    bool r = ongoing_tx::exist_wait_for(w.ti, s);
    VF_ASSERT(s == Status::OK, "nothing forbids the commit");
    VF_ASSERT(r == (considering && wp && anti && reads), "otherwise it waits exactly if it may be ordered before others, writes and an older transaction may read what it writes");
    VF_ASSERT(updated == (req ? 0 : 1), "reservations not used are given up at the first request");
    VF_DONE();
}
// the transactions to wait for are those overtaken in any storage
VF_HARNESS(wait_for) {
    session* ti = vf_session();
    new (&ti->mtx_overtaken_ltx_set_) std::shared_mutex();
    new (&ti->overtaken_ltx_set_) session::overtaken_ltx_set_type();
    auto& o = ti->overtaken_ltx_set_[nullptr];
    vf_u64 n = vf_size("n"), k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    vf_fill_n(std::get<0>(o), n, [](vf_u64 i) { return vf_in_at("ids", i); });
    watched = vf_in_at("ids", k);
    seen = 0;
    vf_candidate([](void*) { return seen != 0; }, nullptr);
    auto r = ti->extract_wait_for();
    VF_ASSERT(seen != 0, "each transaction overtaken is waited for");
    VF_DONE();
}
VF_HARNESS(removed) {
    world w;
    erased = 0;
    wrong = 0;
    watched = vf_in_at("txid", w.k);
    vf_candidate([](void*) { return erased != 0; }, nullptr);
    ongoing_tx::remove_id(vf_in_at("txid", w.k));
    VF_ASSERT(erased != 0, "the transaction that ended is removed");
    VF_ASSERT(wrong == 0, "no other transaction is removed");
    VF_DONE();
}
// an older transaction may read what this one writes
struct plan {
    session* ti;
    vf_u64 n, np, k, p;
    plan(bool only_negative) : ti(vf_session()) {
        new (&read_plan::mtx_cont_) std::shared_mutex();
        new (&read_plan::cont_) read_plan::cont_type();
        vf_u64 id = vf_in("id"), older = vf_in("older");
        vf_assume(older < id);
        auto& e = read_plan::cont_[older];
        np = vf_size("np");
        p = vf_in("p");
        vf_assume(p < np);
        vf_expose(p);
        if (only_negative) {
            vf_fill_n(std::get<1>(e), np, [](vf_u64 i) {
                vf_u64 s = vf_in_at("neg", i);
                return s == vf_in_at("target", 0) ? s + 1 : s;
            });
        } else {
            vf_fill_n(std::get<0>(e), np, [](vf_u64 i) {
                return std::tuple<Storage, bool, std::string, scan_endpoint, std::string, scan_endpoint>(
                        vf_in_at("pst", i), vf_flag_at("sub", i), vf_str_at("pl", i), scan_endpoint::INCLUSIVE, vf_str_at("pr", i), scan_endpoint::INCLUSIVE);
            });
        }
        n = vf_size("n");
        k = vf_in("k");
        vf_assume(k < n);
        vf_expose(k);
        auto& m = ti->get_write_set().storage_map_;
        new (&m) std::remove_reference_t<decltype(m)>();
        vf_fill_n(m, n, [](vf_u64 i) {
            return std::pair<const Storage, std::tuple<std::string, std::string>>(vf_in_at("wst", i), std::tuple<std::string, std::string>(vf_str_at("wl", i), vf_str_at("wr", i)));
        });
    }
    bool check() { return read_plan::check_potential_read_anti(vf_in("id"), ti); }
};
VF_HARNESS(may_read) {
    plan w(false);
    vf_assume(vf_in_at("pst", w.p) == vf_in_at("wst", w.k));
    bool hit = !vf_flag_at("sub", w.p) || (!(vf_str_at("wr", w.k) < vf_str_at("pl", w.p)) && !(vf_str_at("pr", w.p) < vf_str_at("wl", w.k)));
    vf_candidate([](void* h) { return !*static_cast<bool*>(h); }, &hit);
    bool r = w.check();
    VF_ASSERT(r || !hit, "an older transaction that may read a storage written is noticed");
    VF_DONE();
}
VF_HARNESS(may_read_rest) {
    plan w(true);
    vf_assume(vf_in_at("wst", w.k) == vf_in_at("target", 0));
    bool r = w.check();
    VF_ASSERT(r, "an older transaction that does not exclude a storage written is noticed");
    VF_DONE();
}
