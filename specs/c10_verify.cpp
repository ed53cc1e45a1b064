// C10, C09: a long transaction ordered before others
//@property C10: *
//@property C09: writes
//@property C11: overtakes_running overtakes_done overtakes_all_running overtakes_all_done
//@sources src/concurrency_control/interface/long_tx/helper.cpp src/concurrency_control/wp.cpp src/concurrency_control/session.cpp src/concurrency_control/tid.cpp
//@override _ZN9shirakami18point_read_by_long8is_existEPv = point_contract
//@override _ZN9shirakami18range_read_by_long8is_existEmmSt14vf_string_view = range_contract
//@override _ZN9shirakami11result_info20set_key_storage_nameESt14vf_string_viewm = name_contract
//@override _ZN9shirakami2wp18find_page_set_metaEmRPNS0_13page_set_metaE = psm_contract
//@override _ZNSt9vf_vectorISt5tupleIJmmbS0_IJbSt9vf_stringS1_EEEESaIS3_EE5eraseEPKS3_ = erase_contract
//@override _ZNSt8vf_assocImKmSt11vf_key_selfImESt4lessImELb1EE6insertERS0_ = insert_contract
//@opt * unroll=2
//@nonative *
//@assumed point_read_by_long::is_exist, range_read_by_long::is_exist: whether a committed read of a long transaction would be invalidated (c09_read_by)
//@assumed overtakes_running: the reservation is in the first, middle or last slot of the table of reservations
//@assumed one storage was read past reservations of older transactions; it has any number of results
#include "concurrency_control/interface/long_tx/termination.cpp"
#include "sh.h"
using namespace shirakami;

struct two { vf_u64 a, b; };
static bool read_long, read_range_long;
static wp::page_set_meta* the_psm;
static point_read_by_long* watched_read;
static vf_u64 watched_id, inserted;
// results that are no longer needed are removed after they were examined
extern "C" void* erase_contract(void*, wp::wp_meta::wp_result_elem_type* e) { return e + 1; }
extern "C" two insert_contract(void*, const std::size_t* id) {
    if (*id == watched_id) { inserted = 1; }
    return {0, 1};
}
extern "C" bool point_contract(point_read_by_long* p, Token) { return p == watched_read ? read_long : vf_fresh_bool(); }
extern "C" bool range_contract(void*, vf_u64, vf_u64, void*) { return read_range_long; }
extern "C" void name_contract(void*, void*, vf_u64) {}
extern "C" Status psm_contract(Storage, wp::page_set_meta** out) {
    *out = the_psm;
    return Status::OK;
}

struct world {
    session* ti;
    wp::wp_meta* m;
    vf_u64 n, k, ve, rub;
    world() : ti(vf_session()) {
        new (&ti->mtx_overtaken_ltx_set_) std::shared_mutex();
        new (&ti->overtaken_ltx_set_) session::overtaken_ltx_set_type();
        new (&ti->mtx_result_info_) std::mutex();
        new (&ti->result_info_) result_info();
        m = reinterpret_cast<wp::wp_meta*>(::operator new(sizeof(wp::wp_meta), std::align_val_t(64)));
        new (&m->mtx_wp_result_set_) std::shared_mutex();
        new (&m->wp_result_set_) wp::wp_meta::wp_result_set_type();
        ve = vf_in("valid");
        rub = vf_in("rub");
        ti->set_valid_epoch(ve);
        ti->set_read_version_max_epoch(rub);
        ti->set_is_forwarding(false);
        ti->set_long_tx_id(vf_in("id"));
        new (&ti->write_set_.mtx_) std::shared_mutex();
        new (&ti->write_set_.cont_for_bt_) local_write_set::cont_for_bt_type();
        epoch::set_cc_safe_ss_epoch(vf_in("gc"));
        n = vf_size("n");
        k = vf_in("k");
        vf_expose(k);
        vf_fill_n(m->wp_result_set_, n, [](vf_u64 i) {
            return wp::wp_meta::wp_result_elem_type(vf_in_at("rep", i), vf_in_at("rid", i), vf_flag_at("com", i),
                    std::tuple<bool, std::string, std::string>(vf_flag_at("wrote", i), vf_str_at("wl", i), vf_str_at("wr", i)));
        });
    }
};
static scan_endpoint ep(const char* s) {
    vf_u64 a = vf_in(s) & 3U;
    vf_assume(a < 3);
    return a == 0 ? scan_endpoint::INF : a == 1 ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE;
}
// a key x is covered by the range read
using range_t = std::tuple<std::string, scan_endpoint, std::string, scan_endpoint, bool>;
static bool covered(range_t& r, std::string& x) {
    return std::get<4>(r) && (std::get<1>(r) == scan_endpoint::INF || !(x < std::get<0>(r))) && (std::get<3>(r) == scan_endpoint::INF || !(std::get<2>(r) < x));
}

// results of transactions overtaken
VF_HARNESS(order) {
    world w;
    vf_assume(w.k < w.n);
    auto& e = w.ti->overtaken_ltx_set_[w.m];
    vf_u64 no = vf_size("no"), j = vf_in("j");
    vf_assume(j < no);
    vf_expose(j);
    vf_fill_n(std::get<0>(e), no, [](vf_u64 i) { return vf_in_at("oid", i); });
    auto& r = std::get<1>(e);
    std::get<0>(r) = vf_str("rl");
    std::get<1>(r) = ep("le");
    std::get<2>(r) = vf_str("rr");
    std::get<3>(r) = ep("re");
    std::get<4>(r) = true;
    std::string x = vf_str("x");
    // transaction k was overtaken, committed and wrote a key that was read
    bool hit = vf_in_at("rid", w.k) == vf_in_at("oid", j) && vf_flag_at("com", w.k) && vf_flag_at("wrote", w.k) && !(x < vf_str_at("wl", w.k)) && !(vf_str_at("wr", w.k) < x) && covered(r, x);
    vf_u64 re = vf_in_at("rep", w.k);
    struct { session* ti; bool hit; vf_u64 re, rub, ve; } c{w.ti, hit, re, w.rub, w.ve};
    vf_candidate([](void* p) {
        auto* q = static_cast<decltype(c)*>(p);
        return !q->hit || (q->ti->get_is_forwarding() && q->ti->get_valid_epoch() <= q->re);
    }, &c);
    vf_candidate([](void* p) {
        auto* q = static_cast<decltype(c)*>(p);
        return q->ti->get_valid_epoch() == q->ve || q->rub < q->ti->get_valid_epoch();
    }, &c);
    vf_candidate([](void* p) {
        auto* q = static_cast<decltype(c)*>(p);
        return q->ti->get_valid_epoch() <= q->ve;
    }, &c);
    Status rc = long_tx::verify(w.ti);
    VF_ASSERT(rc == Status::OK || rc == Status::ERR_CC, "a verdict is given");
    if (rc == Status::OK) {
        VF_ASSERT(!hit || w.ti->get_is_forwarding(), "a transaction that did not read what an older one wrote is ordered before it");
        VF_ASSERT(!hit || w.ti->get_valid_epoch() <= re, "its order is no later than that of each transaction it is ordered before");
        VF_ASSERT(w.ti->get_valid_epoch() == w.ve || w.rub < w.ti->get_valid_epoch(), "its order is later than each version it read");
    }
    VF_ASSERT(w.ti->get_valid_epoch() <= w.ve, "its order is never moved to a later epoch");
    VF_DONE();
}

// writes of a transaction that is ordered before others
static OP_TYPE op_of(vf_u64 i) {
    vf_u64 o = vf_in_at("op", i) & 3U;
    return o == 0 ? OP_TYPE::INSERT : o == 1 ? OP_TYPE::UPDATE : o == 2 ? OP_TYPE::UPSERT : OP_TYPE::DELETE;
}
static tid_word word(vf_u64 i) { return vf_word(vf_in_at("fl", i) & 12U, vf_in_at("tid", i), vf_in_at("bs", i), vf_in_at("we", i)); }
VF_HARNESS(writes) {
    world w;
    vf_assume(w.k < w.n);
    vf_objs<Record> recs("recs", [](void* p, vf_u64 i) {
        auto* r = static_cast<Record*>(p);
        new (&r->key_) std::string();
        r->key_.tok_ = i;
        r->tidw_ = word(i);
        r->get_read_by().set_max_epoch(vf_in_at("rb", i));
    });
    auto* rp = &recs;
    vf_fill_n(w.ti->write_set_.cont_for_bt_, w.n, [rp](vf_u64 i) {
        write_set_obj o(1, OP_TYPE::DELETE, rp->at(i));
        o.op_ = op_of(i);
        return std::pair<Record* const, write_set_obj>(rp->at(i), std::move(o));
    });
    the_psm = reinterpret_cast<wp::page_set_meta*>(::operator new(sizeof(wp::page_set_meta), std::align_val_t(64)));
    vf_u64 rs = vf_in("range_short");
    the_psm->range_read_by_short_.set_max_epoch(rs);
    read_range_long = vf_flag("rrl");
    read_long = vf_flag("rl");
    watched_read = &recs.at(w.k)->get_point_read_by_long();
    w.ti->set_is_forwarding(true);
    OP_TYPE op = op_of(w.k);
    tid_word t = word(w.k);
    bool alive = t.get_latest() && !t.get_absent();
    bool kvs = op == OP_TYPE::INSERT ? !(t.get_latest() && t.get_absent()) : op == OP_TYPE::UPSERT ? false : !alive;
    bool point = read_long || w.ve <= vf_in_at("rb", w.k);
    bool range = op != OP_TYPE::UPDATE && (read_range_long || w.ve <= rs);
    bool bad[3] = {kvs, point, range};
    vf_candidate([](void* b) { auto* p = static_cast<bool*>(b); return !p[0] && !p[1] && !p[2]; }, bad);
    Status rc = long_tx::verify(w.ti);
    VF_ASSERT(rc == Status::OK || rc == Status::ERR_CC, "a verdict is given");
    if (rc == Status::OK) {
        VF_ASSERT(!kvs, "what is inserted does not exist, what is updated or deleted exists");
        VF_ASSERT(!point, "no committed read of a record written is invalidated");
        VF_ASSERT(!range, "no committed scan over a record inserted or deleted is invalidated");
    }
    VF_DONE();
}
// reservations of older transactions passed by a read
static void overtake(bool point, bool result) {
    world w;
    wp::wp_meta::wped_type wps;
    for (auto& a : wps) { a = {0, 0}; }
    vf_u64 other = vf_in("other");
    bool must = false;
    if (result) {
        // finished
        vf_assume(w.k < w.n && vf_in_at("rid", w.k) == other);
        must = other < vf_in("id") && vf_flag_at("com", w.k) && vf_in_at("rep", w.k) == w.ve;
    } else {
        // running, in the first, a middle or the last slot
        vf_u64 j = vf_in("j");
        wps[0].second = j == 0 ? other : 0;
        wps[KVS_MAX_PARALLEL_THREADS / 2].second = j == 1 ? other : 0;
        wps[KVS_MAX_PARALLEL_THREADS - 1].second = j == 2 ? other : 0;
        vf_assume(j < 3);
        must = other != 0 && other < vf_in("id");
    }
    watched_id = other;
    inserted = 0;
    vf_candidate([](void* m) { return !*static_cast<bool*>(m) || inserted != 0; }, &must);
    auto& e = w.ti->overtaken_ltx_set_[w.m];
    auto& r = std::get<1>(e);
    std::get<4>(r) = false;
    if (point) {
        wp::extract_higher_priori_ltx_info(w.ti, w.m, wps, vf_view_of(vf_in("key")));
    } else {
        wp::extract_higher_priori_ltx_info(w.ti, w.m, wps);
    }
    VF_ASSERT(!must || inserted != 0, "each older transaction that may write what is read is noted");
    VF_DONE();
}
VF_HARNESS(overtakes_running) { overtake(true, false); }
VF_HARNESS(overtakes_done) { overtake(true, true); }
VF_HARNESS(overtakes_all_running) { overtake(false, false); }
VF_HARNESS(overtakes_all_done) { overtake(false, true); }

// the range read covers every key read
struct ranged {
    world w;
    range_t* r;
    bool before;
    std::string x;
    ranged() {
        auto& e = w.ti->overtaken_ltx_set_[w.m];
        r = &std::get<1>(e);
        std::get<0>(*r) = vf_str("rl");
        std::get<1>(*r) = ep("le");
        std::get<2>(*r) = vf_str("rr");
        std::get<3>(*r) = ep("re");
        std::get<4>(*r) = vf_flag("init");
        x = vf_str("x");
        before = covered(*r, x);
    }
    void after(bool in) {
        r = &std::get<1>(w.ti->overtaken_ltx_set_[w.m]);
        VF_ASSERT(!before || covered(*r, x), "what was read stays covered");
        VF_ASSERT(!in || covered(*r, x), "what is read is covered");
        VF_DONE();
    }
};
VF_HARNESS(range_point) {
    ranged a;
    std::string key = vf_str("key");
    long_tx::update_local_read_range(a.w.ti, a.w.m, key);
    a.after(a.x == key);
}
VF_HARNESS(range_both) {
    ranged a;
    std::string l = vf_str("l"), r = vf_str("r");
    auto le = ep("le2"), re = ep("re2");
    long_tx::update_local_read_range(a.w.ti, a.w.m, l, le, r, re);
    a.after((le == scan_endpoint::INF || !(a.x < l)) && (re == scan_endpoint::INF || !(r < a.x)));
}
VF_HARNESS(range_left) {
    ranged a;
    std::string l = vf_str("l");
    auto le = ep("le2");
    long_tx::update_local_read_range(a.w.ti, a.w.m, l, le);
    auto& r = std::get<1>(a.w.ti->overtaken_ltx_set_[a.w.m]);
    VF_ASSERT((le != scan_endpoint::INF && a.x < l) || std::get<1>(r) == scan_endpoint::INF || !(a.x < std::get<0>(r)), "the left end is covered");
    a.after(false);
}
