// C16: what collection takes away
//@property C16: *
//@property C06: prune thresholds_snapshot thresholds_any
//@sources src/concurrency_control/tid.cpp src/concurrency_control/record.cpp src/concurrency_control/session.cpp src/concurrency_control/session_table.cpp
//@override _ZN9shirakami7garbageL19delete_version_listEPNS_7versionE = cut_contract
//@override _ZN9shirakami8tid_word4lockEb = lock_contract
//@override _ZN9shirakamiL6removeEPvmSt14vf_string_view = remove_contract
//@override _ZN9shirakami6RecordD1Ev = destroy_contract
//@override _ZdlPvSt11align_val_t = free_contract
//@override _ZNSt5arrayIN9shirakami7sessionELm300EE5beginEv = table_begin
//@override _ZNSt5arrayIN9shirakami7sessionELm300EE3endEv = table_end
//@override _ZN9shirakamiL7sleepUsEm = sleep_contract
//@opt * unroll=4
//@nonative *
//@assumed prune: no end of the list of versions is met
//@assumed thresholds: the session table has two sessions (each slot is examined by the same code)
#include "concurrency_control/garbage.cpp"
#include "sh.h"
using namespace shirakami;

static vf_u64 w, snap, cuts, first_cut;
extern "C" void cut_contract(version* v) {
    ++cuts;
    first_cut = v->tid_.get_tid();
}
// versions 0 (newest) .. ; a snapshot reads version w
static vf_u64 epoch_of(vf_u64 i) {
    vf_u64 e = vf_in_at("ep", i) & 0xffffffffUL;
    return i < w ? (e < snap ? snap : e) : e;
}
static constexpr vf_u64 LAST = 1UL << 40U;
VF_HARNESS(prune) {
    vf_u64 n = LAST;
    w = vf_in("w");
    vf_expose(w);
    snap = vf_in("snapshot") & 0xffffffffUL;
    vf_u64 mb = vf_in("batch"), ms = vf_in("begin");
    vf_assume(n >= 1 && w < n && mb <= snap && epoch_of(w) < snap);
    vf_objs<version> v("versions", [](void* p, vf_u64 i) {
        auto* x = static_cast<version*>(p);
        x->tid_ = vf_word(0, i, 1, epoch_of(i));
        x->next_ = static_cast<version*>(vf_sibling(i < LAST ? i + 1 : LAST));
    });
    garbage::set_min_batch_epoch(mb);
    garbage::set_min_begin_epoch(ms);
    Record rec(std::string_view{});
    vf_u64 fl = vf_in("flags") & 12U;
    vf_assume(fl != 8U);
    rec.tidw_ = vf_word(fl, 0, 1, epoch_of(0));
    rec.latest_ = v.at(0);
    cuts = 0;
    std::size_t stat = 0;
    bool again = false;
    garbage::unhooking_keys_and_pruning_versions(nullptr, 1, &rec, stat, again);
    VF_ASSERT(cuts == 0 || w < first_cut, "the version a snapshot reads stays");
    VF_ASSERT(cuts == 0 || first_cut == LAST || v.at(first_cut - 1)->next_ == nullptr, "versions taken away are no longer reachable");
    VF_DONE();
}

static vf_u64 unhooked;
static Record* the_rec;
static tid_word at_removal;
static tid_word fresh() { return vf_word(vf_fresh_u64() & 12U, vf_fresh_u64(), vf_fresh_u64() & 1U, vf_fresh_u64() & 0xffffffffUL); }
// until it is locked the record is changed by others
extern "C" void lock_contract(tid_word* t, bool by_gc) {
    *t = fresh();
    t->set_lock(true);
    t->set_lock_by_gc(by_gc);
}
extern "C" Status remove_contract(yakushima::Token, Storage, void*) {
    ++unhooked;
    at_removal = the_rec->tidw_;
    return Status::OK;
}
VF_HARNESS(unhook) {
    Record rec(std::string_view{});
    the_rec = &rec;
    rec.tidw_ = vf_word(vf_in("flags") & 12U, vf_in("tid"), 1, vf_in("epoch") & 0xffffffffUL);
    vf_u64 mb = vf_in("batch"), ms = vf_in("begin");
    garbage::set_min_batch_epoch(mb);
    garbage::set_min_begin_epoch(ms);
    epoch::set_global_epoch(vf_in("global"));
    new (&garbage::get_container_rec()) std::remove_reference_t<decltype(garbage::get_container_rec())>();
    unhooked = 0;
    bool again = false;
    Status rc = garbage::unhooking_key(nullptr, 1, &rec, again);
    VF_ASSERT((rc == Status::OK) == (unhooked != 0), "the verdict tells whether the record was removed");
    if (unhooked != 0) {
        VF_ASSERT(at_removal.get_lock() && at_removal.get_lock_by_gc(), "a record is removed from the index only while the collector holds it");
        VF_ASSERT(at_removal.get_absent() && !at_removal.get_latest(), "only a deleted record is removed from the index");
        VF_ASSERT(at_removal.get_epoch() < ms && at_removal.get_epoch() < mb, "only a record whose deletion every transaction sees is removed");
        auto& c = garbage::get_container_rec();
        VF_ASSERT(c.size() == 1 && c[0].first == &rec && c[0].second == vf_in("global"), "its memory is kept from then on");
    }
    VF_ASSERT(!rec.tidw_.get_lock(), "the record is left unlocked");
    VF_DONE();
}

static vf_u64 k, destroyed, me;
extern "C" void destroy_contract(Record* r) {
    if (r->key_.tok_ == k) { destroyed = 1; }
}
extern "C" void free_contract(void*, vf_u64) {}
VF_HARNESS(release) {
    vf_u64 n = vf_size("n");
    k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    vf_objs<Record> recs("recs", [](void* p, vf_u64 i) {
        auto* r = static_cast<Record*>(p);
        new (&r->key_) std::string();
        r->key_.tok_ = i;
    });
    auto* rp = &recs;
    auto& c = garbage::get_container_rec();
    new (&c) std::remove_reference_t<decltype(c)>();
    vf_fill_n(c, n, [rp](vf_u64 i) { return std::pair<Record*, epoch::epoch_t>(rp->at(i), vf_in_at("when", i)); });
    vf_u64 mb = vf_in("batch"), ms = vf_in("begin");
    garbage::set_min_batch_epoch(mb);
    garbage::set_min_begin_epoch(ms);
    destroyed = 0;
    bool old = vf_in_at("when", k) < mb && vf_in_at("when", k) < ms;
    struct { bool old; } cx{old};
    vf_candidate([](void* p) { return destroyed == 0 || static_cast<decltype(cx)*>(p)->old; }, &cx);
    garbage::release_key_memory();
    VF_ASSERT(destroyed == 0 || old, "memory is released only after every transaction that may refer to it has ended");
    VF_DONE();
}

extern "C" void sleep_contract(vf_u64) { garbage::set_flag_manager_end(true); }
namespace shirakami {
void switch_available_boundary_version(limestone::api::datastore*, epoch::epoch_t) {}
}
extern "C" session* table_begin(session* t) { return t; }
extern "C" session* table_end(session* t) { return t + 2; }
static vf_u64 oep(vf_u64 i) {
    vf_u64 e = vf_in_at("oep", i);
    return e == 0 ? 1 : e;
}
static void thresholds(bool long_tx) {
    garbage::set_flag_manager_end(false);
    auto* t = session_table::get_session_table().begin();
    vf_u64 old = vf_in("old"), csse = vf_in("safe");
    garbage::set_min_begin_epoch(old);
    epoch::set_cc_safe_ss_epoch(csse);
    epoch::set_global_epoch(vf_in("global"));
    for (vf_u64 i = 0; i < 2; ++i) {
        t[i].set_visible(vf_flag_at("visible", i));
        t[i].set_tx_began(vf_flag_at("began", i));
        t[i].set_begin_epoch(vf_in_at("begin", i));
        vf_assume(vf_in_at("begin", i) < epoch::max_epoch);
        t[i].set_valid_epoch(vf_in_at("valid", i));
    }
    vf_u64 s = vf_in("s");
    vf_assume(s < 2);
    bool live = vf_flag_at("visible", s) && vf_flag_at("began", s);
    vf_assume(!long_tx || (live && vf_in_at("valid", s) != 0));
    new (&ongoing_tx::mtx_) std::shared_mutex();
    new (&ongoing_tx::tx_info_) ongoing_tx::tx_info_type();
    vf_u64 n = vf_size("n"), o = vf_in("o");
    vf_assume(o < n);
    vf_expose(o);
    vf_fill_n(ongoing_tx::tx_info_, n, [](vf_u64 i) { return ongoing_tx::tx_info_elem_type(oep(i), vf_in_at("oid", i), nullptr); });
    garbage::work_manager();
    vf_u64 mb = garbage::get_min_batch_epoch(), ms = garbage::get_min_begin_epoch();
    VF_ASSERT(mb <= csse, "what is taken away is before every later snapshot");
    VF_ASSERT(!long_tx || mb <= vf_in_at("valid", s), "and before the snapshot of each running transaction");
    VF_ASSERT(mb <= oep(o), "and before each snapshot registered");
    VF_ASSERT(!live || ms <= vf_in_at("begin", s) || ms == old, "the bound for short transactions does not pass a running transaction");
    VF_DONE();
}
VF_HARNESS(thresholds_snapshot) { thresholds(true); }
VF_HARNESS(thresholds_any) { thresholds(false); }
