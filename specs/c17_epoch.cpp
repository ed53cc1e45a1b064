// C17: epochs and the safe snapshot
//@property C17: *
//@property C06: settled settled_two overtaking snapshot_alone snapshot_beside
//@sources src/concurrency_control/session.cpp src/concurrency_control/session_table.cpp src/concurrency_control/ongoing_tx.cpp src/concurrency_control/interface/read_only_tx/read_only_tx.cpp
//@opt * unroll=4
//@override _ZNSt5arrayIN9shirakami7sessionELm300EE5beginEv = table_begin
//@override _ZNSt5arrayIN9shirakami7sessionELm300EE3endEv = table_end
//@nonative *
//@assumed overtaking: one storage was read past reservations of older transactions; it has any number of results
//@assumed publishing: the session table has two sessions (each slot is examined by the same code)
#include "concurrency_control/epoch.cpp"
#include "concurrency_control/interface/read_only_tx/include/read_only_tx.h"
#include "sh.h"
using namespace shirakami;

namespace shirakami {
Status get_tx_id(Token, std::string&) { return Status::WARN_NOT_BEGIN; }
}
static session* tx(const char* ve, bool ro) {
    auto* ti = vf_session();
    new (&ti->mtx_overtaken_ltx_set_) std::shared_mutex();
    new (&ti->overtaken_ltx_set_) session::overtaken_ltx_set_type();
    ti->set_valid_epoch(vf_in(ve));
    ti->set_tx_type(ro ? transaction_options::transaction_type::READ_ONLY : transaction_options::transaction_type::LONG);
    return ti;
}
static void running() {
    new (&ongoing_tx::mtx_) std::shared_mutex();
    new (&ongoing_tx::tx_info_) ongoing_tx::tx_info_type();
    epoch::set_global_epoch(vf_in("global"));
    vf_assume(vf_in("global") < 1UL << 60U);
}
static void add(vf_u64 id, session* ti) { ongoing_tx::tx_info_.emplace_back(ti->get_valid_epoch(), id, ti); }

VF_HARNESS(settled_none) {
    running();
    epoch::compute_and_set_cc_safe_ss_epoch();
    VF_ASSERT(epoch::get_cc_safe_ss_epoch() <= vf_in("global") + 1, "without long transactions everything before the next epoch is settled");
    VF_DONE();
}
VF_HARNESS(settled_read_only) {
    running();
    add(1, tx("a", true));
    epoch::compute_and_set_cc_safe_ss_epoch();
    VF_ASSERT(epoch::get_cc_safe_ss_epoch() == vf_in("global") + 1, "read only transactions do not hold the safe snapshot back");
    VF_DONE();
}
VF_HARNESS(settled) {
    running();
    vf_assume(vf_in("a") != 0);
    add(1, tx("a", false));
    add(2, tx("b", true));
    epoch::compute_and_set_cc_safe_ss_epoch();
    VF_ASSERT(epoch::get_cc_safe_ss_epoch() <= vf_in("a"), "the safe snapshot is not after a running long transaction");
    VF_DONE();
}
VF_HARNESS(settled_two) {
    running();
    vf_assume(vf_in("a") != 0 && vf_in("b") != 0);
    add(1, tx("a", false));
    add(2, tx("b", false));
    epoch::compute_and_set_cc_safe_ss_epoch();
    VF_ASSERT(epoch::get_cc_safe_ss_epoch() <= vf_in("a"), "the safe snapshot is not after the first running long transaction");
    VF_ASSERT(epoch::get_cc_safe_ss_epoch() <= vf_in("b"), "the safe snapshot is not after the second running long transaction");
    VF_DONE();
}
// a long transaction that may be ordered before others that committed
VF_HARNESS(overtaking) {
    running();
    auto* ti = tx("a", false);
    vf_u64 ve = vf_in("a");
    vf_assume(ve != 0);
    auto* m = reinterpret_cast<wp::wp_meta*>(::operator new(sizeof(wp::wp_meta), std::align_val_t(64))); // NOLINT
    new (&m->mtx_wp_result_set_) std::shared_mutex();
    new (&m->wp_result_set_) wp::wp_meta::wp_result_set_type();
    vf_u64 n = vf_size("n"), k = vf_in("k"), no = vf_size("no"), j = vf_in("j");
    vf_assume(k < n && j < no);
    vf_expose(k);
    vf_expose(j);
    vf_fill_n(m->wp_result_set_, n, [](vf_u64 i) {
        return wp::wp_meta::wp_result_elem_type(vf_in_at("rep", i), vf_in_at("rid", i), vf_flag_at("com", i), std::tuple<bool, std::string, std::string>(true, "", ""));
    });
    vf_fill_n(std::get<0>(ti->overtaken_ltx_set_[m]), no, [](vf_u64 i) { return vf_in_at("oid", i); });
    add(1, ti);
    bool hit = vf_flag_at("com", k) && vf_in_at("rid", k) == vf_in_at("oid", j);
    vf_assume(hit);
    vf_u64 re = vf_in_at("rep", k);
    epoch::compute_and_set_cc_safe_ss_epoch();
    VF_ASSERT(epoch::get_cc_safe_ss_epoch() <= ve, "the safe snapshot is not after a running long transaction");
    VF_ASSERT(epoch::get_cc_safe_ss_epoch() <= re, "nor after a place it may be ordered at");
    VF_DONE();
}

// a short transaction that publishes while the epoch advances
static vf_u64 epoch_of(const void* p) { return *static_cast<const vf_u64*>(p) & session::lock_and_epoch_t::UINT63_MASK; }
static bool locked(const void* p) { return (*static_cast<const vf_u64*>(p) >> 63U) != 0; }
// the session locks and unlocks its word; the epoch in it moves forward only when it unlocks
static vf_u64 now;
static bool session_does(const void* o, const void* n) { return epoch_of(o) <= epoch_of(n) && epoch_of(n) <= now; }
static bool epoch_thread_does(const void* o, const void* n) { return !locked(o) && !locked(n) && epoch_of(n) == now; }
extern "C" session* table_begin(session* t) { return t; }
extern "C" session* table_end(session* t) { return t + 2; }
static void publishing_at(vf_u64 slot) {
    auto* t = session_table::get_session_table().begin();
    now = vf_in("now");
    vf_assume(now < 1UL << 60U);
    vf_u64* p = reinterpret_cast<vf_u64*>(&t[slot].short_expose_ongoing_status_); // NOLINT
    vf_assume(epoch_of(p) <= now);
    vf_shared(p, 8, &session_does, &epoch_thread_does);
    epoch::refresh_short_expose_ongoing_status(now);
    vf_u64 min = epoch::get_min_epoch_occ_potentially_write();
    vf_unshare();
    VF_ASSERT(min <= epoch_of(p), "the settled point is not after the epoch a short transaction publishes in");
    VF_DONE();
}
VF_HARNESS(publishing_first) { publishing_at(0); }
VF_HARNESS(publishing_last) { publishing_at(1); }
VF_HARNESS(window) {
    auto* ti = vf_session();
    epoch::set_global_epoch(vf_in("global"));
    vf_u64 e = vf_in("e");
    vf_assume(e <= vf_in("global") && vf_in("global") < 1UL << 60U);
    ti->short_expose_ongoing_status_.store(e);
    ti->lock_short_expose_ongoing();
    VF_ASSERT(ti->get_short_expose_ongoing_status().get_lock(), "a publishing transaction is seen as such");
    VF_ASSERT(ti->get_short_expose_ongoing_status().get_target_epoch() == e, "from an epoch not after the one it publishes in");
    ti->unlock_short_expose_ongoing_and_refresh_epoch();
    VF_ASSERT(!ti->get_short_expose_ongoing_status().get_lock(), "and not after it has published");
    VF_ASSERT(ti->get_short_expose_ongoing_status().get_target_epoch() >= e, "epochs of a session do not move back");
    VF_ASSERT(ti->get_short_expose_ongoing_status().get_target_epoch() <= vf_in("global"), "nor beyond the current one");
    VF_DONE();
}

// begin of a read only transaction
static void snapshot(bool alone) {
    running();
    new (&wp::get_wp_mutex()) std::mutex();
    vf_u64 safe = vf_in("safe");
    epoch::set_cc_safe_ss_epoch(safe);
    if (!alone) { add(1, tx("a", false)); }
    auto* ti = vf_session();
    vf_u64 before = ongoing_tx::tx_info_.size();
    read_only_tx::tx_begin(ti);
    VF_ASSERT(ti->get_valid_epoch() <= (alone ? vf_in("global") + 1 : safe), "a snapshot is taken where history is settled");
    VF_ASSERT(ongoing_tx::tx_info_.size() == before + 1, "and is registered");
    auto& e = ongoing_tx::tx_info_.back();
    VF_ASSERT(std::get<ongoing_tx::index_session>(e) == ti && std::get<ongoing_tx::index_epoch>(e) == ti->get_valid_epoch(), "with its epoch");
    VF_DONE();
}
VF_HARNESS(snapshot_alone) { snapshot(true); }
VF_HARNESS(snapshot_beside) { snapshot(false); }
