// C26: transaction state handles
//@property C26: *
//@sources src/concurrency_control/transaction_state.cpp src/concurrency_control/session.cpp
//@override _ZNK9shirakami7session24find_high_priority_shortEb = short_contract
//@opt * unroll=4
//@nonative *
//@assumed session::find_high_priority_short: any verdict
//@assumed two handles are registered
#include "concurrency_control/include/session.h"
#include "shirakami/interface.h"
#include "sh.h"
using namespace shirakami;
using kind = TxState::StateKind;

static bool premature;
extern "C" Status short_contract(session*, bool) { return premature ? Status::WARN_PREMATURE : Status::OK; }
static kind any_kind(const char* s) {
    vf_u64 k = vf_in(s) & 7U;
    vf_assume(k < 7);
    return static_cast<kind>(k);
}
static constexpr TxStateHandle A = 5, B = 6;
static session* begun() {
    auto* ti = vf_session();
    premature = vf_flag("premature");
    ti->set_tx_began(true);
    ti->set_has_current_tx_state_handle(false);
    vf_u64 t = vf_in("type") & 3U;
    vf_assume(t < 3);
    ti->set_tx_type(t == 0 ? transaction_options::transaction_type::SHORT : t == 1 ? transaction_options::transaction_type::LONG : transaction_options::transaction_type::READ_ONLY);
    ti->set_valid_epoch(vf_in("valid"));
    return ti;
}
static void registry() {
    new (&TxState::mtx_hc_) std::shared_mutex();
    new (&TxState::mtx_reuse_ctr_container_) std::mutex();
    new (&TxState::handle_container_) TxState::handle_container_type();
    new (&TxState::reuse_ctr_container_) std::vector<TxStateHandle>();
    TxState::handle_ctr_ = 7;
    epoch::set_global_epoch(vf_in("global"));
    epoch::datastore_durable_epoch.store(vf_in("durable"));
}
static void two_handles(session* a, session* b) {
    registry();
    TxState::insert_tx_state(A);
    TxState::insert_tx_state(B);
    auto& x = TxState::get_tx_state(A);
    auto& y = TxState::get_tx_state(B);
    x.set_token(a);
    x.set_kind(any_kind("ka"));
    x.set_serial_epoch(vf_in("sa"));
    x.set_durable_epoch(vf_in("da"));
    y.set_token(b);
    y.set_kind(any_kind("kb"));
    y.set_serial_epoch(vf_in("sb"));
    y.set_durable_epoch(vf_in("db"));
}

VF_HARNESS(check) {
    auto* a = begun();
    auto* b = vf_session();
    two_handles(a, b);
    TxState out;
    Status rc = check_tx_state(A, out);
    kind k = any_kind("ka"), r = out.state_kind();
    bool is_short = vf_in("sa") == 0, due = is_short || vf_in("sa") <= vf_in("global");
    VF_ASSERT(rc == Status::OK, "the phase of a registered handle is reported");
    if (k == kind::WAITING_START) {
        if (!is_short) {
            VF_ASSERT((r == kind::STARTED) == (due && !premature), "a transaction is started when its epoch has arrived and older short transactions are settled");
            VF_ASSERT(r == kind::STARTED || r == kind::WAITING_START, "otherwise it waits to start");
        }
    } else if (k == kind::WAITING_DURABLE) {
        VF_ASSERT(r != kind::DURABLE || vf_in("da") <= vf_in("durable"), "a transaction is reported durable only when its epoch is durable");
        VF_ASSERT(!due || vf_in("da") > vf_in("durable") || r == kind::DURABLE, "a transaction whose epoch is durable is reported durable");
        VF_ASSERT(r == kind::DURABLE || r == kind::WAITING_DURABLE, "otherwise it waits for durability");
    } else {
        VF_ASSERT(r == k, "other phases are reported as they are");
    }
    VF_ASSERT(TxState::get_tx_state(A).state_kind() == r, "a phase reported stays");
    VF_ASSERT(TxState::get_tx_state(B).state_kind() == any_kind("kb"), "other transactions are not influenced");
    VF_DONE();
}
VF_HARNESS(unknown_handle) {
    two_handles(vf_session(), vf_session());
    TxState out;
    vf_u64 h = vf_in("h");
    vf_assume(h != A && h != B);
    VF_ASSERT(check_tx_state(h, out) == Status::WARN_INVALID_HANDLE, "a handle never issued is rejected");
    VF_ASSERT(release_tx_state_handle(h) == Status::WARN_INVALID_HANDLE, "and cannot be released");
    VF_ASSERT(TxState::handle_container_.size() == 2, "nothing is taken away");
    VF_DONE();
}
VF_HARNESS(release) {
    auto* a = begun();
    auto* b = vf_session();
    two_handles(a, b);
    a->set_has_current_tx_state_handle(true);
    bool current = vf_flag("current");
    a->set_current_tx_state_handle(current ? A : 99);
    VF_ASSERT(release_tx_state_handle(A) == Status::OK, "a registered handle can be released");
    TxState out;
    VF_ASSERT(check_tx_state(A, out) == Status::WARN_INVALID_HANDLE, "a released handle is rejected");
    VF_ASSERT(a->get_has_current_tx_state_handle() == !current, "the transaction of the handle, and only that, is told");
    VF_ASSERT(TxState::get_tx_state(B).state_kind() == any_kind("kb"), "other handles stay");
    VF_DONE();
}
VF_HARNESS(acquire) {
    auto* ti = begun();
    registry();
    TxStateHandle h{};
    Status rc = acquire_tx_state_handle(ti, h);
    VF_ASSERT(rc == Status::OK && h == 7, "a transaction gets a handle of its own");
    auto k = TxState::get_tx_state(h).state_kind();
    bool is_short = ti->get_tx_type() == transaction_options::transaction_type::SHORT;
    VF_ASSERT(!is_short || k == kind::STARTED, "a short transaction is started");
    VF_ASSERT(is_short || (k == kind::WAITING_START) == (vf_in("valid") > vf_in("global") || premature), "others wait until their epoch has arrived");
    VF_ASSERT(k == kind::STARTED || k == kind::WAITING_START, "no later phase is reported");
    TxStateHandle again{};
    rc = acquire_tx_state_handle(ti, again);
    VF_ASSERT(rc == Status::WARN_ALREADY_EXISTS && again == h, "a transaction has one handle");
    ti->set_tx_began(false);
    VF_ASSERT(acquire_tx_state_handle(ti, again) == Status::WARN_NOT_BEGIN, "a transaction that has not begun has none");
    VF_DONE();
}
VF_HARNESS(own_handles) {
    registry();
    auto* a = begun();
    auto* b = vf_session();
    b->set_tx_began(true);
    b->set_has_current_tx_state_handle(false);
    b->set_tx_type(transaction_options::transaction_type::SHORT);
    TxStateHandle x{}, y{};
    acquire_tx_state_handle(a, x);
    acquire_tx_state_handle(b, y);
    VF_ASSERT(x != y, "handles of different transactions differ");
    VF_ASSERT(TxState::get_tx_state(x).get_token() == a && TxState::get_tx_state(y).get_token() == b, "each handle belongs to its transaction");
    b->set_tx_state_if_valid(kind::ABORTED);
    VF_ASSERT(TxState::get_tx_state(y).state_kind() == kind::ABORTED && TxState::get_tx_state(x).state_kind() != kind::ABORTED, "the end of one transaction is not reported for another");
    VF_DONE();
}
