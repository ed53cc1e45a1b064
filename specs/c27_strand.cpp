// C27, C23, C19: what surrounds the operations of a transaction
//@property C27: *
//@property C23: commits aborts reads exists begins begins_again enters leaves leaves_running leaves_pending gives_back
//@property C19: commits commits_again commits_nothing registers tells ends
//@property C25: begins
//@sources src/concurrency_control/interface/termination.cpp src/concurrency_control/interface/search.cpp src/concurrency_control/interface/tx_begin.cpp src/concurrency_control/interface/session_management.cpp src/concurrency_control/session_table.cpp src/concurrency_control/session.cpp src/database/tx_state_notification.cpp
//@override _ZNSt5arrayIN9shirakami7sessionELm300EE5beginEv = table_begin
//@override _ZNSt5arrayIN9shirakami7sessionELm300EE3endEv = table_end
//@opt * unroll=4
//@nonative *
//@assumed commit, abort, begin and reads of each kind of transaction: any status (their own contracts)
//@assumed enters, leaves: the session table has two sessions (each slot is examined by the same code)
#include "sh.h"
#include "concurrency_control/include/wp.h"
#include "concurrency_control/interface/include/helper.h"
#include "concurrency_control/interface/long_tx/include/long_tx.h"
#include "concurrency_control/interface/read_only_tx/include/read_only_tx.h"
#include "concurrency_control/interface/short_tx/include/short_tx.h"
#include "database/include/tx_state_notification.h"
#include "shirakami/interface.h"
using namespace shirakami;

static vf_u64 committed, aborted, searched, kind_called;
static bool key_too_long, by_user, pending;
static Status verdict;
static vf_u64 cb_seen;
static session* the_ti;
static void alone(session* ti) { VF_ASSERT(vf_held(&ti->mtx_state_da_term_) == 1, "termination excludes every operation of the transaction"); }
static Status commit_of(session* ti, vf_u64 k) {
    alone(ti);
    ++committed;
    kind_called = k;
    cb_seen = ti->commit_callback_.id_;
    // the transaction ends unless it has to wait
    if (verdict != Status::WARN_WAITING_FOR_OTHER_TX) {
        ti->set_tx_began(false);
        ti->call_commit_callback(verdict, {}, 0);
    }
    return verdict;
}
static Status abort_of(session* ti, vf_u64 k) {
    if (by_user) { alone(ti); }
    ++aborted;
    kind_called = k;
    ti->set_tx_began(false);
    return Status::OK;
}
static Status search_of(session* ti, vf_u64 k) {
    VF_ASSERT(vf_held(&ti->mtx_state_da_term_) != 0, "a read excludes termination of the transaction");
    ++searched;
    kind_called = k;
    return verdict;
}
namespace shirakami {
Status check_constraint_key_length(std::string_view) { return key_too_long ? Status::WARN_INVALID_KEY_LENGTH : Status::OK; }
namespace short_tx {
Status commit(session* ti) { return commit_of(ti, 1); }
Status abort(session* ti) { return abort_of(ti, 1); }
Status search_key(session* ti, Storage, std::string_view, std::string&, bool) { return search_of(ti, 1); }
}
namespace long_tx {
Status commit(session* ti) { return commit_of(ti, 2); }
Status abort(session* ti) { return abort_of(ti, 2); }
Status search_key(session* ti, Storage, std::string_view, std::string&, bool) { return search_of(ti, 2); }
Status check_commit(Token t) {
    if (!pending) { return Status::OK; }
    // decided by another thread at some time
    if (!vf_fresh_bool()) { return Status::WARN_WAITING_FOR_OTHER_TX; }
    pending = false;
    static_cast<session*>(t)->set_tx_began(false);
    return verdict;
}
Status tx_begin(session*, std::vector<Storage>, transaction_options::read_area) { return verdict; }
}
namespace read_only_tx {
Status commit(session* ti) { return commit_of(ti, 3); }
Status abort(session* ti) { return abort_of(ti, 3); }
Status search_key(session* ti, Storage, std::string_view, std::string&, bool) { return search_of(ti, 3); }
Status tx_begin(session*) { return Status::OK; }
}
}
using type = transaction_options::transaction_type;
static type kind_of() {
    vf_u64 t = vf_in("type") & 3U;
    vf_assume(t < 3);
    return t == 0 ? type::SHORT : t == 1 ? type::LONG : type::READ_ONLY;
}
static vf_u64 no_of(type t) { return t == type::SHORT ? 1 : t == type::LONG ? 2 : 3; }
static session* world() {
    auto* ti = vf_session();
    new (&ti->mtx_state_da_term_) std::shared_mutex();
    new (&ti->mtx_termination_) std::mutex();
    new (&ti->mtx_result_info_) std::mutex();
    new (&ti->result_info_) result_info();
    new (&ti->commit_callback_) commit_callback_type();
    by_user = pending = false;
    committed = aborted = searched = kind_called = 0;
    ti->set_tx_type(kind_of());
    ti->set_tx_began(vf_flag("began"));
    ti->set_requested_commit(vf_flag("requested"));
    verdict = static_cast<Status>(static_cast<std::int32_t>(vf_in("status") & 63U) - 40);
    ti->get_mutex_flags().set_readaccess_daterm(true);
    the_ti = ti;
    return ti;
}
static commit_callback_type callback() { return [](Status, reason_code, durability_marker_type) {}; }

VF_HARNESS(commits) {
    auto* ti = world();
    vf_assume(!(kind_of() == type::LONG && vf_flag("requested")));
    auto cb = callback();
    vf_u64 id = cb.id_;
    bool done = commit(ti, cb);
    bool began = vf_flag("began");
    VF_ASSERT(committed == (began ? 1U : 0U), "a begun transaction is committed once, another is not");
    VF_ASSERT(!began || kind_called == no_of(kind_of()), "by the protocol of its kind");
    VF_ASSERT(!began || cb_seen == id, "its callback is known before it commits");
    VF_ASSERT(began || vf_callback_count(id) == 1, "the callback tells that there is no transaction");
    VF_ASSERT(done == (vf_callback_count(id) == 1), "the callback has been called exactly if that is reported");
    VF_ASSERT(vf_callback_count(id) <= 1, "the callback is not called twice");
    VF_ASSERT(vf_held(&ti->mtx_state_da_term_) == 0, "operations are possible again");
    VF_DONE();
}
VF_HARNESS(commits_nothing) {
    auto* ti = world();
    vf_assume(!vf_flag("began"));
    VF_ASSERT(commit(ti) == Status::WARN_NOT_BEGIN && committed == 0, "commit without a transaction is rejected");
    VF_DONE();
}
VF_HARNESS(commits_again) {
    auto* ti = world();
    vf_assume(kind_of() == type::LONG && vf_flag("requested") && vf_flag("began"));
    auto first = callback();
    ti->set_commit_callback(first);
    if (vf_flag("with")) {
        VF_ASSERT(!commit(ti, callback()), "commit repeated while one is pending does not end the transaction");
    } else {
        VF_ASSERT(commit(ti) == Status::WARN_WAITING_FOR_OTHER_TX, "commit repeated while one is pending does not end the transaction");
    }
    VF_ASSERT(committed == 0, "nor commit it twice");
    VF_ASSERT(ti->commit_callback_.id_ == first.id_, "the callback of the pending commit is kept");
    VF_DONE();
}
VF_HARNESS(aborts) {
    auto* ti = world();
    bool began = vf_flag("began"), pending = kind_of() == type::LONG && vf_flag("requested");
    by_user = true;
    Status rc = abort(ti);
    VF_ASSERT(aborted == (began && !pending ? 1U : 0U), "a begun transaction is aborted once, unless its commit is pending");
    VF_ASSERT(aborted == 0 || kind_called == no_of(kind_of()), "by the protocol of its kind");
    VF_ASSERT(began || rc == Status::WARN_NOT_BEGIN, "abort without a transaction is rejected");
    VF_ASSERT(!began || !pending || rc == Status::WARN_ILLEGAL_OPERATION, "abort of a transaction whose commit is pending is rejected");
    VF_ASSERT(!began || pending || (rc == Status::OK && ti->result_info_.get_reason_code() == reason_code::USER_ABORT), "the user's wish is the reason of the abort");
    VF_ASSERT(vf_held(&ti->mtx_state_da_term_) == 0, "operations are possible again");
    VF_DONE();
}
static void read(bool exist) {
    auto* ti = world();
    key_too_long = vf_flag("too_long");
    bool began = vf_flag("began"), failed = vf_flag("failed");
    if (failed) { ti->result_info_.set_reason_code(reason_code::CC_OCC_READ_VERIFY); }
    std::string value;
    auto k = vf_view_of(vf_in("key"));
    Status rc = exist ? exist_key(ti, 1, k) : search_key(ti, 1, k, value);
    bool go = began && !key_too_long;
    VF_ASSERT(searched == (go ? 1U : 0U), "a read is done once, in a begun transaction and for a key of supported length");
    VF_ASSERT(!key_too_long || rc == Status::WARN_INVALID_KEY_LENGTH, "a key too long is rejected");
    VF_ASSERT(began || key_too_long || rc == Status::WARN_NOT_BEGIN, "a read without a transaction is rejected");
    VF_ASSERT(!go || failed || rc == verdict, "the result of the read is reported");
    VF_ASSERT(failed || aborted == 0, "a transaction that has not failed is not aborted");
    VF_ASSERT(vf_held(&ti->mtx_state_da_term_) == 0, "termination is possible again");
    VF_DONE();
}
VF_HARNESS(reads) { read(false); }
VF_HARNESS(exists) { read(true); }

VF_HARNESS(begins) {
    auto* ti = world();
    vf_assume(!vf_flag("began"));
    ti->result_info_.set_reason_code(reason_code::CC_OCC_READ_VERIFY);
    ti->set_tx_counter(vf_in("counter"));
    ti->set_higher_tx_counter(vf_in("higher"));
    epoch::set_global_epoch(vf_in("global"));
    Status rc = tx_begin({ti, kind_of()});
    VF_ASSERT((rc == Status::OK) == ti->get_tx_began(), "a transaction has begun exactly if that is reported");
    VF_ASSERT(rc == Status::OK || kind_of() == type::LONG, "short and read only transactions always begin");
    VF_ASSERT(ti->result_info_.get_reason_code() == reason_code::UNKNOWN, "a new transaction starts without a reason of failure");
    VF_ASSERT(rc != Status::OK || ti->get_tx_type() == kind_of(), "with the kind asked for");
    VF_ASSERT(rc != Status::OK || kind_of() == type::READ_ONLY || ti->get_mutex_flags().do_readaccess_daterm(), "its reads exclude its termination");
    VF_ASSERT(rc != Status::OK || ti->get_begin_epoch() == vf_in("global"), "in the current epoch");
    VF_ASSERT(rc != Status::OK || ti->get_tx_counter() != vf_in("counter") || ti->get_higher_tx_counter() != vf_in("higher"), "and with a new identifier");
    VF_DONE();
}
VF_HARNESS(begins_again) {
    auto* ti = world();
    vf_assume(vf_flag("began"));
    ti->result_info_.set_reason_code(reason_code::CC_OCC_READ_VERIFY);
    ti->set_tx_counter(vf_in("counter"));
    VF_ASSERT(tx_begin({ti, type::SHORT}) == Status::WARN_ALREADY_BEGIN, "a second begin is rejected");
    VF_ASSERT(ti->get_tx_began() && ti->get_tx_type() == kind_of() && ti->get_tx_counter() == vf_in("counter"), "and does not disturb the transaction");
    VF_DONE();
}

extern "C" session* table_begin(session* t) { return t; }
extern "C" session* table_end(session* t) { return t + 2; }
namespace yakushima {
status enter(Token&) { return status::OK; }
status leave(Token) { return status::OK; }
}
VF_HARNESS(enters) {
    auto* t = session_table::get_session_table().begin();
    bool a = vf_flag("a"), b = vf_flag("b");
    t[0].set_visible(a);
    t[1].set_visible(b);
    Token s{};
    Status rc = enter(s);
    if (rc == Status::OK) {
        VF_ASSERT(s == &t[0] || s == &t[1], "a session of the table is given");
        VF_ASSERT(s != &t[0] || !a, "a session in use is not given again");
        VF_ASSERT(s != &t[1] || !b, "the last session in use is not given again");
        VF_ASSERT(static_cast<session*>(s)->get_visible(), "the session given is in use");
    } else {
        VF_ASSERT(rc == Status::ERR_SESSION_LIMIT, "otherwise the limit is reported");
    }
    VF_ASSERT((!a || t[0].get_visible()) && (!b || t[1].get_visible()), "sessions in use stay so");
    VF_DONE();
}
VF_HARNESS(leaves) {
    auto* t = session_table::get_session_table().begin();
    bool a = vf_flag("a"), b = vf_flag("b");
    t[0].set_visible(a);
    t[1].set_visible(b);
    t[0].set_tx_began(false);
    t[1].set_tx_began(false);
    vf_u64 i = vf_in("i");
    vf_assume(i < 2);
    Status rc = i == 0 ? leave(&t[0]) : leave(&t[1]);
    bool used = i == 0 ? a : b;
    VF_ASSERT(rc == (used ? Status::OK : Status::WARN_NOT_IN_A_SESSION), "only a session in use can be left");
    VF_ASSERT(t[0].get_visible() == (a && i != 0) && t[1].get_visible() == (b && i != 1), "leaving frees that session and no other");
    VF_DONE();
}
// a session left in the middle of a transaction
static session* running(type k, bool requested) {
    auto* t = session_table::get_session_table().begin();
    new (&t[0].mtx_state_da_term_) std::shared_mutex();
    new (&t[0].mtx_termination_) std::mutex();
    new (&t[0].mtx_result_info_) std::mutex();
    new (&t[0].result_info_) result_info();
    t[0].set_visible(true);
    t[1].set_visible(true);
    t[0].set_tx_type(k);
    t[0].set_tx_began(true);
    t[0].set_requested_commit(requested);
    committed = aborted = kind_called = 0;
    by_user = true;
    pending = requested;
    return t;
}
VF_HARNESS(leaves_running) {
    auto* t = running(kind_of(), false);
    VF_ASSERT(leave(&t[0]) == Status::OK, "a session can be left in the middle of a transaction");
    VF_ASSERT(aborted == 1 && kind_called == no_of(kind_of()) && !t[0].get_tx_began(), "which is aborted then");
    VF_ASSERT(!t[0].get_visible() && t[1].get_visible(), "leaving frees that session and no other");
    VF_DONE();
}
VF_HARNESS(leaves_pending) {
    auto* t = running(type::LONG, true);
    verdict = static_cast<Status>(static_cast<std::int32_t>(vf_in("status") & 63U) - 40);
    vf_assume(verdict != Status::WARN_WAITING_FOR_OTHER_TX);
    VF_ASSERT(leave(&t[0]) == Status::OK, "a session can be left while its commit is undecided");
    VF_ASSERT(!pending && !t[0].get_tx_began() && aborted == 0, "it is given back after the commit was decided");
    VF_ASSERT(!t[0].get_visible() && t[1].get_visible(), "leaving frees that session and no other");
    VF_DONE();
}
VF_HARNESS(gives_back) {
    auto* t = session_table::get_session_table().begin();
    t[0].set_visible(true);
    t[1].set_visible(true);
    VF_ASSERT(leave(vf_session()) == Status::WARN_INVALID_ARGS, "what is no session is rejected");
    VF_ASSERT(t[0].get_visible() && t[1].get_visible(), "and frees none");
    VF_DONE();
}

// durability callbacks
static void callbacks(vf_u64 n) {
    new (&get_mtx_durability_callbacks()) std::mutex();
    new (&get_durability_callbacks()) std::remove_reference_t<decltype(get_durability_callbacks())>();
    for (vf_u64 i = 0; i < n; ++i) { get_durability_callbacks().emplace_back([](durability_marker_type) {}); }
}
VF_HARNESS(registers) {
    callbacks(1);
    vf_u64 old = get_durability_callbacks()[0].id_;
    durability_callback_type cb = [](durability_marker_type) {};
    vf_assume(cb.id_ != old);
    VF_ASSERT(register_durability_callback(cb) == Status::OK, "a durability callback can be registered");
    VF_ASSERT(vf_callback_count(cb.id_) == 1, "it is told the durable epoch at once");
    VF_ASSERT(get_durability_callbacks().size() == 2 && get_durability_callbacks()[0].id_ == old && get_durability_callbacks()[1].id_ == cb.id_, "it comes after those registered before");
    VF_DONE();
}
static vf_u64 order_a, order_b, calls, ida;
extern "C" void vf_on_callback(vf_u64 id) {
    ++calls;
    if (id == ida) { order_a = calls; } else { order_b = calls; }
}
VF_HARNESS(tells) {
    callbacks(2);
    auto& c = get_durability_callbacks();
    vf_assume(c[0].id_ != c[1].id_);
    ida = c[0].id_;
    order_a = order_b = calls = 0;
    call_durability_callbacks(vf_in("epoch"));
    VF_ASSERT(vf_callback_count(c[0].id_) == 1 && vf_callback_count(c[1].id_) == 1, "each callback is told each durable epoch once");
    VF_ASSERT(order_a < order_b, "in the order of registration");
    VF_DONE();
}
VF_HARNESS(ends) {
    callbacks(2);
    vf_u64 a = get_durability_callbacks()[0].id_;
    clear_durability_callbacks();
    call_durability_callbacks(vf_in("epoch"));
    VF_ASSERT(vf_callback_count(a) == 0, "none is called after shutdown");
    VF_DONE();
}
