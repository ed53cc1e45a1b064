// C05: the locks of a committing short transaction
//@property C05: *
//@sources src/concurrency_control/tid.cpp src/concurrency_control/local_set.cpp src/concurrency_control/record.cpp src/concurrency_control/session.cpp src/concurrency_control/result_info.cpp
//@override _ZN9shirakami8short_tx5abortEPNS_7sessionE = abort_contract
//@override _ZN9shirakami11result_info20set_key_storage_nameESt14vf_string_viewm = name_contract
//@override _ZN9shirakami15local_write_set10sort_if_olEv = sort_contract
//@assumed get<Record>: the index returns the record of a write set entry under its key
//@override _ZN9shirakami8tid_word4lockEb = lock_contract
//@assumed tid_word::lock by its contract (c14_lock), without other threads in between
//@override _ZN9shirakami8short_txL14unlock_recordsEPNS_7sessionEm = unlock_contract
//@real _ZN9shirakami8short_txL14unlock_recordsEPNS_7sessionEm unlock_some unlock_some_large
//@assumed short_tx::unlock_records by its contract (harness unlock_some)
//@assumed sort_if_ol only reorders the write set
#include "sh.h"
#include "ix.h"
#include "concurrency_control/interface/short_tx/termination.cpp"
using namespace shirakami;

static bool aborted;
static vf_objs<Record>* all;
#ifndef VF_NATIVE
extern "C" Status abort_contract(session*) { aborted = true; return Status::OK; }
static vf_u64 watched;
extern "C" void unlock_contract(session*, vf_u64 n) {
    if (watched < n) { all->at(watched)->tidw_.set_lock(false); }
}
extern "C" void name_contract(result_info*, std::string_view*, Storage) {}
extern "C" void sort_contract(local_write_set*) {}
extern "C" void lock_contract(tid_word* w, bool gc) { vf_assume(!w->get_lock()); w->set_lock(true); w->set_lock_by_gc(gc); }
#endif
#ifdef VF_NATIVE
static Record* vf_index_get(std::string_view k) { return all->at(std::stoul(std::string(k))); }
#else
static Record* vf_index_get(std::string_view k) { return all->at(k.tok_); }
#endif

static tid_word before(vf_u64 i) { return vf_word(vf_in_at("f", i) & 12U, vf_in_at("t", i), vf_in_at("s", i), vf_in_at("e", i)); }
static vf_objs<Record> records(bool locked) {
    return vf_objs<Record>("recs", [locked](void* p, vf_u64 i) {
        auto* r = static_cast<Record*>(p);
#ifdef VF_NATIVE
        new (p) Record();
        r->key_ = std::to_string(i);
#else
        new (&r->key_) std::string();
        r->key_.tok_ = i;
#endif
        r->tidw_ = before(i);
        if (locked) { r->tidw_.set_lock(true); }
    });
}
static OP_TYPE op_of(vf_u64 i) {
    vf_u64 o = vf_in_at("op", i) & 3U;
    return o == 0 ? OP_TYPE::INSERT : o == 1 ? OP_TYPE::UPDATE : o == 2 ? OP_TYPE::UPSERT : OP_TYPE::DELETE;
}
static write_set_obj entry(vf_objs<Record>* recs, vf_u64 i) {
    write_set_obj w(1, OP_TYPE::DELETE, recs->at(i));
    w.op_ = op_of(i);
    return w;
}
static session* writer(vf_objs<Record>* recs, vf_u64 n, bool batch) {
    auto* ti = vf_session();
    aborted = false;
    all = recs;
#ifndef VF_NATIVE
    new (&ti->write_set_) local_write_set();
    new (&ti->result_info_) result_info();
#endif
    if (batch) {
        ti->get_write_set().set_for_batch(true);
        vf_fill_n(ti->get_write_set().get_ref_cont_for_bt(), n, [recs](vf_u64 i) { return std::pair<Record* const, write_set_obj>(recs->at(i), entry(recs, i)); });
    } else {
        vf_fill_n(ti->get_write_set().get_ref_cont_for_occ(), n, [recs](vf_u64 i) { return entry(recs, i); });
    }
    return ti;
}

static void unlock_all_(bool batch) {
    auto recs = records(true);
    vf_u64 n = vf_size("n");
    vf_u64 k = vf_in("k");
    vf_assume(k <= n);
    vf_expose(k);
    auto* ti = writer(&recs, n, batch);
    short_tx::unlock_write_set(ti);
    tid_word w = recs.at(k)->tidw_;
    if (k < n) {
        VF_ASSERT(!w.get_lock() && !w.get_lock_by_gc(), "every record of the write set is unlocked");
        VF_ASSERT(w.obj_ == before(k).obj_, "unlocking changes only the lock");
    } else {
        VF_ASSERT(w.get_lock(), "records of others stay locked");
    }
    VF_DONE();
}
VF_HARNESS(unlock_all) { unlock_all_(false); }
VF_HARNESS(unlock_all_large) { unlock_all_(true); }

// the first m records of the write set were locked
static void unlock_some_(bool batch) {
    auto recs = records(true);
    vf_u64 n = vf_size("n");
    vf_u64 k = vf_in("k");
    vf_u64 m = vf_in("m");
    vf_assume(k < n && m >= 1 && m <= n);
    vf_expose(k);
    auto* ti = writer(&recs, n, batch);
    short_tx::unlock_records(ti, m);
    tid_word w = recs.at(k)->tidw_;
    VF_ASSERT(w.get_lock() == (k >= m), "exactly the records locked by this commit are unlocked");
    VF_ASSERT(vf_same_version(w, before(k)) && w.get_absent() == before(k).get_absent() && w.get_latest() == before(k).get_latest(), "unlocking some records changes only the lock");
    VF_DONE();
}
VF_HARNESS(unlock_some) { unlock_some_(false); }
VF_HARNESS(unlock_some_large) { unlock_some_(true); }

static bool fits(void* c) {
    vf_u64 k = *static_cast<vf_u64*>(c);
    tid_word b = before(k);
    return op_of(k) == OP_TYPE::INSERT ? !b.get_latest() || b.get_absent() : op_of(k) == OP_TYPE::UPSERT || !b.get_absent();
}
static void lock_all_(bool batch) {
    auto recs = records(false);
    vf_u64 n = vf_size("n");
    vf_u64 k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    auto* ti = writer(&recs, n, batch);
    tid_word ct{};
    vf_candidate(&fits, &k);
#ifndef VF_NATIVE
    watched = k;
#endif
    Status rc = short_tx::write_lock(ti, ct);
    tid_word w = recs.at(k)->tidw_;
    tid_word b = before(k);
    if (rc == Status::OK) {
        VF_ASSERT(w.get_lock() && !w.get_lock_by_gc(), "before validation every record to write is locked");
        VF_ASSERT(vf_same_version(w, b), "locking keeps the version");
        VF_ASSERT(w.get_absent() == b.get_absent(), "locking keeps records present or absent");
        VF_ASSERT(!(op_of(k) == OP_TYPE::INSERT) || !b.get_latest() || b.get_absent(), "an insertion over a present record does not commit");
        VF_ASSERT(!(op_of(k) == OP_TYPE::UPDATE || op_of(k) == OP_TYPE::DELETE) || !b.get_absent(), "an update or deletion of an absent record does not commit");
    } else {
        VF_ASSERT(!w.get_lock(), "a failing commit leaves no record locked");
        VF_ASSERT(vf_same_version(w, b) && w.get_absent() == b.get_absent(), "a failing commit leaves records as they were");
#ifdef VF_NATIVE
        aborted = ti->get_write_set().cont_for_occ_.empty() && ti->get_write_set().cont_for_bt_.empty();
#endif
        VF_ASSERT(aborted, "a failing commit aborts");
    }
    VF_DONE();
}
VF_HARNESS(lock_all) { lock_all_(false); }
VF_HARNESS(lock_all_large) { lock_all_(true); }
