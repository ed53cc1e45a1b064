// C05, C06, C18: the writes of a short transaction become visible
//@property C05: *
//@property C06: *
//@property C18: *
//@sources src/concurrency_control/tid.cpp src/concurrency_control/record.cpp
//@override _ZN9shirakami5lpwal7handler8push_logERKNS0_10log_recordE = push_contract
//@override _ZN9shirakami7garbageL9set_dirtyERKSt16vf_unordered_setImvvvE = dirty_contract
//@override _ZNSt8vf_assocImKmSt11vf_key_selfImESt4lessImELb0EE6insertEOS0_ = insert_contract
//@assumed the set of storages to be collected has no influence here
//@override _ZnwmSt11align_val_t = alloc_contract
//@assumed operator new returns storage not in use
//@assumed lpwal::handler::push_log appends the given record to the log of the session (c18_log)
//@opt * auto=0
#include "sh.h"
#include "concurrency_control/interface/short_tx/termination.cpp"
using namespace shirakami;

static vf_objs<Record>* all;
static tid_word before(vf_u64 i) {
    tid_word w = vf_word(vf_in_at("f", i) & 12U, vf_in_at("t", i), vf_in_at("s", i), vf_in_at("e", i));
    w.set_lock(true);
    return w;
}
static OP_TYPE op_of(vf_u64 i) {
    vf_u64 o = vf_in_at("op", i) & 3U;
    return o == 0 ? OP_TYPE::INSERT : o == 1 ? OP_TYPE::UPDATE : o == 2 ? OP_TYPE::UPSERT : OP_TYPE::DELETE;
}
static log_operation log_of(OP_TYPE o) {
    return o == OP_TYPE::INSERT ? log_operation::INSERT : o == OP_TYPE::UPDATE ? log_operation::UPDATE : o == OP_TYPE::UPSERT ? log_operation::UPSERT : log_operation::DELETE;
}
static bool shared_tomb(vf_u64 i) { return vf_flag_at("tomb", i); }

// what was logged for the watched key
static vf_u64 watched;
static vf_u64 logged;
static log_operation l_op;
static vf_u64 l_major, l_minor, l_key, l_val, l_st;
#ifndef VF_NATIVE
static vf_u64 taken, mine;
extern "C" void push_contract(lpwal::handler*, lpwal::log_record const* r) {
    if (r->key_.tok_ == watched) {
        ++logged;
        mine = taken;
        l_op = r->operation_;
        l_major = r->wv_.major_write_version_;
        l_minor = r->wv_.minor_write_version_;
        l_val = r->val_.tok_;
        l_st = r->st_;
    }
}
// storage for new versions is taken from an unbounded supply
static vf_objs<version>* supply;
extern "C" void* alloc_contract(vf_u64 n, vf_u64) {
    if (n != sizeof(version)) { return ::operator new(n); }
    vf_assume(taken < (1UL << 60U)); // memory is finite
    return supply->at(taken++);
}
extern "C" void dirty_contract(void*) {}
struct two { vf_u64 a, b; };
extern "C" two insert_contract(void*, void*) { return {0, 0}; }
#endif

struct view {
    vf_objs<version>* vers;
    vf_u64 k, ce;
    tid_word ct;
};
static bool word_ok(const view& c) {
    tid_word w = all->at(c.k)->tidw_;
    bool del = op_of(c.k) == OP_TYPE::DELETE;
    return !w.get_lock() && vf_same_version(w, c.ct) && w.get_absent() == del && (del || w.get_latest());
}
static bool value_ok(const view& c) {
    return op_of(c.k) == OP_TYPE::DELETE || all->at(c.k)->latest_.load()->value_ == vf_str_at("new", c.k);
}
static bool kept_ok(const view& c) {
    version* v = all->at(c.k)->latest_.load();
    if (v == c.vers->at(c.k)) { return c.ce <= before(c.k).get_epoch() || (before(c.k).get_absent() && before(c.k).get_epoch() == 0); }
    version* o = v->next_.load();
    return o == c.vers->at(c.k) && o->value_ == vf_str_at("old", c.k) && vf_same_version(o->tid_, before(c.k)) && !o->tid_.get_lock() &&
           o->tid_.get_absent() == before(c.k).get_absent();
}
#ifndef VF_NATIVE
static bool cand_word(void* c) { return word_ok(*static_cast<view*>(c)); }
static bool at_ok(const view& c) {
    version* v = all->at(c.k)->latest_.load();
    return v == c.vers->at(c.k) || (mine >= 1 && mine <= taken && v == supply->at(mine - 1));
}
static bool cand_at(void* p) { return at_ok(*static_cast<view*>(p)); }
static bool cand_val(void* p) { return at_ok(*static_cast<view*>(p)) && value_ok(*static_cast<view*>(p)); }
static bool cand_kept(void* p) { return at_ok(*static_cast<view*>(p)) && kept_ok(*static_cast<view*>(p)); }
static bool cand_log(void* p) {
    auto& c = *static_cast<view*>(p);
    return logged == 1 && l_op == log_of(op_of(c.k)) && l_st == 1 && l_major == c.ce && l_minor == ((1UL << 63U) | c.ct.get_tid()) && (op_of(c.k) == OP_TYPE::DELETE || l_val == vf_in_at("new", c.k));
}
static bool cand_nolog(void*) { return logged == 0; }
#endif

static void expose_(bool batch) {
    auto* ti = vf_session();
    vf_objs<version> vers("vers", [](void* p, vf_u64 i) {
#ifdef VF_NATIVE
        new (p) version();
#endif
        auto* v = static_cast<version*>(p);
#ifndef VF_NATIVE
        new (&v->value_) std::string();
        new (&v->mtx_value_) std::shared_mutex();
#endif
        v->value_ = vf_str_at("old", i);
        v->tid_ = before(i);
        v->next_ = nullptr;
    });
    auto* vp = &vers;
    vf_objs<Record> recs("recs", [vp](void* p, vf_u64 i) {
        auto* r = static_cast<Record*>(p);
#ifdef VF_NATIVE
        new (p) Record();
        r->key_ = std::to_string(i);
#else
        new (&r->key_) std::string();
        new (&r->mtx_value_) std::shared_mutex();
        r->key_.tok_ = i;
#endif
        r->tidw_ = before(i);
        r->latest_ = vp->at(i);
        r->shared_tombstone_count_ = shared_tomb(i) ? 2 : 0;
    });
    auto* rp = &recs;
    all = rp;
    vf_u64 n = vf_size("n");
    vf_u64 k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    watched = k;
    logged = 0;
    auto entry = [rp](vf_u64 i) {
        write_set_obj w(1, OP_TYPE::DELETE, rp->at(i));
        w.op_ = op_of(i);
        w.val_ = vf_str_at("new", i);
        return w;
    };
#ifndef VF_NATIVE
    new (&ti->write_set_) local_write_set();
    new (&ti->lpwal_handle_.mtx_logs_) std::mutex();
#endif
    if (batch) {
        ti->get_write_set().set_for_batch(true);
        vf_fill_n(ti->get_write_set().get_ref_cont_for_bt(), n, [rp, entry](vf_u64 i) { return std::pair<Record* const, write_set_obj>(rp->at(i), entry(i)); });
    } else {
        vf_fill_n(ti->get_write_set().get_ref_cont_for_occ(), n, entry);
    }
    vf_u64 ce = vf_in("ce") & 0xffffffffffUL;
    tid_word ct = vf_word(4, vf_in("ct"), 1, ce);
    ti->set_mrc_tid(ct);
    view c{&vers, k, ce, ct};
#ifndef VF_NATIVE
    vf_objs<version> fresh("fresh", [](void* p, vf_u64) {
        auto* v = static_cast<version*>(p);
        new (&v->value_) std::string();
        v->next_ = nullptr;
    });
    supply = &fresh;
    taken = 0;
    vf_candidate(&cand_word, &c);
    vf_candidate(&cand_at, &c);
    vf_candidate(&cand_val, &c);
    vf_candidate(&cand_kept, &c);
    vf_candidate(&cand_log, &c);
    vf_candidate(&cand_nolog, &c);
#endif
    Status rc = short_tx::write_phase(ti, ce);
    VF_ASSERT(rc == Status::OK, "the writes of a validated transaction succeed");
    VF_ASSERT(word_ok(c), "every written record is unlocked and has the version of the commit; it is present, or absent if deleted");
    VF_ASSERT(value_ok(c), "every written record has the value written");
    VF_ASSERT(kept_ok(c), "the version replaced is kept for snapshots, if one may read it");
#ifndef VF_NATIVE
    VF_ASSERT(logged == 1, "every write is logged once");
    VF_ASSERT(l_op == log_of(op_of(k)), "the operation is logged");
    VF_ASSERT(op_of(k) == OP_TYPE::DELETE || l_val == vf_in_at("new", k), "the value written is logged");
    VF_ASSERT(l_st == 1 && l_major == ce && l_minor == ((1UL << 63U) | ct.get_tid()), "the version of the commit is logged");
#endif
    VF_DONE();
}
VF_HARNESS(expose) { expose_(false); }
VF_HARNESS(expose_large) { expose_(true); }
