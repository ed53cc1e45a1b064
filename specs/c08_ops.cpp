// C08, C07: each write operation on a key, for every pending write and every committed state of the key
//@property C08: *
//@property C07: *
//@property C27: *
//@sources src/concurrency_control/interface/insert.cpp src/concurrency_control/interface/update.cpp src/concurrency_control/interface/upsert.cpp src/concurrency_control/interface/delete.cpp src/concurrency_control/interface/helper.cpp src/concurrency_control/tid.cpp src/concurrency_control/record.cpp
//@override _ZN9shirakami22check_before_write_opsEPNS_7sessionEmSt14vf_string_viewNS_7OP_TYPEE = before_contract
//@override _ZN9shirakami15local_write_set6searchEPKNS_6RecordE = search_contract
//@override _ZN9shirakami15local_write_set5eraseEPNS_13write_set_objE = erase_contract
//@override _ZN9shirakami7session17push_to_write_setEONS_13write_set_objE = push_contract
//@override _ZN9shirakami7session24push_to_read_set_for_stxEONS_12read_set_objE = read_contract
//@override _ZN9shirakami7session15update_node_setERKN9yakushima18inserted_node_infoE = node_contract
//@override _ZN9shirakami11result_info20set_key_storage_nameESt14vf_string_viewm = name_contract
//@override _ZN9shirakami8tid_word4lockEb = lock_contract
//@override _ZN9shirakami22local_read_set_for_ltx4pushEPNS_6RecordE = reg_contract
//@override _ZN9shirakami7session30insert_to_ltx_storage_read_setEmRKSt9vf_string = area_contract
//@override _ZN9shirakami22range_read_set_for_ltx6insertERKSt5tupleIJPNS_18range_read_by_longESt9vf_stringNS_13scan_endpointES4_S5_EE = none_contract
//@nonative *
//@assumed the record is not changed by other transactions during the operation (interleavings: d_ops, d_hist)
//@assumed check_before_write_ops (c13_areas), local_write_set::search/erase/push (c07_write_set), tid_word::lock (c14_lock), version_traverse_and_read (c06_versions)
//@assumed the index returns the record hooked under a key and hooks a new one if there is none
#include "sh.h"
#include "ix.h"
#include "concurrency_control/include/wp.h"
#include "concurrency_control/interface/include/helper.h"
#include "concurrency_control/interface/long_tx/include/long_tx.h"
#include "concurrency_control/interface/short_tx/include/short_tx.h"
#include "shirakami/interface.h"
using namespace shirakami;

static Record* hooked;
static Record* put_rec;
static write_set_obj* own; // pending write of this transaction
static bool own_pending, erased, ltx, seen;
static vf_u64 pushed, nread, reg, none, area, aborted, node_rc;
static OP_TYPE p_op;
static Record* p_rec;
static vf_u64 p_val;
static bool p_inc;
static tid_word r_tid;
static Status pre;
static wp::page_set_meta* psm;

static Record* vf_index_get(std::string_view) { return hooked; }
namespace yakushima {
status put_raw(std::string_view, std::string_view, void* v, bool, inserted_node_info*, void***) {
    put_rec = static_cast<Record*>(v);
    return status::OK;
}
}
namespace shirakami::long_tx {
Status version_traverse_and_read(session* const, Record* const, std::string&, bool) { return seen ? Status::OK : Status::WARN_NOT_FOUND; }
Status abort(session* const) { ++aborted; return Status::OK; }
}
namespace shirakami::short_tx {
Status abort(session*) { ++aborted; return Status::OK; }
}
namespace shirakami::wp {
Status find_page_set_meta(Storage, page_set_meta*& ret) {
    ret = psm;
    return Status::OK;
}
}
namespace shirakami::garbage {
void set_dirty(Storage) {}
}
extern "C" Status before_contract(session* ti, Storage, std::string_view*, OP_TYPE) {
    VF_ASSERT(vf_held(&ti->mtx_state_da_term_) == 1, "a write excludes other operations and termination of its transaction");
    return pre;
}
extern "C" write_set_obj* search_contract(local_write_set*, Record const* r) { return own_pending && r == hooked ? own : nullptr; }
extern "C" Status erase_contract(local_write_set*, write_set_obj* o) {
    erased = o == own;
    return Status::OK;
}
extern "C" void push_contract(session*, write_set_obj* o) {
    ++pushed;
    p_op = o->op_;
    p_rec = o->rec_ptr_;
    p_val = o->val_.tok_;
    p_inc = o->inc_tombstone_;
}
extern "C" void read_contract(session*, read_set_obj* o) { ++nread; r_tid = o->tid_; }
extern "C" Status node_contract(session*, void*) { return node_rc == 0 ? Status::OK : node_rc == 1 ? Status::WARN_NOT_FOUND : Status::ERR_CC; }
extern "C" void reg_contract(void*, Record* r) { if (r == hooked || r == put_rec) { ++reg; } }
extern "C" void none_contract(void*, std::tuple<range_read_by_long*, std::string, scan_endpoint, std::string, scan_endpoint> const* t) {
    if (std::get<1>(*t).tok_ == 1 && std::get<3>(*t).tok_ == 1 && std::get<2>(*t) == scan_endpoint::INCLUSIVE && std::get<4>(*t) == scan_endpoint::INCLUSIVE) { ++none; }
}
extern "C" void area_contract(session*, Storage, std::string*) { ++area; }
extern "C" void name_contract(result_info*, std::string_view*, Storage) {}
extern "C" void lock_contract(tid_word* w, bool gc) {
    vf_assume(!w->get_lock());
    w->set_lock(true);
    w->set_lock_by_gc(gc);
}

struct world {
    session* ti;
    Record* rec;
    tid_word word;
    vf_u64 tomb, val, op;
    bool has_rec, has_own, began;
    std::string_view v;
    world() : ti(vf_session()), rec(static_cast<Record*>(::operator new(sizeof(Record), std::align_val_t(64)))) {
        ltx = vf_flag("ltx");
        seen = vf_flag("seen");
        ti->set_tx_type(ltx ? transaction_options::transaction_type::LONG : transaction_options::transaction_type::SHORT);
        began = vf_flag("began");
        ti->tx_began_ = began;
        new (&ti->mtx_result_info_) std::mutex();
        new (&rec->key_) std::string();
        word = vf_word(vf_in("f") & 12U, vf_in("t"), vf_in("s"), vf_in("e"));
        vf_assume(word.get_absent() || word.get_latest());
        rec->tidw_ = word;
        tomb = vf_in("tomb") & 0xffffU;
        // a record being inserted is kept by the tombstone count, a deleted one is not
        vf_assume((word.get_absent() && word.get_latest()) == (tomb > 0) || !word.get_absent());
        rec->shared_tombstone_count_ = static_cast<std::int32_t>(tomb);
        has_rec = vf_flag("rec");
        has_own = vf_flag("own");
        hooked = has_rec ? rec : nullptr;
        vf_assume(has_rec || !has_own);
        op = vf_in("op") & 3U;
        own = new write_set_obj(1, OP_TYPE::DELETE, rec);
        own->op_ = op == 0 ? OP_TYPE::INSERT : op == 1 ? OP_TYPE::UPDATE : op == 2 ? OP_TYPE::UPSERT : OP_TYPE::DELETE;
        own->val_ = vf_str("old");
        own->inc_tombstone_ = op == 0 || op == 2;
        vf_assume(!has_own || !own->inc_tombstone_ || tomb > 0);
        own_pending = has_own;
        erased = false;
        pushed = nread = reg = none = area = aborted = 0;
        node_rc = vf_in("node") & 3U;
        vf_assume(node_rc < 3);
        vf_u64 p = vf_in("pre") & 3U;
        pre = p == 0 ? Status::WARN_PREMATURE : p == 1 ? Status::WARN_WRITE_WITHOUT_WP : Status::OK;
        val = vf_in("val");
        v = vf_view_of(val);
        put_rec = nullptr;
        psm = static_cast<wp::page_set_meta*>(::operator new(sizeof(wp::page_set_meta)));
        new (&ti->mtx_state_da_term_) std::shared_mutex();
        new (&ti->range_read_set_for_ltx_) range_read_set_for_ltx();
        new (&ti->read_set_for_ltx_) local_read_set_for_ltx();
    }
    bool refused() { return !began || pre != Status::OK || vf_view_of(1).size() > 30 * 1024; }
    bool nothing() { return pushed == 0 && nread == 0 && aborted == 0 && !erased && put_rec == nullptr && (!has_own || own_is(0)) && rec_same(); }
    bool own_is(int) { return own->op_ == (op == 0 ? OP_TYPE::INSERT : op == 1 ? OP_TYPE::UPDATE : op == 2 ? OP_TYPE::UPSERT : OP_TYPE::DELETE) && own->val_ == vf_str("old"); }
    bool rec_same() { return rec->tidw_.obj_ == word.obj_ && rec->shared_tombstone_count_ == static_cast<std::int32_t>(tomb); }
    bool pushed_is(OP_TYPE o, Record* r, bool inc) { return pushed == 1 && p_op == o && p_rec == r && (o == OP_TYPE::DELETE || p_val == val) && p_inc == inc; }
    bool unlocked() { return !rec->tidw_.get_lock(); }
};

static void common(world& w, Status rc) {
    VF_ASSERT(!w.refused() || (rc != Status::OK && w.nothing()), "a refused operation changes nothing");
    VF_ASSERT(w.unlocked(), "the record is left unlocked");
    VF_ASSERT(aborted == 0 || (aborted == 1 && rc == Status::ERR_CC), "an aborted transaction is reported");
    VF_ASSERT(aborted == 0 || pushed == 1, "the placeholder of an aborted insertion is known to the transaction");
}
static void placed(world& w, Status rc, OP_TYPE o) {
    // no record in the index: a placeholder was hooked
    if (rc == Status::OK) {
        VF_ASSERT(put_rec != nullptr && w.pushed_is(o, put_rec, true), "a new key gets a placeholder and a pending write");
        VF_ASSERT(put_rec->tidw_.get_absent() && put_rec->tidw_.get_latest() && !put_rec->tidw_.get_lock() && put_rec->shared_tombstone_count_ == 1, "the placeholder is invisible to others and kept from collection");
        VF_ASSERT(ltx || node_rc != 0 || (nread == 1 && r_tid.obj_ == put_rec->tidw_.obj_), "an insertion into a scanned range is validated at commit");
    } else {
        VF_ASSERT(rc == Status::ERR_CC && !ltx && node_rc == 2 && aborted == 1, "a new key is refused only after a phantom");
    }
}
VF_HARNESS(insert_key) {
    world w;
    Status rc = insert(w.ti, 1, vf_view_of(1), w.v, nullptr, 0);
    common(w, rc);
    if (!w.refused()) {
        if (w.has_own) {
            if (w.op == 3) {
                VF_ASSERT(rc == Status::OK && own->op_ == OP_TYPE::UPDATE && own->val_.tok_ == w.val, "insertion after the own deletion replaces the value");
            } else {
                VF_ASSERT(rc == Status::WARN_ALREADY_EXISTS && w.nothing(), "insertion after an own write reports that the key exists and changes nothing");
            }
        } else if (!w.has_rec) {
            placed(w, rc, OP_TYPE::INSERT);
            VF_ASSERT(rc != Status::OK || reg == ltx, "a long transaction remembers that it read the key");
        } else if (ltx ? seen : !w.word.get_absent()) {
            VF_ASSERT(rc == Status::WARN_ALREADY_EXISTS && pushed == 0 && w.rec_same(), "insertion of an existing key reports it and changes nothing");
            VF_ASSERT(ltx ? reg == 1 : nread == 1 && r_tid.obj_ == w.word.obj_, "the answer is validated at commit");
        } else {
            bool fresh = w.word.get_absent();
            VF_ASSERT(rc == Status::OK && w.pushed_is(OP_TYPE::INSERT, w.rec, fresh), "insertion of a key that does not exist is pending");
            VF_ASSERT(!fresh || (w.rec->tidw_.get_absent() && w.rec->tidw_.get_latest() && w.rec->shared_tombstone_count_ == static_cast<std::int32_t>(w.tomb + 1)), "the placeholder is invisible to others and kept from collection (reused)");
            VF_ASSERT(reg == ltx, "a long transaction remembers that it read the key (reused)");
        }
    }
    VF_DONE();
}
VF_HARNESS(update_key) {
    world w;
    Status rc = update(w.ti, 1, vf_view_of(1), w.v, nullptr, 0);
    common(w, rc);
    if (!w.refused()) {
        if (w.has_own) {
            if (w.op == 3) {
                VF_ASSERT(rc == Status::WARN_NOT_FOUND && w.nothing(), "update after the own deletion reports not found and changes nothing");
            } else {
                VF_ASSERT(rc == Status::OK && own->val_.tok_ == w.val, "update after an own write replaces the value");
                VF_ASSERT(pushed == 0 && own->op_ == (w.op == 0 ? OP_TYPE::INSERT : w.op == 1 ? OP_TYPE::UPDATE : OP_TYPE::UPSERT), "and keeps the kind of the pending write");
            }
        } else if (!w.has_rec || (ltx ? !seen : w.word.get_absent())) {
            VF_ASSERT(rc == Status::WARN_NOT_FOUND && w.nothing(), "update of a missing key reports not found and changes nothing");
            VF_ASSERT(none == ltx, "a long transaction remembers that the key was missing");
        } else {
            VF_ASSERT(rc == Status::OK && w.pushed_is(OP_TYPE::UPDATE, w.rec, false) && w.rec_same(), "update of an existing key is pending");
            VF_ASSERT(reg == ltx, "a long transaction remembers that it read the key");
        }
    }
    VF_DONE();
}
VF_HARNESS(upsert_key) {
    world w;
    Status rc = upsert(w.ti, 1, vf_view_of(1), w.v, nullptr, 0);
    common(w, rc);
    if (!w.refused()) {
        if (w.has_own) {
            VF_ASSERT(rc == Status::OK && own->val_.tok_ == w.val && pushed == 0, "upsert after an own write replaces the value");
            VF_ASSERT(own->op_ == (w.op == 0 ? OP_TYPE::INSERT : w.op == 2 ? OP_TYPE::UPSERT : OP_TYPE::UPDATE), "and keeps the kind of the pending write, or revives the key");
        } else if (!w.has_rec) {
            placed(w, rc, OP_TYPE::UPSERT);
        } else {
            VF_ASSERT(rc == Status::OK && w.pushed_is(OP_TYPE::UPSERT, w.rec, true), "upsert is pending");
            VF_ASSERT(w.rec->shared_tombstone_count_ == static_cast<std::int32_t>(w.tomb + 1), "the record is kept from collection");
            VF_ASSERT(w.rec->tidw_.get_absent() == w.word.get_absent() && w.rec->tidw_.get_latest() && vf_same_version(w.rec->tidw_, w.word), "others see no change");
        }
    }
    VF_DONE();
}
VF_HARNESS(delete_key) {
    world w;
    Status rc = delete_record(w.ti, 1, vf_view_of(1));
    common(w, rc);
    if (!w.refused()) {
        if (w.has_own) {
            if (w.op == 3) {
                VF_ASSERT(rc == Status::WARN_NOT_FOUND && w.nothing(), "deletion after the own deletion reports not found and changes nothing");
            } else if (w.op == 1) {
                VF_ASSERT(rc == Status::OK && own->op_ == OP_TYPE::DELETE && pushed == 0 && !erased && w.rec_same(), "deletion after the own update is pending");
            } else {
                VF_ASSERT(rc == (w.op == 0 ? Status::WARN_CANCEL_PREVIOUS_INSERT : Status::WARN_CANCEL_PREVIOUS_UPSERT) && erased, "deletion cancels the pending insertion");
                VF_ASSERT(w.rec->shared_tombstone_count_ == static_cast<std::int32_t>(w.tomb - 1), "the cancelled write no longer keeps the record");
                VF_ASSERT(!w.word.get_absent() || (w.rec->tidw_.get_absent() && w.rec->tidw_.get_latest() == (w.tomb > 1)), "a placeholder nobody needs becomes a deleted record");
                VF_ASSERT(vf_same_version(w.rec->tidw_, w.word) && w.rec->tidw_.get_absent() == w.word.get_absent(), "others see no change");
                if (w.op == 2 && !w.word.get_absent()) {
                    VF_ASSERT(w.pushed_is(OP_TYPE::DELETE, w.rec, false) && reg == ltx, "the key that exists is deleted");
                } else {
                    VF_ASSERT(pushed == 0, "nothing else is pending");
                }
            }
        } else if (!w.has_rec || (ltx ? !seen : w.word.get_absent())) {
            VF_ASSERT(rc == Status::WARN_NOT_FOUND && w.nothing(), "deletion of a missing key reports not found and changes nothing");
            VF_ASSERT(none == ltx, "a long transaction remembers that the key was missing");
        } else {
            VF_ASSERT(rc == Status::OK && w.pushed_is(OP_TYPE::DELETE, w.rec, false) && w.rec_same(), "deletion of an existing key is pending");
            VF_ASSERT(reg == ltx, "a long transaction remembers that it read the key");
        }
    }
    VF_DONE();
}
