// C24: scans: handles, the cursor, what is skipped and what is read
//@property C24: *
//@property C27: handles moves_short reads_short opens_short
//@property C06: moves_snapshot
//@property C02: moves_short reads_short opens_short opens_invisible
//@sources src/concurrency_control/interface/scan/next.cpp src/concurrency_control/interface/scan/open_scan.cpp src/concurrency_control/interface/scan/close_scan.cpp src/concurrency_control/interface/scan/read_kv_from_scan.cpp src/concurrency_control/tid.cpp src/concurrency_control/record.cpp
//@override _ZN9shirakami15local_write_set6searchEPKNS_6RecordE = search_contract
//@override _ZN9shirakami7session24push_to_read_set_for_stxEONS_12read_set_objE = read_contract
//@override _ZN9shirakami8node_set12emplace_backESt4pairIN9yakushima19node_version64_bodyEPNS2_14node_version64EE = node_contract
//@opt moves_snapshot unroll=4
//@opt opens_nothing unroll=4
//@opt opens_empty unroll=4
//@opt opens_invisible unroll=4
//@opt opens_short unroll=4
//@opt closes unroll=4
//@nonative *
//@assumed local_write_set::search finds the write of the transaction to a record (C07's contracts)
//@assumed short_tx::abort: ends the transaction (own contracts)
//@assumed opens_*: the index gives two records of the range in the order asked for (or none), each with the node it lies in; long transactions are not opened by these contracts
//@assumed moves_snapshot: one record is left; no end of its list of versions is met
#include "sh.h"
#include "concurrency_control/include/scan.h"
#include "concurrency_control/include/wp.h"
#include "concurrency_control/interface/include/helper.h"
#include "concurrency_control/interface/long_tx/include/long_tx.h"
#include "concurrency_control/interface/short_tx/include/short_tx.h"
#include "shirakami/interface.h"
using namespace shirakami;
using type = transaction_options::transaction_type;

static session* the_ti;
static write_set_obj *own_write, *own_delete;
static Record* recs;
static vf_u64 kth, node_kth, seen_kth, aborted;
static bool node_conflict;
// what the transaction wrote to record i: 0 nothing, 1 something, 2 its end
static vf_u64 own_of(vf_u64 i) {
    vf_u64 o = vf_in_at("own", i) & 3U;
    return o == 3 ? 0 : o;
}
static vf_u64 number_of(Record const* r) { return r->tidw_.get_tid(); }
extern "C" write_set_obj* search_contract(local_write_set*, Record const* r) {
    vf_u64 o = own_of(number_of(r));
    return o == 0 ? nullptr : o == 1 ? own_write : own_delete;
}
static vf_u64 seen_all;
static bool track;
static tid_word seen_tid;
extern "C" void read_contract(session*, read_set_obj* o) {
    if (track) {
        ++seen_all;
        seen_tid = o->tid_;
    }
    if (number_of(o->rec_ptr_) == kth) { ++seen_kth; }
}
extern "C" Status node_contract(node_set*, vf_u64, yakushima::node_version64* p) {
    if (reinterpret_cast<vf_u64>(p) == kth * 8) { node_kth = 1; }
    return node_conflict ? Status::ERR_CC : Status::OK;
}
namespace shirakami {
void result_info::set_storage_name(Storage) {}
void session::set_result(reason_code) {}
}
namespace shirakami::short_tx {
Status abort(session* ti) { ++aborted; ti->set_tx_began(false); return Status::OK; }
}
static vf_u64 rec_reads, rec_value;
static Status rec_rc;
static tid_word rec_tid;
static vf_u64 meta_any;
static vf_u64 ranged;
namespace shirakami {
Status read_record(Record*, tid_word& tid, std::string& val, bool want) {
    ++rec_reads;
    tid = rec_tid;
    if (want && rec_rc == Status::OK) { val = vf_string_of(rec_value); }
    return rec_rc;
}
namespace wp {
Status find_wp_meta(Storage, wp_meta*& out) { out = reinterpret_cast<wp_meta*>(&meta_any); return Status::OK; }
}
}
namespace shirakami::long_tx {
void update_local_read_range(session*, wp::wp_meta*, std::string_view) { ++ranged; }
Status version_function_with_optimistic_check(Record*, epoch::epoch_t, version*&, bool&, tid_word&) { return Status::WARN_NOT_FOUND; }
Status version_function_without_optimistic_check(epoch::epoch_t, version*&) { return Status::WARN_NOT_FOUND; }
Status version_traverse_and_read(session*, Record*, std::string&, bool) { return vf_fresh_bool() ? Status::OK : Status::WARN_NOT_FOUND; }
}

using row = std::tuple<const Record*, yakushima::node_version64_body, yakushima::node_version64*>;
static tid_word word_of(vf_u64 i) { return vf_word(vf_in_at("f", i) & 12U, i, 1, vf_in_at("e", i)); }
struct world {
    session* ti;
    scan_cache_obj* sc;
    world() : ti(vf_session()), sc(static_cast<scan_cache_obj*>(::operator new(sizeof(scan_cache_obj), std::align_val_t(64)))) {
        the_ti = ti;
        node_kth = seen_kth = aborted = seen_all = 0;
        rec_reads = ranged = 0;
        track = false;
        node_conflict = false;
        set_scan_mode_iterator_based(false);
        new (&ti->mtx_state_da_term_) std::shared_mutex();
        new (&ti->mtx_result_info_) std::mutex();
        new (&ti->scan_handle_) scan_handler();
        ti->tx_began_ = true;
        new (sc) scan_cache_obj();
        sc->set_parent(&ti->scan_handle_);
        own_write = new write_set_obj(1, OP_TYPE::DELETE, nullptr);
        own_write->op_ = OP_TYPE::UPSERT;
        own_delete = new write_set_obj(1, OP_TYPE::DELETE, nullptr);
    }
};
static bool deleted(vf_u64 i) { return word_of(i).get_absent() && !word_of(i).get_latest(); }
static bool passed_by(vf_u64 i) { return own_of(i) == 2 || (own_of(i) == 0 && deleted(i)); }
struct cur {
    scan_cache_obj* sc;
    vf_u64 k, c, n;
};
static bool cand_passed(void* p) {
    auto* x = static_cast<cur*>(p);
    return !(x->k > x->c && x->k <= x->sc->scan_index_ && x->k < x->n) || passed_by(x->k);
}
static bool cand_seen(void* p) {
    auto* x = static_cast<cur*>(p);
    return !(x->k > x->c && x->k <= x->sc->scan_index_ && x->k < x->n) || own_of(x->k) == 2 || seen_kth > 0;
}
static bool cand_node(void* p) {
    auto* x = static_cast<cur*>(p);
    return !(x->k > x->c && x->k <= x->sc->scan_index_ && x->k < x->n) || node_kth > 0;
}
static vf_u64 rows;
VF_HARNESS(moves_short) {
    world w;
    w.ti->set_tx_type(type::SHORT);
    w.ti->mutex_flags_.set_readaccess_daterm(true);
    vf_u64 n = vf_size("n");
    vf_u64 c = vf_in("c"), k = vf_in("k");
    vf_assume(n < (1UL << 40U) && c <= n && k < n && k > c);
    kth = k;
    vf_expose(k);
    vf_objs<Record> r("recs", [](void* p, vf_u64 i) {
        auto* x = static_cast<Record*>(p);
        x->tidw_ = word_of(i);
    });
    auto* v = &w.sc->vec_;
    vf_fill_n(*v, n, [&r](vf_u64 i) { return row(r.at(i), yakushima::node_version64_body{}, reinterpret_cast<yakushima::node_version64*>(i * 8)); });
    w.sc->scan_index_ = c;
    cur x{w.sc, k, c, n};
    vf_candidate(&cand_passed, &x);
    vf_candidate(&cand_seen, &x);
    vf_candidate(&cand_node, &x);
    node_conflict = vf_flag("conflict");
    Status rc = next(w.ti, w.sc);
    vf_u64 j = w.sc->scan_index_;
    if (rc == Status::OK) {
        VF_ASSERT(j > c && j < n, "the cursor moves on within the range");
        VF_ASSERT(k >= j || passed_by(k), "no record the transaction sees is passed by");
        VF_ASSERT(k >= j || own_of(k) == 2 || seen_kth > 0, "a deleted record which is passed by counts as read");
        VF_ASSERT(k >= j || node_kth > 0, "what is passed by is guarded from phantoms");
    } else if (rc == Status::WARN_SCAN_LIMIT) {
        VF_ASSERT(j == n, "the cursor stays at the end");
        VF_ASSERT(passed_by(k), "the scan ends only after every record the transaction sees");
        VF_ASSERT(node_kth > 0, "what is passed by is guarded from phantoms");
    } else {
        VF_ASSERT(rc == Status::ERR_CC && node_conflict && aborted == 1, "a scan fails for a conflict only");
    }
    VF_ASSERT(vf_held(&w.ti->mtx_state_da_term_) == 0, "the session is free again");
    VF_DONE();
}
VF_HARNESS(handles) {
    world w;
    vf_u64 ty = vf_in("ty") % 3;
    w.ti->set_tx_type(ty == 0 ? type::SHORT : ty == 1 ? type::LONG : type::READ_ONLY);
    w.ti->mutex_flags_.set_readaccess_daterm(vf_flag("shared"));
    bool it = vf_flag("iterators");
    set_scan_mode_iterator_based(it);
    session* other = vf_session();
    w.sc->set_parent(&other->scan_handle_);
    auto* ic = static_cast<scan_context*>(::operator new(sizeof(scan_context), std::align_val_t(64)));
    new (ic) scan_context();
    ic->set_parent(&other->scan_handle_);
    bool null = vf_flag("null");
    bool began = vf_flag("began");
    w.ti->tx_began_ = began;
    ScanHandle h = null ? nullptr : it ? static_cast<ScanHandle>(ic) : static_cast<ScanHandle>(w.sc);
    Status want = began ? Status::WARN_INVALID_HANDLE : Status::WARN_NOT_BEGIN;
    std::string s = vf_str("s");
    VF_ASSERT(next(w.ti, h) == want, "the cursor of another session cannot be moved");
    VF_ASSERT(read_key_from_scan(w.ti, h, s) == want, "the key under the cursor of another session cannot be read");
    VF_ASSERT(read_value_from_scan(w.ti, h, s) == want, "the value under the cursor of another session cannot be read");
    VF_ASSERT(s == vf_str("s"), "nothing is given out");
    VF_ASSERT(close_scan(w.ti, h) == want, "the scan of another session cannot be closed");
    VF_ASSERT(w.sc->scan_index_ == 0 && ic->scan_index_ == 0, "the cursor stays");
    VF_ASSERT(vf_held(&w.ti->mtx_state_da_term_) == 0, "the session is free again");
    VF_DONE();
}

// a snapshot is taken of one record with versions 0 (newest), 1, ..
static vf_u64 epoch_of(vf_u64 i) { return vf_in_at("ep", i) & 0xffffffffUL; }
static constexpr vf_u64 LAST = 1UL << 40U;
VF_HARNESS(moves_snapshot) {
    world w;
    w.ti->set_tx_type(type::READ_ONLY);
    w.ti->mutex_flags_.set_readaccess_daterm(false);
    vf_u64 snap = vf_in("snapshot"), k = vf_in("k");
    w.ti->valid_epoch_ = snap;
    vf_objs<version> v("versions", [](void* p, vf_u64 i) {
        auto* x = static_cast<version*>(p);
        x->tid_ = vf_word(vf_in_at("vf", i) & 8U, i, 1, epoch_of(i));
        x->next_ = static_cast<version*>(vf_sibling(i < LAST ? i + 1 : LAST));
    });
    vf_assume(k >= 1 && k < LAST);
    vf_expose(k);
    auto* rec = static_cast<Record*>(::operator new(sizeof(Record), std::align_val_t(64)));
    vf_u64 fl = vf_in("flags") & 12U;
    vf_assume(fl != 0);
    rec->tidw_ = vf_word(fl, 0, 1, epoch_of(0));
    rec->latest_ = v.at(0);
    w.sc->vec_.emplace_back(rec, yakushima::node_version64_body{}, nullptr);
    w.sc->vec_.emplace_back(rec, yakushima::node_version64_body{}, nullptr);
    w.sc->scan_index_ = 0;
    vf_assume(epoch_of(0) != 0);
    bool latest_old = epoch_of(0) < snap;
    vf_assume(latest_old || epoch_of(k) < snap);
    Status rc = next(w.ti, w.sc);
    if (latest_old && fl == 8U) {
        VF_ASSERT(rc == Status::WARN_SCAN_LIMIT && w.sc->scan_index_ == 2, "a record deleted before the snapshot is passed by");
    } else {
        VF_ASSERT(rc == Status::OK && w.sc->scan_index_ == 1, "a record with a version older than the snapshot is not passed by");
    }
    VF_DONE();
}

VF_HARNESS(reads_short) {
    world w;
    w.ti->set_tx_type(type::SHORT);
    w.ti->mutex_flags_.set_readaccess_daterm(true);
    kth = 5;
    track = true;
    auto* rec = static_cast<Record*>(::operator new(sizeof(Record), std::align_val_t(64)));
    rec->tidw_ = vf_word(vf_in("flags") & 12U, 5, 1, vf_in("epoch"));
    new (&rec->key_) std::string(vf_str("key"));
    new (&rec->mtx_value_) std::shared_mutex();
    own_write->val_ = vf_str("mine");
    own_write->rec_ptr_ = rec;
    vf_u64 n = vf_size("n");
    vf_assume(n < (1UL << 40U));
    vf_fill_n(w.sc->vec_, n, [rec](vf_u64) { return row(rec, yakushima::node_version64_body{}, reinterpret_cast<yakushima::node_version64*>(40)); });
    vf_u64 at = vf_in("at");
    w.sc->scan_index_ = at;
    rec_rc = vf_flag("busy") ? Status::WARN_CONCURRENT_UPDATE : vf_flag("gone") ? Status::WARN_NOT_FOUND : Status::OK;
    rec_value = vf_in("value");
    rec_tid = vf_word(vf_in("rf") & 12U, vf_in("rt"), 1, vf_in("re"));
    node_conflict = vf_flag("conflict");
    bool key = vf_flag("ask_key");
    std::string out = vf_str("before");
    Status rc = key ? read_key_from_scan(w.ti, w.sc, out) : read_value_from_scan(w.ti, w.sc, out);
    vf_u64 o = own_of(5);
    VF_ASSERT(vf_held(&w.ti->mtx_state_da_term_) == 0, "the session is free again");
    VF_ASSERT(w.sc->scan_index_ == at, "reading does not move the cursor");
    if (at >= n) {
        VF_ASSERT(rc == Status::WARN_SCAN_LIMIT && out == vf_str("before"), "there is nothing beyond the end");
    } else if (o == 0 && rec_rc == Status::WARN_CONCURRENT_UPDATE) {
        VF_ASSERT(rc == rec_rc, "a record being written is not read");
    } else if (node_conflict) {
        VF_ASSERT(rc == Status::ERR_CC && aborted == 1, "a phantom ends the transaction");
    } else {
        VF_ASSERT(node_kth == 1 && aborted == 0, "what is read is guarded from phantoms");
        if (o == 2) {
            VF_ASSERT(rc == Status::WARN_NOT_FOUND, "the transaction does not see what it deleted");
        } else if (o == 1) {
            VF_ASSERT(rc == Status::OK && out == (key ? vf_str("key") : vf_str("mine")), "the transaction sees what it wrote");
        } else {
            VF_ASSERT(rc == rec_rc, "the result is that of the record");
            VF_ASSERT(seen_all == 1 && vf_same_version(seen_tid, rec_tid) && seen_tid.get_absent() == rec_tid.get_absent(), "what is read is validated at commit");
            if (rc == Status::OK) {
                VF_ASSERT(out == (key ? vf_str("key") : vf_string_of(rec_value)), "the record under the cursor is read");
            }
        }
    }
    VF_DONE();
}

// the range is empty: no key lies between its ends
static bool empty_range(vf_u64 l, scan_endpoint le, vf_u64 r, scan_endpoint re) {
    if (re == scan_endpoint::INF) { return false; }
    if (le == scan_endpoint::INF) { return r == 0 && re == scan_endpoint::EXCLUSIVE; }
    return vf_view_of(r) < vf_view_of(l) || (l == r && !(le == scan_endpoint::INCLUSIVE && re == scan_endpoint::INCLUSIVE));
}
static scan_endpoint end_of(vf_u64 e) { return e == 0 ? scan_endpoint::INF : e == 1 ? scan_endpoint::INCLUSIVE : scan_endpoint::EXCLUSIVE; }
static yakushima::scan_endpoint yend(scan_endpoint e) {
    return e == scan_endpoint::INF ? yakushima::scan_endpoint::INF : e == scan_endpoint::INCLUSIVE ? yakushima::scan_endpoint::INCLUSIVE : yakushima::scan_endpoint::EXCLUSIVE;
}
static vf_u64 scans, q_l, q_r, q_max, q_st, areas, high, wp_min;
static yakushima::scan_endpoint q_le, q_re;
static bool q_back, key_too_long, has_rows;
static Record *row0, *row1;
static Status area_rc;
namespace yakushima {
status scan_raw(std::string_view n, std::string_view l, scan_endpoint le, std::string_view r, scan_endpoint re, std::vector<std::pair<std::string, void*>>& out,
                std::vector<std::pair<node_version64_body, node_version64*>>* nv, std::size_t max_size, bool back) {
    ++scans;
    q_l = l.tok_;
    q_le = le;
    q_r = r.tok_;
    q_re = re;
    q_max = max_size;
    q_back = back;
    q_st = n.tok_;
    if (!has_rows) { return status::WARN_NOT_EXIST; }
    out.emplace_back(vf_string_of(1), row0);
    out.emplace_back(vf_string_of(2), row1);
    nv->emplace_back(node_version64_body{}, reinterpret_cast<node_version64*>(8));
    nv->emplace_back(node_version64_body{}, reinterpret_cast<node_version64*>(16));
    return status::OK;
}
}
namespace shirakami {
Status check_constraint_key_length(std::string_view) { return key_too_long ? Status::WARN_INVALID_KEY_LENGTH : Status::OK; }
Status session::find_high_priority_short(bool) const { return high != 0 ? Status::WARN_PREMATURE : Status::OK; }
Status long_tx::check_read_area(session*, Storage) { ++areas; return area_rc; }
Status long_tx::abort(session* ti) { ++aborted; ti->set_tx_began(false); return Status::OK; }
wp::wp_meta::wped_type wp::find_wp(Storage) { return {}; }
epoch::epoch_t wp::wp_meta::find_min_ep(wped_type const&) { return wp_min; }
Status wp::find_page_set_meta(Storage, wp::page_set_meta*& out) { out = reinterpret_cast<wp::page_set_meta*>(&meta_any); return Status::OK; }
}
// the first record under the cursor may be one the transaction deleted if others see it
static bool passed_by2(vf_u64 i) { return own_of(i) != 1 && deleted(i); }
struct opening {
    world w;
    vf_u64 l, r, max, st;
    scan_endpoint le, re;
    bool back;
    Status rc;
    ScanHandle h{nullptr};
    opening(type t) : l(vf_in("l")), r(vf_in("r")), max(vf_in("max")), st(vf_in("storage")), le(end_of(vf_in("le") & 3U)), re(end_of(vf_in("re") & 3U)), back(vf_flag("back")) {
        w.ti->set_tx_type(t);
        w.ti->mutex_flags_.set_readaccess_daterm(t != type::READ_ONLY);
        w.ti->result_info_.reason_code_ = reason_code::UNKNOWN;
        new (&w.ti->mtx_termination_) std::mutex();
        new (&w.ti->mtx_range_read_by_short_set_) std::shared_mutex();
        new (&w.ti->range_read_by_short_set_) decltype(w.ti->range_read_by_short_set_)();
        new (&w.ti->mtx_ltx_storage_read_set_) std::shared_mutex();
        new (&w.ti->ltx_storage_read_set_) decltype(w.ti->ltx_storage_read_set_)();
        scans = areas = high = wp_min = 0;
        key_too_long = false;
        area_rc = Status::OK;
        epoch::set_global_epoch(vf_in("now"));
        row0 = static_cast<Record*>(::operator new(sizeof(Record), std::align_val_t(64)));
        row1 = static_cast<Record*>(::operator new(sizeof(Record), std::align_val_t(64)));
        row0->tidw_ = word_of(1);
        row1->tidw_ = word_of(2);
        kth = 1;
        has_rows = vf_flag("rows");
    }
    void open() { rc = open_scan(w.ti, st, vf_view_of(l), le, vf_view_of(r), re, h, max, back); }
};
static void asked(opening& o) {
    Storage s = o.st;
    VF_ASSERT(scans == 1 && q_st == std::string_view(reinterpret_cast<char*>(&s), sizeof(s)).tok_, "the storage asked for is scanned");
    VF_ASSERT(q_l == o.l && q_r == o.r && q_le == yend(o.le) && q_re == yend(o.re), "from end to end");
    VF_ASSERT(q_max == o.max && q_back == o.back, "up to the number asked for, in the order asked for");
}
VF_HARNESS(opens_nothing) {
    vf_u64 ty = vf_in("ty") & 1U;
    opening o(ty == 0 ? type::SHORT : type::READ_ONLY);
    has_rows = false;
    o.w.ti->valid_epoch_ = vf_in("snapshot");
    vf_assume(o.w.ti->valid_epoch_ <= vf_in("now"));
    o.open();
    VF_ASSERT(o.rc == Status::WARN_NOT_FOUND && o.h == nullptr, "a range without records holds nothing");
    if (!empty_range(o.l, o.le, o.r, o.re)) { asked(o); }
    VF_ASSERT(vf_held(&o.w.ti->mtx_state_da_term_) == 0, "the session is free again");
    VF_DONE();
}
VF_HARNESS(opens_empty) {
    opening o(type::SHORT);
    has_rows = true;
    vf_assume(empty_range(o.l, o.le, o.r, o.re));
    o.open();
    VF_ASSERT(o.rc == Status::WARN_NOT_FOUND && o.h == nullptr, "an empty range holds nothing");
    VF_DONE();
}
VF_HARNESS(opens_invisible) {
    opening o(type::SHORT);
    has_rows = true;
    vf_assume(!empty_range(o.l, o.le, o.r, o.re));
    vf_assume(passed_by2(1) && passed_by2(2));
    o.open();
    asked(o);
    VF_ASSERT(o.rc == Status::WARN_NOT_FOUND && o.h == nullptr, "a range without visible records holds nothing");
    VF_ASSERT(node_kth == 1, "which is guarded from phantoms");
    VF_ASSERT(seen_kth == 1, "and validated");
    VF_ASSERT(vf_held(&o.w.ti->mtx_state_da_term_) == 0, "the session is free again");
    VF_DONE();
}
VF_HARNESS(opens_short) {
    opening o(type::SHORT);
    has_rows = true;
    vf_assume(!empty_range(o.l, o.le, o.r, o.re));
    vf_assume(!(passed_by2(1) && passed_by2(2)));
    o.open();
    asked(o);
    VF_ASSERT(o.rc == Status::OK && o.h != nullptr, "a range with visible records is opened");
    auto* sc = static_cast<scan_cache_obj*>(o.h);
    VF_ASSERT(sc->get_parent() == &o.w.ti->scan_handle_ && sc->get_storage() == o.st, "for this session and storage");
    VF_ASSERT(sc->vec_.size() == 2 && std::get<0>(sc->vec_[0]) == row0 && std::get<0>(sc->vec_[1]) == row1, "over the records in order");
    VF_ASSERT(sc->scan_index_ == (passed_by2(1) ? 1 : 0), "at the first visible one");
    VF_ASSERT(!passed_by2(1) || node_kth == 1, "what is passed by is guarded from phantoms");
    VF_ASSERT(vf_held(&o.w.ti->mtx_state_da_term_) == 0, "the session is free again");
    VF_DONE();
}

VF_HARNESS(closes) {
    world w;
    w.ti->set_tx_type(type::SHORT);
    w.ti->mutex_flags_.set_readaccess_daterm(true);
    auto* h = w.ti->scan_handle_.create_scan_cache();
    VF_ASSERT(h->get_parent() == &w.ti->scan_handle_, "a scan belongs to its session");
    session* other = vf_session();
    new (&other->mtx_state_da_term_) std::shared_mutex();
    new (&other->scan_handle_) scan_handler();
    other->tx_began_ = true;
    VF_ASSERT(close_scan(other, h) == Status::WARN_INVALID_HANDLE, "another session cannot close a scan");
    VF_ASSERT(close_scan(w.ti, h) == Status::OK, "an open scan is closed");
    VF_ASSERT(close_scan(w.ti, h) == Status::WARN_INVALID_HANDLE, "a scan is closed once");
    VF_DONE();
}
