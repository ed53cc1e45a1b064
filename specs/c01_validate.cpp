// C01, C03: validation of the reads of a short transaction at commit
//@property C01: *
//@property C03: validate
//@sources src/concurrency_control/tid.cpp src/concurrency_control/result_info.cpp src/concurrency_control/session.cpp
//@override _ZN9shirakami8short_txL16unlock_write_setEPNS_7sessionE = unlock_contract
//@override _ZN9shirakami8short_tx5abortEPNS_7sessionE = abort_contract
//@override _ZN9shirakami15local_write_set6searchEPKNS_6RecordE = search_contract
//@override _ZN9shirakami2wp7wp_meta8get_wpedEv = get_wped_contract
//@override _ZN9shirakami2wp7wp_meta11find_min_epERKSt5arrayISt4pairImmELm300EE = find_min_ep_contract
//@override _ZN9shirakami11result_info20set_key_storage_nameESt14vf_string_viewm = name_contract
//@assumed get<Record>: the index returns the record hooked under a key, or none
//@assumed find_wp_meta, wp_meta::get_wped, wp_meta::find_min_ep: the smallest epoch reserved for a storage (c12_wp_meta, c15_wp_lock)
#include "sh.h"
#include "ix.h"
#include "concurrency_control/interface/short_tx/termination.cpp"
using namespace shirakami;

static Record* hooked; // the record now reached under the key of the watched one
static Record* vf_index_get(std::string_view) { return hooked; }

static bool unlocked, aborted;
#ifndef VF_NATIVE
extern "C" void unlock_contract(session*) { unlocked = true; }
extern "C" Status abort_contract(session*) { aborted = true; return Status::OK; }
extern "C" void name_contract(result_info*, std::string_view*, Storage) {}
// own records carry a mark in a field validation does not look at
extern "C" write_set_obj* search_contract(local_write_set*, Record const* r) {
    return const_cast<Record*>(r)->shared_tombstone_count_ != 0 ? reinterpret_cast<write_set_obj*>(8) : nullptr; // NOLINT
}
#endif
static tid_word cur(vf_u64 i) { return vf_word(vf_in_at("cf", i) & ~2UL, vf_in_at("ct", i), vf_in_at("cs", i), vf_in_at("ce", i)); }

VF_HARNESS(read_verify) {
    auto* ti = vf_session();
    vf_objs<Record> recs("recs", [](void* p, vf_u64 i) {
        auto* r = static_cast<Record*>(p);
#ifdef VF_NATIVE
        new (p) Record();
        r->key_ = "k";
#endif
        r->shared_tombstone_count_ = vf_flag_at("own", i) ? 1 : 0;
        r->tidw_ = cur(i);
    });
    Record* r0 = recs.at(0);
    Record* r1 = recs.at(1);
#ifdef VF_NATIVE
    for (Record* r : {r0, r1}) {
        if (r->shared_tombstone_count_ != 0) { ti->get_write_set().cont_for_occ_.emplace_back(1, OP_TYPE::DELETE, r); }
    }
#endif
    vf_u64 h = vf_within(vf_in("hooked"), 0, 2);
    hooked = h == 0 ? nullptr : (h == 1 ? r0 : r1);
    tid_word read = vf_word(vf_in("rf"), vf_in("rt"), vf_in("rs"), vf_in("re"));
    tid_word now = cur(0);
    Status rc = short_tx::read_verify(ti, read, now, r0, 1);
    bool own0 = vf_flag_at("own", 0);
    bool own1 = vf_flag_at("own", 1);
    if (rc == Status::OK) {
        VF_ASSERT(vf_same_version(read, now), "a read is valid only if the record still has the version read");
        VF_ASSERT(!now.get_lock() || own0, "a record locked by another transaction is not valid");
        VF_ASSERT(!(now.get_absent() && h == 2) || (cur(1).get_absent() && cur(1).get_latest() && (!cur(1).get_lock() || own1)),
                  "a record read as absent is not valid when its key is filled by another record");
    } else {
        VF_ASSERT(!vf_same_version(read, now) || (now.get_lock() && !own0) || (now.get_absent() && h == 2), "an unchanged unlocked record is valid");
    }
    VF_DONE();
}

// the whole validation: k is any read, the storages are looked up by contract
static vf_u64 reserved(Storage st) { return vf_in_at("reserved", st & 7U) & 0xffU; }
namespace shirakami::wp {
Status find_wp_meta(Storage st, wp_meta*& out) {
    void* p = ::operator new(sizeof(wp_meta), std::align_val_t(64));
#ifdef VF_NATIVE
    out = new (p) wp_meta();
    if (reserved(st) != 0) { out->register_wp(reserved(st), 1); }
#else
    out = static_cast<wp_meta*>(p);
    out->wped_[0].first = reserved(st);
#endif
    return Status::OK;
}
}
#ifndef VF_NATIVE
extern "C" void get_wped_contract(wp::wp_meta::wped_type* ret, wp::wp_meta* m) { (*ret)[0].first = m->wped_[0].first; }
extern "C" vf_u64 find_min_ep_contract(wp::wp_meta::wped_type const* w) { return (*w)[0].first; }
#endif

struct handing {
    tid_word* out;
    tid_word seen, rec;
};
static bool from_start(void* c) { return static_cast<handing*>(c)->seen.get_obj() <= static_cast<handing*>(c)->out->get_obj(); }
static bool from_record(void* c) { return static_cast<handing*>(c)->rec.get_obj() <= static_cast<handing*>(c)->out->get_obj(); }
static bool clean(void* c) { return (static_cast<handing*>(c)->out->get_obj() & ((static_cast<__uint128_t>(0xffe) << 64U) | 0xff0U)) == 0; }

VF_HARNESS(validate) {
    auto* ti = vf_session();
    vf_objs<Record> recs("recs", [](void* p, vf_u64 i) {
        auto* r = static_cast<Record*>(p);
#ifdef VF_NATIVE
        new (p) Record();
        r->key_ = "k";
#endif
        r->shared_tombstone_count_ = vf_flag_at("own", i) ? 1 : 0;
        r->tidw_ = cur(i);
    });
    vf_u64 n = vf_size("reads");
    vf_u64 k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    hooked = nullptr;
    unlocked = aborted = false;
#ifndef VF_NATIVE
    new (&ti->read_set_for_stx_) std::remove_reference_t<decltype(ti->get_read_set_for_stx())>();
    new (&ti->range_read_by_short_set_) std::remove_reference_t<decltype(ti->get_range_read_by_short_set())>();
    new (&ti->write_set_) local_write_set();
#else
    for (vf_u64 i = 0; i < n; ++i) {
        if (vf_flag_at("own", i)) { ti->get_write_set().cont_for_occ_.emplace_back(vf_in_at("st", i) & 7U, OP_TYPE::UPSERT, recs.at(i), "", false, std::vector<blob_id_type>{}); }
    }
#endif
    auto read = [](vf_u64 i) { return vf_word(vf_in_at("rf", i), vf_in_at("rt", i), vf_in_at("rs", i), vf_in_at("re", i)); };
    vf_fill_n(ti->get_read_set_for_stx(), n, [&recs, read](vf_u64 i) { return read_set_obj(vf_in_at("st", i) & 7U, recs.at(i), read(i)); });
    tid_word seen = vf_word(vf_in("sf"), vf_in("st"), vf_in("ss"), vf_in("se"));
    tid_word out = seen;
    vf_u64 ce = vf_in("ce") & 0xffU;
    handing hd{&out, seen, cur(k)};
    vf_candidate(&from_start, &hd);
    vf_candidate(&from_record, &hd);
    vf_candidate(&clean, &hd);
    Status rc = short_tx::read_wp_verify(ti, ce, out);
    if (rc == Status::OK) {
        VF_ASSERT(vf_same_version(read(k), cur(k)), "a commit passes only if no record it read has a new version");
        VF_ASSERT(!cur(k).get_lock() || vf_flag_at("own", k), "a commit passes only if no record it read is locked by another transaction");
        vf_u64 r = reserved(vf_in_at("st", k) & 7U);
        VF_ASSERT(r == 0 || r > ce, "a commit passes only if no storage it read is reserved by a long transaction");
        VF_ASSERT(!vf_newer(cur(k), out) && !vf_newer(seen, out), "the largest version seen is handed on");
    }
    VF_DONE();
}
