// C13, C03, C08: what a transaction may write and read
//@property C13: *
//@property C03: write_gate
//@property C08: write_gate
//@sources src/concurrency_control/interface/helper.cpp src/concurrency_control/interface/long_tx/helper.cpp src/concurrency_control/session.cpp src/concurrency_control/result_info.cpp
//@override _ZN9shirakami7long_tx24wp_verify_and_forwardingEPNS_7sessionEPNS_2wp7wp_metaESt14vf_string_view = forward_contract
//@override _ZN9shirakami2wp7wp_meta8get_wpedEv = get_wped_contract
//@override _ZN9shirakami2wp7wp_meta11find_min_epERKSt5arrayISt4pairImmELm300EE = find_min_ep_contract
//@override _ZN9shirakami11result_info16set_storage_nameEm = name_contract
//@override _ZNK9shirakami7session18check_exist_wp_setEm = reserved_contract
//@real _ZNK9shirakami7session18check_exist_wp_setEm reserved_storage other_storage
//@nonative *
//@assumed wp_meta::get_wped, wp_meta::find_min_ep: the smallest epoch reserved for a storage (c12_wp_meta, c15_wp_lock)
#include "sh.h"
#include "concurrency_control/include/wp.h"
#include "concurrency_control/interface/include/helper.h"
#include "concurrency_control/interface/long_tx/include/long_tx.h"
using namespace shirakami;
using tt = transaction_options::transaction_type;

static vf_u64 forwarded, aborted, min_ep;
static bool exists, reserved;
static wp::wp_meta* meta;
extern "C" void forward_contract(session*, wp::wp_meta*, std::string_view*) { ++forwarded; }
extern "C" void get_wped_contract(void*, wp::wp_meta*) {}
extern "C" vf_u64 find_min_ep_contract(void*) { return min_ep; }
extern "C" void name_contract(void*, Storage) {}
extern "C" bool reserved_contract(session*, Storage) { return reserved; }
namespace shirakami::wp {
Status find_wp_meta(Storage, wp_meta*& out) {
    if (!exists) { return Status::WARN_NOT_FOUND; }
    out = meta;
    return Status::OK;
}
}
namespace shirakami::long_tx {
Status abort(session* const) { ++aborted; return Status::OK; }
}

struct world {
    session* ti;
    vf_u64 n, k, st;
    bool inp, inn, nop, non;
    world() : ti(vf_session()) {
        new (&ti->read_area_) transaction_options::read_area();
        new (&ti->wp_set_) session::wp_set_type();
        new (&ti->mtx_read_area_) std::shared_mutex();
        new (&ti->mtx_termination_) std::mutex();
        new (&ti->mtx_ltx_storage_read_set_) std::shared_mutex();
        new (&ti->ltx_storage_read_set_) session::ltx_storage_read_set_type();
        new (&ti->result_info_) result_info();
        n = vf_size("n");
        k = vf_in("k");
        vf_expose(k);
        vf_fill_n(ti->wp_set_, n, [](vf_u64 i) { return std::pair<Storage, wp::wp_meta*>(vf_in_at("wst", i), nullptr); });
        st = vf_in("st");
        vf_fill(ti->read_area_.positive_list_, "np", [](vf_u64 i) { return vf_in_at("p", i); });
        vf_fill(ti->read_area_.negative_list_, "nn", [](vf_u64 i) { return vf_in_at("q", i); });
        auto& p = ti->read_area_.positive_list_;
        auto& q = ti->read_area_.negative_list_;
        inp = has(p, st);
        inn = has(q, st);
        nop = p.empty();
        non = q.empty();
        forwarded = aborted = 0;
        min_ep = vf_in("min_ep");
        exists = vf_flag("exists");
        reserved = vf_flag("reserved");
        meta = reinterpret_cast<wp::wp_meta*>(::operator new(sizeof(wp::wp_meta)));
    }
    static bool has(std::set<Storage>& s, Storage st) {
#ifndef VF_NATIVE
        vf_u64 i = s.vf_index(st);
        vf_expose(i);
        return i != s.size();
#else
        return s.find(st) != s.end();
#endif
    }
    // the storage may be read
    bool may_read() { return nop ? (non || !inn) : inp; }
};
VF_HARNESS(read_area) {
    world w;
    Status rc = long_tx::check_read_area(w.ti, w.st);
    VF_ASSERT(rc == (w.may_read() ? Status::OK : Status::ERR_READ_AREA_VIOLATION), "a read is rejected exactly if it is outside the declared area");
    VF_DONE();
}
VF_HARNESS(reserved_storage) {
    world w;
    vf_assume(w.k < w.n);
    bool r = w.ti->check_exist_wp_set(w.st);
    VF_ASSERT(r || vf_in_at("wst", w.k) != w.st, "a reserved storage is recognised");
    VF_DONE();
}
VF_HARNESS(other_storage) {
    world w;
    new (&w.ti->wp_set_) session::wp_set_type();
    vf_fill_n(w.ti->wp_set_, w.n, [](vf_u64 i) {
        vf_u64 s = vf_in_at("wst", i);
        return std::pair<Storage, wp::wp_meta*>(s == vf_in_at("st1", 0) ? s + 1 : s, nullptr);
    });
    VF_ASSERT(!w.ti->check_exist_wp_set(vf_in_at("st1", 0)), "only the storages reserved are reserved");
    VF_DONE();
}
VF_HARNESS(write_gate) {
    world w;
    vf_u64 t = vf_in("type") & 3U;
    vf_assume(t < 3);
    w.ti->set_tx_type(t == 0 ? tt::SHORT : t == 1 ? tt::LONG : tt::READ_ONLY);
    vf_u64 ve = vf_in("valid");
    w.ti->set_valid_epoch(ve);
    vf_u64 ge = vf_in("epoch");
    epoch::set_global_epoch(ge);
    vf_u64 o = vf_in("op") & 3U;
    auto op = o == 0 ? OP_TYPE::INSERT : o == 1 ? OP_TYPE::UPDATE : o == 2 ? OP_TYPE::UPSERT : OP_TYPE::DELETE;
    bool res = reserved;
    Status rc = check_before_write_ops(w.ti, w.st, vf_view_of(7), op);
    VF_ASSERT(t != 2 || (rc == Status::WARN_ILLEGAL_OPERATION && aborted == 0), "a read only transaction cannot write");
    if (t != 2) {
        VF_ASSERT(exists || rc == Status::WARN_STORAGE_NOT_FOUND, "a storage that does not exist cannot be written");
    }
    if (t == 1 && exists) {
        VF_ASSERT(ge >= ve || rc == Status::WARN_PREMATURE, "a long transaction cannot write before its epoch");
        if (ge >= ve) {
            VF_ASSERT(res || rc == Status::WARN_WRITE_WITHOUT_WP, "a long transaction cannot write a storage it did not reserve");
            if (res) {
                bool reads = op != OP_TYPE::UPSERT;
                VF_ASSERT(rc == (!reads || w.may_read() ? Status::OK : Status::ERR_READ_AREA_VIOLATION), "a write that reads keeps to the read area");
                VF_ASSERT(aborted == (rc == Status::OK ? 0 : 1), "the transaction is aborted exactly if it left its read area");
                VF_ASSERT(forwarded == (rc == Status::OK && reads ? 1 : 0), "a write that reads takes note of the transactions overtaken");
            }
        }
    }
    if (t == 0 && exists) {
        bool conflict = min_ep != 0 && op != OP_TYPE::UPSERT;
        VF_ASSERT(rc == (conflict ? Status::WARN_CONFLICT_ON_WRITE_PRESERVE : Status::OK), "a short transaction does not write a storage reserved by a long one");
    }
    VF_ASSERT(rc == Status::OK || aborted == 1 || forwarded == 0, "a refused write has no effect");
    VF_DONE();
}
