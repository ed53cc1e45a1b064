// C12: reserving several storages at begin: all or none
//@property C12: *
//@sources src/concurrency_control/wp.cpp
//@override _ZN9shirakami2wp7wp_meta11register_wpEmm = register_contract
//@override _ZN9shirakami2wp7wp_meta9remove_wpEm = remove_contract
//@override _ZN9shirakami7session8clean_upEv = clean_contract
//@opt * unroll=4
//@nonative *
//@assumed one or two different storages are asked for (they are handled one after another by the same code)
//@assumed wp_meta::register_wp, wp_meta::remove_wp by their contracts (c12_wp_meta); session::clean_up empties the sets of the transaction
#include "sh.h"
#include "storage.h"
#include "concurrency_control/include/wp.h"
#include "yakushima/include/kvs.h"
using namespace shirakami;

static wp::page_set_meta* ps[2];
static wp::wp_meta* wm[2];
static vf_u64 key[2];
static bool exists[2], registered[2];
static vf_u64 cleaned, wrong;
static vf_u64 the_id, the_epoch;
extern "C" Status register_contract(wp::wp_meta* m, epoch::epoch_t ep, std::size_t id) {
    if (ep != the_epoch || id != the_id) { ++wrong; }
    if (m == wm[0] && !registered[0]) { registered[0] = true; } else if (m == wm[1] && !registered[1]) { registered[1] = true; } else { ++wrong; }
    return Status::OK;
}
extern "C" Status remove_contract(wp::wp_meta* m, std::size_t id) {
    if (id != the_id) { ++wrong; }
    if (m == wm[0] && registered[0]) { registered[0] = false; } else if (m == wm[1] && registered[1]) { registered[1] = false; } else { ++wrong; }
    return Status::OK;
}
extern "C" void clean_contract(session* ti) {
    ++cleaned;
    ti->get_wp_set().clear();
}
void result_info::set_storage_name(Storage) {}
namespace yakushima {
status get_raw(std::string_view, std::string_view k, void*& out, std::pair<node_version64_body, node_version64*>*) {
    if (k.tok_ == key[0]) {
        if (!exists[0]) { return status::WARN_NOT_EXIST; }
        out = ps[0];
        return status::OK;
    }
    if (!exists[1]) { return status::WARN_NOT_EXIST; }
    out = ps[1];
    return status::OK;
}
}
static vf_u64 token_of(Storage s) { return std::string_view(reinterpret_cast<char*>(&s), sizeof(s)).tok_; }
static session* world() {
    auto* ti = vf_session();
    new (&ti->mtx_result_info_) std::mutex();
    new (&ti->result_info_) result_info();
    new (&ti->wp_set_) std::decay_t<decltype(ti->wp_set_)>();
    for (int i = 0; i < 2; ++i) {
        ps[i] = static_cast<wp::page_set_meta*>(::operator new(sizeof(wp::page_set_meta), std::align_val_t(64)));
        wm[i] = &ps[i]->wp_meta_;
        registered[i] = false;
    }
    cleaned = wrong = 0;
    the_id = vf_in("id");
    the_epoch = vf_in("epoch");
    return ti;
}
static void reserves(bool e0, bool e1) {
    auto* ti = world();
    exists[0] = e0;
    exists[1] = e1;
    Storage a = vf_in("a"), b = vf_in("b");
    vf_assume(a != b);
    key[0] = token_of(a);
    key[1] = token_of(b);
    vf_assume(key[0] != key[1]);
    std::vector<Storage> want{};
    want.emplace_back(a);
    want.emplace_back(b);
    vf_expose(0);
    vf_expose(1);
    Status rc = wp::write_preserve(ti, want, the_id, the_epoch);
    bool all = e0 && e1;
    VF_ASSERT((rc == Status::OK) == all, "a transaction reserves storages which exist only");
    VF_ASSERT(wrong == 0, "a reservation is made once, with the epoch and id of the transaction, and taken back only if made");
    VF_ASSERT(registered[0] == all && registered[1] == all, "all storages asked for are reserved, or none");
    VF_ASSERT(ti->get_wp_set().size() == (all ? 2U : 0U), "the transaction knows the storages it reserved");
    VF_DONE();
}
VF_HARNESS(reserves_both) { reserves(true, true); }
VF_HARNESS(reserves_first) { reserves(true, false); }
VF_HARNESS(reserves_second) { reserves(false, true); }
VF_HARNESS(reserves_none) { reserves(false, false); }
