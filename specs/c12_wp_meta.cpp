// C12, C15: contracts of the reservation table of one storage
//@property C12: *
//@property C15: register_wp remove_wp result
//@sources src/concurrency_control/wp_meta.cpp
//@override _ZN9shirakami2wp7wp_lock4lockEv = lock_contract
//@override _ZN9shirakami2wp7wp_lock6unlockEv = unlock_contract
#include "concurrency_control/include/wp_meta.h"
#include "vf.h"
using namespace shirakami;
using namespace shirakami::wp;

static constexpr vf_u64 N = KVS_MAX_PARALLEL_THREADS;
static bool own;
static vf_u64 sections;
static bool locked(vf_u64 v) { return (v & 1U) != 0; }

#ifndef VF_NATIVE
// callee contracts, discharged in c15_wp_lock.cpp
extern "C" void lock_contract(wp_lock*) {
    VF_ASSERT(!own, "the lock is not taken twice");
    own = true;
    ++sections;
}
extern "C" void unlock_contract(wp_lock*) {
    VF_ASSERT(own, "only a held lock is released");
    own = false;
}
#endif
// the tracked entry of the table changes only inside the critical section
static bool rely(const void* o, const void* n) {
    auto* a = static_cast<const vf_u64*>(o);
    auto* b = static_cast<const vf_u64*>(n);
    return a[0] == b[0] && a[1] == b[1];
}
static bool guar(const void*, const void*) { return own; }

struct table {
    wp_meta* m;
    vf_u64 j, k, id;
};
// an arbitrary table: entry i is a reservation iff its used bit is set; the
// reservation `id` is at slot j only
static table make(bool present) {
    table t{};
    void* p = ::operator new(sizeof(wp_meta), std::align_val_t(64));
#ifdef VF_NATIVE
    t.m = new (p) wp_meta();
#else
    t.m = static_cast<wp_meta*>(p);
    own = false;
    sections = 0;
#endif
    wp_meta* m = t.m;
    vf_u64 j = t.j = vf_within(vf_in("j"), 0, N - 1);
    t.k = vf_within(vf_in("k"), 0, N - 1);
    vf_u64 id = t.id = vf_in("id");
    vf_assume(id != 0);
    vf_expose(t.j);
    vf_expose(t.k);
    auto* w = reinterpret_cast<vf_u64*>(&m->wped_used_); // NOLINT
    for (int i = 0; i < 5; ++i) { w[i] = vf_in_at("used", i); }
    m->wped_used_.set(j, present);
    vf_array(&m->wped_[0], N, [m, j, id, present](vf_u64 i) {
        if (!m->wped_used_.test(i)) { return std::pair<epoch::epoch_t, std::size_t>(0, 0); }
        auto ep = vf_in_at("ep", i);
        auto x = vf_in_at("ids", i);
        vf_assume(ep != 0 && x != 0);
        if (present && i == j) { x = id; } else { vf_assume(x != id); }
        return std::pair<epoch::epoch_t, std::size_t>(ep, x);
    });
    return t;
}
static bool consistent(const wp_meta& m, vf_u64 i) { return m.wped_used_.test(i) == (m.wped_[i].first != 0); }

VF_HARNESS(register_wp) {
    table t = make(false);
    vf_u64 ep = vf_in("newep");
    vf_assume(ep != 0);
    bool used = t.m->wped_used_.test(t.k);
    auto old = t.m->wped_[t.k];
    vf_u64 word = t.m->wp_lock_.obj = vf_in("word") & ~1UL;
    (void) word;
    vf_shared(&t.m->wped_[t.k], 16, &rely, &guar);
    Status rc = t.m->register_wp(ep, t.id);
    vf_unshare();
    VF_ASSERT(rc == Status::OK, "registering a reservation succeeds while a slot is free");
    auto now = t.m->wped_[t.k];
    VF_ASSERT(!used || (now.first == old.first && now.second == old.second && t.m->wped_used_.test(t.k)), "other reservations stay as they were");
    VF_ASSERT(used || !t.m->wped_used_.test(t.k) || (now.first == ep && now.second == t.id), "the new reservation has its epoch and id");
    VF_ASSERT(consistent(*t.m, t.k), "a slot is in use exactly if it shows a reservation");
#ifdef VF_NATIVE
    bool found = false;
    for (vf_u64 i = 0; i < N; ++i) { found |= t.m->wped_[i].first == ep && t.m->wped_[i].second == t.id; }
    VF_ASSERT(found, "the new reservation is visible");
    VF_ASSERT(!locked(t.m->wp_lock_.obj) && t.m->wp_lock_.obj != word, "the critical section is completed");
#else
    VF_ASSERT(!own && sections == 1, "the critical section is completed");
#endif
    VF_DONE();
}

// the slot chosen for a new reservation (existence of the new entry)
VF_HARNESS(find_slot) {
    table t = make(false);
    std::size_t at = N;
    Status rc = t.m->find_slot(at);
    VF_ASSERT(rc == Status::OK && at < N, "a free slot is found while there is one");
    VF_ASSERT(!t.m->wped_used_.test(at), "the slot found is free");
    VF_DONE();
}
// one free slot, anywhere: the new reservation shows up there
VF_HARNESS(register_shows) {
    table t = make(false);
    for (int i = 0; i < 5; ++i) { vf_assume(vf_in_at("used", i) == ~0UL); }
    vf_u64 ep = vf_in("newep");
    vf_assume(ep != 0);
#ifdef VF_NATIVE
    t.m->wp_lock_.obj = vf_in("word") & ~1UL;
#endif
    Status rc = t.m->register_wp(ep, t.id);
    VF_ASSERT(rc == Status::OK && t.m->wped_[t.j].first == ep && t.m->wped_[t.j].second == t.id, "the new reservation is visible");
    VF_DONE();
}

VF_HARNESS(remove_wp) {
    table t = make(true);
    auto old = t.m->wped_[t.k];
    vf_u64 word = t.m->wp_lock_.obj = vf_in("word") & ~1UL;
    (void) word;
    vf_shared(&t.m->wped_[t.k], 16, &rely, &guar);
    Status rc = t.m->remove_wp(t.id);
    vf_unshare();
    VF_ASSERT(rc == Status::OK, "removing an existing reservation succeeds");
    auto now = t.m->wped_[t.k];
    VF_ASSERT(t.k != t.j || (now.first == 0 && now.second == 0 && !t.m->wped_used_.test(t.k)), "the reservation is gone");
    VF_ASSERT(t.k == t.j || (now.first == old.first && now.second == old.second), "other reservations stay as they were");
    VF_ASSERT(consistent(*t.m, t.k), "a slot is in use exactly if it shows a reservation");
#ifdef VF_NATIVE
    VF_ASSERT(!locked(t.m->wp_lock_.obj) && t.m->wp_lock_.obj != word, "the critical section is completed");
#else
    VF_ASSERT(!own && sections == 1, "the critical section is completed");
#endif
    VF_DONE();
}

VF_HARNESS(result) {
    table t = make(true);
    auto old = t.m->wped_[t.k];
    t.m->wp_lock_.obj = vf_in("word") & ~1UL;
#ifndef VF_NATIVE
    new (&t.m->mtx_wp_result_set_) std::shared_mutex();
    new (&t.m->wp_result_set_) wp_meta::wp_result_set_type();
#endif
    vf_fill(t.m->wp_result_set_, "results", [](vf_u64 i) {
        return wp_meta::wp_result_elem_type(vf_in_at("rep", i), vf_in_at("rid", i), vf_flag_at("rc", i),
                                            std::tuple<bool, std::string, std::string>(vf_flag_at("rw", i), vf_str_at("rl", i), vf_str_at("rr", i)));
    });
    vf_u64 n = t.m->wp_result_set_.size();
    vf_u64 x = vf_in("x");
    bool committed = vf_flag("committed");
    bool wrote = vf_flag("wrote");
    wp_meta::wp_result_elem_type el(vf_in("resep"), t.id, committed, std::tuple<bool, std::string, std::string>(wrote, vf_str("left"), vf_str("right")));
    vf_shared(&t.m->wped_[t.k], 16, &rely, &guar);
    Status rc = t.m->register_wp_result_and_remove_wp(el);
    vf_unshare();
    VF_ASSERT(rc == Status::OK, "finishing an existing reservation succeeds");
    VF_ASSERT(t.m->wp_result_set_.size() == n + 1, "exactly one result is recorded");
    auto& got = t.m->wp_result_set_[n];
    VF_ASSERT(std::get<0>(got) == vf_in("resep") && std::get<1>(got) == t.id && std::get<2>(got) == committed &&
                      std::get<0>(std::get<3>(got)) == wrote && std::get<1>(std::get<3>(got)) == vf_str("left") && std::get<2>(std::get<3>(got)) == vf_str("right"),
              "the recorded result carries the epoch, id, outcome and written range");
    if (x < n) {
        auto& o = t.m->wp_result_set_[x];
        VF_ASSERT(std::get<0>(o) == vf_in_at("rep", x) && std::get<1>(o) == vf_in_at("rid", x) && std::get<2>(o) == vf_flag_at("rc", x), "earlier results stay as they were");
    }
    auto now = t.m->wped_[t.k];
    VF_ASSERT(t.k != t.j || (now.first == 0 && now.second == 0 && !t.m->wped_used_.test(t.k)), "the reservation is gone");
    VF_ASSERT(t.k == t.j || (now.first == old.first && now.second == old.second), "other reservations stay as they were");
#ifdef VF_NATIVE
    VF_ASSERT(!locked(t.m->wp_lock_.obj), "the critical section is completed");
#else
    VF_ASSERT(!own && sections == 1, "the critical section is completed");
    VF_ASSERT(vf_held(&t.m->mtx_wp_result_set_) == 0, "the result set is unlocked");
#endif
    VF_DONE();
}

// queries
VF_HARNESS(queries) {
    vf_u64 k = vf_within(vf_in("k"), 0, N - 1);
    static wp_meta::wped_type w;
    vf_expose(k);
    vf_array(&w[0], N, [](vf_u64 i) { return std::pair<epoch::epoch_t, std::size_t>(vf_in_at("ep", i), vf_in_at("ids", i)); });
    auto e = w[k];
    bool has = e.first != 0;
    bool em = wp_meta::empty(w);
    VF_ASSERT(!has || !em, "a table with a reservation is not empty");
    auto me = wp_meta::find_min_ep(w);
    VF_ASSERT(!has || (me != 0 && me <= e.first), "find_min_ep is at most every reservation's epoch");
    VF_ASSERT(has || me != 0 || e.first == 0, "find_min_ep is 0 only without reservations");
    auto mi = wp_meta::find_min_id(w);
    VF_ASSERT(!has || mi <= e.second, "find_min_id is at most every reservation's id");
    auto mp = wp_meta::find_min_ep_id(w);
    VF_ASSERT(!has || (mp.first != 0 && mp.second <= e.second), "find_min_ep_id has the smallest id");
    VF_DONE();
}
// exactly one reservation, at an arbitrary slot, or none
VF_HARNESS(empty_table) {
    vf_u64 k = vf_within(vf_in("k"), 0, N - 1);
    static wp_meta::wped_type w;
    vf_u64 ep = vf_in("ep");
    vf_u64 id = vf_in("id");
    vf_assume(ep != 0 || id == 0);
    vf_expose(k);
    vf_array(&w[0], N, [k, ep, id](vf_u64 i) { return i == k ? std::pair<epoch::epoch_t, std::size_t>(ep, id) : std::pair<epoch::epoch_t, std::size_t>(0, 0); });
    VF_ASSERT(wp_meta::empty(w) == (ep == 0), "empty() tells whether there is a reservation");
    VF_ASSERT(wp_meta::find_min_ep(w) == ep, "the only reservation's epoch is reported");
    VF_ASSERT(wp_meta::find_min_id(w) == (ep != 0 ? id : 0), "the only reservation's id is reported");
    auto p = wp_meta::find_min_ep_id(w);
    VF_ASSERT(p.first == ep && p.second == (ep != 0 ? id : 0), "the only reservation is reported");
    VF_DONE();
}
