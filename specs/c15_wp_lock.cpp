// C15: contracts of the reservation lock and of the lock-free reader of the
// reservation table
//@property C15: *
//@sources src/concurrency_control/wp_lock.cpp src/concurrency_control/wp_meta.cpp
//@nonative get_wped
#include "concurrency_control/include/wp_lock.h"
#include "concurrency_control/include/wp_meta.h"
#include "vf.h"
using namespace shirakami;
using namespace shirakami::wp;

static bool own;
static bool locked(vf_u64 v) { return (v & 1U) != 0; }

// other parties: nothing changes while we hold the lock; otherwise version
// numbers only grow, and a change of the word never keeps (version, unlocked)
static bool rely_word(const void* o, const void* n) {
    auto a = *static_cast<const vf_u64*>(o);
    auto b = *static_cast<const vf_u64*>(n);
    if (own) { return a == b; }
    return b >= a;
}
static bool guar_lock(const void* o, const void* n) {
    auto a = *static_cast<const vf_u64*>(o);
    auto b = *static_cast<const vf_u64*>(n);
    return !locked(a) && b == (a | 1U);
}
static bool guar_unlock(const void* o, const void* n) {
    auto a = *static_cast<const vf_u64*>(o);
    auto b = *static_cast<const vf_u64*>(n);
    return locked(a) && !locked(b) && (b >> 1U) == (a >> 1U) + 1;
}

VF_HARNESS(lock) {
    wp_lock l;
    l.obj = vf_in("obj");
    vf_u64 before = vf_in("obj");
    (void) before;
    own = false;
#ifdef VF_NATIVE
    l.obj = vf_in("obj") & ~1UL;
    before = vf_in("obj") & ~1UL;
#endif
    vf_shared(&l.obj, 8, &rely_word, &guar_lock);
    l.lock();
    vf_unshare();
    VF_ASSERT(wp_lock::is_locked(l.load_obj()) && locked(l.obj), "lock() returns with the lock held");
#ifdef VF_NATIVE
    VF_ASSERT(l.obj == (before | 1U), "lock() changes only the lock bit");
#endif
    VF_DONE();
}

VF_HARNESS(unlock) {
    wp_lock l;
    l.obj = vf_in("obj");
    vf_u64 before = l.obj;
    vf_assume(locked(before) && before < ~0UL);
    own = true;
    vf_shared(&l.obj, 8, &rely_word, &guar_unlock);
    l.unlock();
    vf_unshare();
    VF_ASSERT(!locked(l.obj), "unlock() releases the lock");
    VF_ASSERT((l.obj >> 1U) == (before >> 1U) + 1, "a completed critical section changes the version number");
    VF_DONE();
}

VF_HARNESS(observe) {
    vf_u64 v = vf_in("obj");
    wp_lock l;
    l.obj = v;
    VF_ASSERT(l.load_obj() == v, "observers see the whole lock word");
    VF_ASSERT(wp_lock::is_locked(v) == locked(v), "is_locked tells whether the observed word is locked");
    VF_DONE();
}

// ---- the table is written only inside critical sections; between two equal
// unlocked observations of the word nothing in the table changed.
struct view { // the shared object as the predicates see it
    vf_u64 word;
    vf_u64 ep;
    vf_u64 id;
};
static bool rely_table(const void* o, const void* n) {
    auto* a = static_cast<const view*>(o);
    auto* b = static_cast<const view*>(n);
    if (own) { return a->word == b->word && a->ep == b->ep && a->id == b->id; }
    if (b->word < a->word) { return false; }
    if (a->word == b->word && !locked(a->word)) { return a->ep == b->ep && a->id == b->id; }
    return true;
}
static bool guar_reader(const void* o, const void* n) {
    auto* a = static_cast<const view*>(o);
    auto* b = static_cast<const view*>(n);
    return a->word == b->word && a->ep == b->ep && a->id == b->id;
}

VF_HARNESS(get_wped) {
    static wp_meta m;
    vf_u64 k = vf_in("k");
    vf_assume(k < KVS_MAX_PARALLEL_THREADS);
    vf_expose(k);
    m.wp_lock_.obj = vf_in("word");
    m.wped_.at(k) = {vf_in("ep"), vf_in("id")};
    own = false;
    vf_shared(&m.wp_lock_.obj, 8, &rely_table, &guar_reader);
    vf_shared_part(&m.wped_.at(k), 16);
    wp_meta::wped_type r = m.get_wped();
    vf_unshare();
    // the memory now is the one at the reader's last observation of the word
    VF_ASSERT(!locked(m.wp_lock_.obj), "the copy corresponds to an instant outside any critical section");
    VF_ASSERT(r.at(k).first == m.wped_.at(k).first && r.at(k).second == m.wped_.at(k).second,
              "every entry of the copy is the entry of the table at that instant");
    VF_DONE();
}
