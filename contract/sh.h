#pragma once
// helpers shared by the contracts: objects of the engine in arbitrary states
#include "concurrency_control/include/record.h"
#include "concurrency_control/include/session.h"
#include "vf.h"

// a session; the verifier knows nothing about members that are not set
inline shirakami::session* vf_session() {
    void* p = ::operator new(sizeof(shirakami::session), std::align_val_t(64));
#ifdef VF_NATIVE
    return new (p) shirakami::session();
#else
    return static_cast<shirakami::session*>(p);
#endif
}
// a version word without reserved bits; far from the end of its ranges
inline shirakami::tid_word vf_word(vf_u64 flags, vf_u64 tid, vf_u64 by_short, vf_u64 epoch) {
    shirakami::tid_word t{};
    t.set_lock((flags & 1U) != 0);
    t.set_lock_by_gc((flags & 2U) != 0);
    t.set_latest((flags & 4U) != 0);
    t.set_absent((flags & 8U) != 0);
    t.set_tid(tid & ((1UL << 50U) - 1));
    t.set_by_short((by_short & 1U) != 0);
    t.set_epoch(epoch & ((1UL << 50U) - 1));
    return t;
}
inline bool vf_same_version(shirakami::tid_word a, shirakami::tid_word b) {
    return a.get_tid() == b.get_tid() && a.get_epoch() == b.get_epoch() && a.get_by_short() == b.get_by_short();
}
inline bool vf_newer(shirakami::tid_word a, shirakami::tid_word b) {
    if (a.get_epoch() != b.get_epoch()) { return a.get_epoch() > b.get_epoch(); }
    if (a.get_by_short() != b.get_by_short()) { return a.get_by_short(); }
    return a.get_tid() > b.get_tid();
}
