// C06, C09: choice of the version a snapshot reads
//@property C06: *
//@property C09: older_version snapshot_version
//@sources src/concurrency_control/interface/long_tx/helper.cpp src/concurrency_control/tid.cpp src/concurrency_control/record.cpp
#include "concurrency_control/interface/long_tx/include/long_tx.h"
#include "sh.h"
using namespace shirakami;

// versions 0 (newest) .. n-1 of one record; the number is kept in the tid
static vf_u64 epoch_of(vf_u64 i) { return vf_in_at("ep", i) & 0xffffffffUL; }
struct chain {
    vf_objs<version> v;
    vf_u64 n;
    explicit chain(vf_u64 sz) : v("versions", [sz](void* p, vf_u64 i) {
#ifdef VF_NATIVE
        auto* x = new (p) version();
#else
        auto* x = static_cast<version*>(p);
#endif
        x->tid_ = vf_word(0, i, 1, epoch_of(i));
        x->next_ = i + 1 < sz ? static_cast<version*>(vf_sibling(i + 1)) : nullptr;
    }), n(sz) {}
};

VF_HARNESS(older_version) {
    vf_u64 n = vf_size("n");
    vf_assume(n >= 1);
    chain c(n);
    vf_u64 s = vf_in("s");
    vf_u64 k = vf_in("k");
    vf_assume(s < n && k < n && k > s);
    vf_expose(k - 1);
    epoch::epoch_t ep = static_cast<epoch::epoch_t>(vf_in("epoch"));
    version* ver = c.v.at(s);
    Status rc = long_tx::version_function_without_optimistic_check(ep, ver);
    if (rc == Status::OK) {
        vf_u64 r = ver->tid_.get_tid();
        VF_ASSERT(epoch_of(r) < ep, "a snapshot reads a version committed before it");
        VF_ASSERT(r > s && (k >= r || epoch_of(k) >= ep), "a snapshot reads the newest version committed before it");
    } else {
        VF_ASSERT(rc == Status::WARN_NOT_FOUND && epoch_of(k) >= ep, "a version committed before the snapshot is found");
    }
    VF_DONE();
}

// others write and lock the record at any time; its epoch does not go back
static bool rely_word(const void* o, const void* n) {
    return static_cast<const tid_word*>(n)->get_epoch() >= static_cast<const tid_word*>(o)->get_epoch();
}
static bool guar_word(const void* o, const void* n) {
    return static_cast<const tid_word*>(n)->obj_ == static_cast<const tid_word*>(o)->obj_;
}

VF_HARNESS(snapshot_version) {
    vf_u64 n = vf_size("n");
    vf_assume(n >= 1);
    chain c(n);
    vf_u64 k = vf_in("k");
    vf_assume(k < n && k > 0);
    vf_expose(k - 1);
    epoch::epoch_t ep = vf_in("epoch");
    Record rec(std::string_view{});
    rec.tidw_ = vf_word(vf_in("flags"), vf_in("tid"), vf_in("by_short"), vf_in("ce") & 0xffffffffUL);
#ifdef VF_NATIVE
    vf_assume(!rec.tidw_.get_lock());
#endif
    rec.latest_ = c.v.at(0);
    version* ver = nullptr;
    bool latest = true;
    tid_word seen{};
    vf_shared(&rec.tidw_, 16, &rely_word, &guar_word);
    Status rc = long_tx::version_function_with_optimistic_check(&rec, ep, ver, latest, seen);
    vf_unshare();
    VF_ASSERT(!seen.get_lock(), "the timestamp given was that of the record when unlocked");
    VF_ASSERT(latest == (ep > seen.get_epoch()), "the latest version is read exactly if it was committed before the snapshot");
    if (latest) {
        VF_ASSERT(rc == Status::OK && ver == c.v.at(0), "the latest version is the newest one");
    } else if (rc == Status::OK) {
        vf_u64 r = ver->tid_.get_tid();
        VF_ASSERT(epoch_of(r) < ep && r > 0, "an older version was committed before the snapshot");
        VF_ASSERT(k >= r || epoch_of(k) >= ep, "an older version is the newest one committed before the snapshot");
    } else {
        VF_ASSERT(rc == Status::WARN_NOT_FOUND && epoch_of(k) >= ep, "an older version committed before the snapshot is found");
    }
#ifdef VF_NATIVE
    rec.latest_ = nullptr;
#endif
    VF_DONE();
}
