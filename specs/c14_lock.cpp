// C14: contracts of the record lock word (tid_word, Record::get_stable_tidw)
//@property C14: *
//@sources src/concurrency_control/tid.cpp src/concurrency_control/record.cpp
#include "concurrency_control/include/tid.h"
#include "concurrency_control/include/record.h"
#include "vf.h"
using namespace shirakami;

static __uint128_t in128(const char* lo, const char* hi) { return static_cast<__uint128_t>(vf_in(lo)) | static_cast<__uint128_t>(vf_in(hi)) << 64U; }

// ghost: this thread owns the lock
static bool own;
static bool want_gc;
static const __uint128_t LOCKBITS = 3;

// other threads: anything is possible while we do not own the lock, nothing while we do
static bool rely(const void* o, const void* n) {
    if (own) { return *static_cast<const __uint128_t*>(o) == *static_cast<const __uint128_t*>(n); }
    return true;
}
// acquisition: only an unlocked word is replaced, and only the two lock bits change
static bool guar_lock(const void* o, const void* n) {
    auto* a = static_cast<const tid_word*>(o);
    auto* b = static_cast<const tid_word*>(n);
    return !a->get_lock() && b->get_lock() && b->get_lock_by_gc() == want_gc &&
           (a->obj_ & ~LOCKBITS) == (b->obj_ & ~LOCKBITS);
}
static bool guar_unlock(const void* o, const void* n) {
    auto* a = static_cast<const tid_word*>(o);
    auto* b = static_cast<const tid_word*>(n);
    return a->get_lock() && !b->get_lock() && !b->get_lock_by_gc() && (a->obj_ & ~LOCKBITS) == (b->obj_ & ~LOCKBITS);
}
static bool guar_none(const void*, const void*) { return false; }

VF_HARNESS(lock) {
    tid_word w;
    w.obj_ = in128("lo", "hi");
#ifdef VF_NATIVE
    vf_assume(!w.get_lock());
#endif
    own = false;
    want_gc = vf_flag("by_gc");
    __uint128_t before = w.obj_;
    vf_shared(&w, 16, &rely, &guar_lock);
    w.lock(want_gc);
    vf_unshare();
    VF_ASSERT(w.get_lock(), "lock() returns with the record locked");
    VF_ASSERT(w.get_lock_by_gc() == want_gc, "lock() records who locked");
#ifdef VF_NATIVE
    VF_ASSERT((w.obj_ & ~LOCKBITS) == (before & ~LOCKBITS), "lock() changes only the lock bits");
#endif
    (void) before;
    VF_DONE();
}

VF_HARNESS(unlock) {
    tid_word w;
    w.obj_ = in128("lo", "hi");
    vf_assume(w.get_lock());
    own = true;
    __uint128_t before = w.obj_;
    vf_shared(&w, 16, &rely, &guar_unlock);
    w.unlock();
    vf_unshare();
    VF_ASSERT(!w.get_lock() && !w.get_lock_by_gc(), "unlock() releases the record");
    VF_ASSERT((w.obj_ & ~LOCKBITS) == (before & ~LOCKBITS), "unlock() changes only the lock bits");
    VF_DONE();
}

VF_HARNESS(stable) {
    Record rec(std::string_view{});
    rec.get_tidw_ref().obj_ = in128("lo", "hi");
#ifdef VF_NATIVE
    vf_assume(!rec.get_tidw_ref().get_lock());
#endif
    own = false;
    vf_shared(&rec.get_tidw_ref(), 16, &rely, &guar_none);
    tid_word r = rec.get_stable_tidw();
    vf_unshare();
    VF_ASSERT(!r.get_lock(), "a stable timestamp is never a locked one");
    VF_ASSERT(r.obj_ == rec.get_tidw_ref().obj_, "a stable timestamp was the content of the record");
    VF_DONE();
}

struct fields { bool lock, gc, latest, absent, by_short; vf_u64 tid, epoch; };
static fields get(const tid_word& w) {
    return {w.get_lock(), w.get_lock_by_gc(), w.get_latest(), w.get_absent(), w.get_by_short(), w.get_tid(), w.get_epoch()};
}
static bool eq(const fields& a, const fields& b) {
    return a.lock == b.lock && a.gc == b.gc && a.latest == b.latest && a.absent == b.absent && a.by_short == b.by_short &&
           a.tid == b.tid && a.epoch == b.epoch;
}
VF_HARNESS(setters) {
    tid_word w;
    w.obj_ = in128("lo", "hi");
    fields f = get(w);
    bool b = vf_flag("b");
    vf_u64 v = vf_in("v") & ((1UL << 52U) - 1);
    { tid_word x{w}; fields e = f; x.set_lock(b); e.lock = b; VF_ASSERT(eq(get(x), e), "set_lock sets the lock bit only"); }
    { tid_word x{w}; fields e = f; x.set_lock_by_gc(b); e.gc = b; VF_ASSERT(eq(get(x), e), "set_lock_by_gc sets that bit only"); }
    { tid_word x{w}; fields e = f; x.set_latest(b); e.latest = b; VF_ASSERT(eq(get(x), e), "set_latest sets that bit only"); }
    { tid_word x{w}; fields e = f; x.set_absent(b); e.absent = b; VF_ASSERT(eq(get(x), e), "set_absent sets that bit only"); }
    { tid_word x{w}; fields e = f; x.set_by_short(b); e.by_short = b; VF_ASSERT(eq(get(x), e), "set_by_short sets that bit only"); }
    { tid_word x{w}; fields e = f; x.set_tid(v); e.tid = v; VF_ASSERT(eq(get(x), e), "set_tid sets the tid only"); }
    { tid_word x{w}; fields e = f; x.set_epoch(v); e.epoch = v; VF_ASSERT(eq(get(x), e), "set_epoch sets the epoch only"); }
    if (f.tid != (1UL << 52U) - 1) { tid_word x{w}; fields e = f; x.inc_tid(); e.tid = f.tid + 1; VF_ASSERT(eq(get(x), e), "inc_tid increments the tid only"); }
    { tid_word x{w}; VF_ASSERT(x == w && !(x != w) && !(x < w) && !(x > w), "a copy is equal"); x.reset(); VF_ASSERT(x.empty() && eq(get(x), fields{}), "reset clears the word"); }
    VF_DONE();
}
VF_HARNESS(order) {
    tid_word a;
    tid_word b;
    a.obj_ = in128("alo", "ahi");
    b.obj_ = in128("blo", "bhi");
    VF_ASSERT((a < b) == (b > a), "order is consistent");
    VF_ASSERT(static_cast<int>(a < b) + static_cast<int>(b < a) + static_cast<int>(a == b) == 1, "order is total");
    if (a.get_epoch() < b.get_epoch()) { VF_ASSERT(a < b, "a larger epoch orders after"); }
    tid_word c;
    tid_word d;
    c.set_epoch(a.get_epoch()); c.set_tid(a.get_tid());
    d.set_epoch(a.get_epoch()); d.set_tid(b.get_tid());
    if (a.get_tid() < b.get_tid()) { VF_ASSERT(c < d, "within an epoch a larger tid orders after"); }
    VF_DONE();
}
