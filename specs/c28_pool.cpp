// C28: the worker pool
//@property C28: *
//@override _ZN9shirakami16concurrent_queueIPNS_11thread_taskEE7try_popERS2_ = pop_contract
//@override _ZN9shirakami16concurrent_queueIPNS_11thread_taskEE5emptyEv = empty_contract
//@override _ZNSt9vf_thread4joinEv = join_contract
//@nonative *
//@assumed the queue gives each task to one worker (tbb::concurrent_queue)
#include "database/thread_pool.cpp"
#include "vf.h"
using namespace shirakami;

static vf_u64 empty, joined, late;
static thread_task* cur;
extern "C" bool pop_contract(void*, thread_task** out) {
    bool ok = vf_fresh_bool();
    if (ok) { *out = cur; }
    return ok;
}
extern "C" bool empty_contract(void*) {
    bool e = vf_fresh_bool();
    empty = e ? 1 : 0;
    return e;
}
extern "C" void join_contract(std::thread*) {
    ++joined;
    if (thread_pool::get_running()) { late = 1; }
}
// shutdown may be requested at any time
static bool rely(const void* o, const void* n) { return *static_cast<const unsigned char*>(n) <= *static_cast<const unsigned char*>(o); }
static bool guar(const void*, const void*) { return false; }
VF_HARNESS(worker) {
    cur = reinterpret_cast<thread_task*>(::operator new(sizeof(thread_task), std::align_val_t(64))); // NOLINT
    empty = 0;
    bool running = vf_flag("running");
    thread_pool::set_running(running);
    vf_shared(&thread_pool::running_, 1, &rely, &guar);
    thread_pool::worker(vf_in("id"));
    vf_unshare();
    VF_ASSERT(!thread_pool::get_running(), "a worker ends only after shutdown was requested");
    VF_ASSERT(empty == 1, "and when it found no more tasks");
    VF_DONE();
}
VF_HARNESS(fin) {
    vf_u64 n = vf_size("n");
    thread_pool::set_running(true);
    thread_pool::set_thread_pool_size(n);
    joined = late = 0;
    thread_pool::fin();
    VF_ASSERT(joined == n, "shutting down waits for each worker");
    VF_ASSERT(late == 0, "which was told to end before");
    VF_DONE();
}
