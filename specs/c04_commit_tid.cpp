// C04, C01: the version given to the writes of a short transaction
//@property C04: *
//@property C01: commit_tid
//@sources src/concurrency_control/tid.cpp
#include "concurrency_control/interface/short_tx/termination.cpp"
#include "sh.h"
using namespace shirakami;


// seen: the largest version read or overwritten; own: the last version this
// session committed; ce: the epoch of the commit
VF_HARNESS(commit_tid) {
    auto* ti = vf_session();
    tid_word seen = vf_word(vf_in("sf"), vf_in("st"), vf_in("ss"), vf_in("se"));
    tid_word own = vf_word(vf_in("of"), vf_in("ot"), vf_in("os"), vf_in("oe"));
    vf_u64 ce = vf_in("ce") & 0xffffffffffUL;
    vf_assume(ce != 0);
    vf_assume(seen.get_epoch() <= ce && own.get_epoch() <= ce);
    // versions of this session are given by short transactions
    vf_assume(own.get_by_short() || own.get_obj() == 0);
    ti->set_mrc_tid(own);
    tid_word got = seen;
    short_tx::compute_commit_tid(ti, ce, got);
    VF_ASSERT(vf_newer(got, seen), "a commit is newer than everything it read or replaced");
    VF_ASSERT(vf_newer(got, own), "the commits of one session have increasing versions");
    VF_ASSERT(got.get_epoch() == ce, "a commit has the epoch at which it was decided");
    VF_ASSERT(got.get_by_short() && got.get_latest() && !got.get_absent() && !got.get_lock(), "a committed version is the latest, present and unlocked");
    VF_ASSERT(ti->get_mrc_tid() == got, "the session remembers its last version");
    VF_DONE();
}
