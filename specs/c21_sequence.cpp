// C21: sequences
//@property C21: *
//@sources src/concurrency_control/sequence.cpp src/concurrency_control/session.cpp src/concurrency_control/local_set.cpp
//@nonative *
//@assumed the sequence map holds the sequence looked at only; it has any number of recorded values
//@assumed lpwal::handler::push_log, garbage::get_min_begin_epoch, garbage::get_min_batch_epoch: any effect on the log buffer, any epochs
//@override _ZN9shirakami8sequence15gc_sequence_mapEv = collect_contract
//@real _ZN9shirakami8sequence15gc_sequence_mapEv collect_kept
//@override _ZN9shirakami5lpwal7handler8push_logERKNS0_10log_recordE = push_contract
//@opt * unroll=3
#include "sh.h"
#include "sequence.h"
#include "concurrency_control/include/garbage.h"
using namespace shirakami;
using pair_type = std::tuple<SequenceVersion, SequenceValue>;

static vf_u64 logged, log_epoch, log_version;
extern "C" void push_contract(lpwal::handler*, lpwal::log_record* r) {
    ++logged;
    log_epoch = r->get_wv().get_major_write_version();
    log_version = r->get_wv().get_minor_write_version();
}
extern "C" void collect_contract() {}

struct world {
    session* ti;
    vf_u64 a, b, na, ge;
    static std::pair<const epoch::epoch_t, pair_type> gen_a(vf_u64 i) {
        return {vf_in_at("ea", i), pair_type(vf_in_at("va", i), vf_in_at("xa", i))};
    }
    world() : ti(vf_session()) {
        new (&sequence::sequence_map()) std::remove_reference_t<decltype(sequence::sequence_map())>();
        new (&sequence::sequence_map_smtx()) std::shared_mutex();
        new (&ti->sequence_set_) local_sequence_set();
        new (&ti->lpwal_handle_.mtx_logs_) std::mutex();
        logged = 0;
        ge = vf_in("epoch");
        epoch::set_global_epoch(ge);
        a = vf_in("a");
        b = vf_in("b");
        vf_assume(a != b);
        vf_expose(0);
        auto& ma = sequence::sequence_map()[static_cast<SequenceId>(a)];
        na = vf_size("na");
        vf_assume(na > 0 && na < (1UL << 40));
        vf_expose(na - 1);
        vf_fill_n(ma, na, gen_a);
        // a value is recorded in the epoch of its commit
        vf_assume(vf_in_at("ea", na - 1) <= ge);
    }
    pair_type last_a() { return pair_type(vf_in_at("va", na - 1), vf_in_at("xa", na - 1)); }
    void expect(vf_u64 id, pair_type p, const char*) {
        SequenceVersion ver{77};
        SequenceValue val{78};
        Status rc = read_sequence(static_cast<SequenceId>(id), &ver, &val);
        if (p == sequence::non_exist_value) {
            VF_ASSERT(rc == Status::WARN_NOT_FOUND && ver == 77 && val == 78, "a deleted sequence is not found");
        } else {
            VF_ASSERT(rc == Status::OK, "the sequence is found");
            VF_ASSERT(ver == std::get<0>(p), "its greatest version is read");
            VF_ASSERT(val == std::get<1>(p), "the value of its greatest version is read");
        }
    }
};
VF_HARNESS(read_value) {
    world w;
    w.expect(w.a, w.last_a(), "");
    vf_u64 c = vf_in("c");
    vf_assume(c != w.a);
    SequenceVersion ver{77};
    SequenceValue val{78};
    VF_ASSERT(read_sequence(static_cast<SequenceId>(c), &ver, &val) == Status::WARN_NOT_FOUND, "an unknown sequence is not found");
    VF_DONE();
}
VF_HARNESS(collect_kept) {
    world w;
    vf_u64 x = vf_in("min_begin"), y = vf_in("min_batch");
    garbage::set_min_begin_epoch(x);
    garbage::set_min_batch_epoch(y);
    bool old = vf_in_at("ea", w.na - 1) < x && vf_in_at("ea", w.na - 1) < y;
    vf_assume(!old || w.last_a() != sequence::non_exist_value);
    sequence::gc_sequence_map();
    w.expect(w.a, w.last_a(), "");
    VF_DONE();
}
VF_HARNESS(local_update) {
    world w;
    auto& set = w.ti->sequence_set().set();
    vf_u64 n = vf_size("n");
    vf_fill_n(set, n, [](vf_u64 i) { return std::pair<const SequenceId, pair_type>(vf_in_at("id", i), pair_type(vf_in_at("ver", i), vf_in_at("val", i))); });
    vf_u64 k = vf_in("k");
    vf_expose(k);
    vf_u64 ver = vf_in("ver"), val = vf_in("val");
    auto it = set.find(static_cast<SequenceId>(w.a));
    bool had = it != set.end();
    vf_u64 over = had ? std::get<0>(it->second) : 0;
    vf_u64 oval = had ? static_cast<vf_u64>(std::get<1>(it->second)) : 0;
    w.ti->tx_began_ = true;
    Status rc = update_sequence(w.ti, static_cast<SequenceId>(w.a), ver, static_cast<SequenceValue>(val));
    bool newer = !had || over < ver;
    VF_ASSERT(rc == (newer ? Status::OK : Status::WARN_ALREADY_EXISTS), "an update is accepted if its version is newer");
    auto jt = set.find(static_cast<SequenceId>(w.a));
    VF_ASSERT(jt != set.end(), "the update is kept");
    VF_ASSERT(std::get<0>(jt->second) == (newer ? ver : over) && static_cast<vf_u64>(std::get<1>(jt->second)) == (newer ? val : oval), "the newest update is kept");
    VF_DONE();
}
VF_HARNESS(not_begun) {
    world w;
    w.ti->tx_began_ = false;
    VF_ASSERT(update_sequence(w.ti, 1, 1, 1) == Status::WARN_NOT_BEGIN && w.ti->sequence_set().set().empty(), "an update needs a transaction");
    VF_DONE();
}
// commit of one update: 0 of a newer version, 1 of a version that is not newer or of a deleted sequence, 2 of an unknown sequence
static void commit_update(int what) {
    world w;
    vf_u64 ver = vf_in("ver"), val = vf_in("val"), ce = vf_in("ce");
    vf_assume(ce <= w.ge && ver != SIZE_MAX);
    pair_type la = w.last_a();
    bool deleted = la == sequence::non_exist_value;
    bool newer = !deleted && std::get<0>(la) < ver;
    vf_assume(newer == (what == 0) || what == 2);
    w.ti->sequence_set().set()[static_cast<SequenceId>(what == 2 ? w.b : w.a)] = pair_type(ver, static_cast<SequenceValue>(val));
    tid_word ctid{};
    ctid.set_epoch(ce);
    w.ti->commit_sequence(ctid);
    VF_ASSERT(logged == (what == 0 ? 1 : 0), "an update is logged exactly if it takes effect");
    VF_ASSERT(what != 0 || (log_version == ver && log_epoch >= ce), "the log carries the version of the update");
    auto& m = sequence::sequence_map().find(static_cast<SequenceId>(w.a))->second;
    VF_ASSERT(m.rbegin()->first <= w.ge, "a value is recorded in the epoch of its commit");
    w.expect(w.a, what == 0 ? pair_type(ver, static_cast<SequenceValue>(val)) : la, "");
    w.expect(w.b, sequence::non_exist_value, "");
    VF_DONE();
}
VF_HARNESS(commit_newer) { commit_update(0); }
VF_HARNESS(commit_older) { commit_update(1); }
VF_HARNESS(commit_unknown) { commit_update(2); }
