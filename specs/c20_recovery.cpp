// C20: what recovery makes of the entries the datastore delivers
//@property C20: *
//@sources src/datastore/limestone/datastore.cpp src/concurrency_control/record.cpp src/concurrency_control/tid.cpp
//@opt * unroll=4
//@nonative *
//@assumed the datastore delivers one or two entries through one cursor (each entry is handled by the same code; several cursors: scenarios)
//@assumed the index keeps what is put in it; storage::register_storage, storage::exist_storage (C22's contracts)
//@assumed sequence::sequence_map_push (C21's contracts)
#include "sh.h"
#include "sequence.h"
#include "storage.h"
#include "concurrency_control/include/wp.h"
#include "datastore/limestone/include/datastore.h"
#include "datastore/limestone/include/limestone_api_helper.h"
#include "limestone/api/snapshot.h"
#include "shirakami/interface.h"
#include "yakushima/include/kvs.h"
using namespace shirakami;

static session* the_ti;
static vf_u64 entries, at, entered;
static vf_u64 e_st[2], e_key[2], e_val[2];
static vf_u64 nputs, p_st[2], p_key[2];
static Record* p_rec[2];
static vf_u64 regs, r_st[2], r_id[2], r_pay[2];
static bool exists0;
static vf_u64 seqs, s_id, s_ep, s_ver, s_val;
static bool known; // the record is there already
static Record* known_rec;

namespace limestone::api {
bool cursor::next() {
    ++at;
    return at <= entries;
}
storage_id_type cursor::storage() const { return e_st[at - 1]; }
void cursor::key(std::string& b) const { b = vf_string_of(e_key[at - 1]); }
void cursor::value(std::string& b) const { b = vf_string_of(e_val[at - 1]); }
std::unique_ptr<cursor> snapshot::get_cursor() const { return std::unique_ptr<cursor>(new cursor({})); }
std::vector<std::unique_ptr<cursor>> snapshot::get_partitioned_cursors(std::size_t) const { return {}; }
}
namespace shirakami {
std::unique_ptr<limestone::api::snapshot> get_snapshot(limestone::api::datastore*) { return std::unique_ptr<limestone::api::snapshot>(new limestone::api::snapshot({})); }
Status enter(Token& t) { t = the_ti; ++entered; return Status::OK; }
Status leave(Token) { --entered; return Status::OK; }
Status storage::register_storage(Storage st, storage_option op) {
    if (regs < 2) {
        r_st[regs] = st;
        r_id[regs] = op.id();
        r_pay[regs] = op.payload_.tok_;
    }
    ++regs;
    return Status::OK;
}
Status storage::exist_storage(Storage) { return exists0 ? Status::OK : Status::WARN_NOT_FOUND; }
Status sequence::sequence_map_push(SequenceId id, epoch::epoch_t e, SequenceVersion v, SequenceValue x) {
    ++seqs;
    s_id = id;
    s_ep = e;
    s_ver = v;
    s_val = static_cast<vf_u64>(x);
    return Status::OK;
}
}
namespace yakushima {
status get_raw(std::string_view, std::string_view, void*& out, std::pair<node_version64_body, node_version64*>*) {
    if (!known) { return status::WARN_NOT_EXIST; }
    out = known_rec;
    return status::OK;
}
status put_raw(std::string_view st, std::string_view key, void* v, bool, inserted_node_info*, void***) {
    if (nputs < 2) {
        p_st[nputs] = st.tok_;
        p_key[nputs] = key.tok_;
        p_rec[nputs] = static_cast<Record*>(v);
    }
    ++nputs;
    return status::OK;
}
}
static vf_u64 token_of(Storage s) { return std::string_view(reinterpret_cast<char*>(&s), sizeof(s)).tok_; }
static bool user(Storage s) { return s != storage::meta_storage && s != storage::sequence_storage && s != storage::wp_meta_storage && s != storage::dummy_storage; }
struct world {
    vf_u64 ctr;
    world(vf_u64 n) : ctr(vf_in("counter")) {
        the_ti = vf_session();
        entries = n;
        at = nputs = regs = seqs = entered = 0;
        exists0 = known = false;
        new (&storage::mtx_key_handle_map_) std::shared_mutex();
        new (&storage::key_handle_map_) decltype(storage::key_handle_map_)();
        storage::set_strg_ctr(ctr);
        sequence::id_generator_ctr().store(1);
        e_st[0] = e_st[1] = e_key[0] = e_key[1] = e_val[0] = e_val[1] = 0;
    }
    void recover() {
        datastore::recovery_from_datastore(0);
        VF_ASSERT(entered == 0, "no session is kept");
    }
    // handles generated from now on are none of those restored
    void later(Storage s) {
        vf_u64 c = storage::get_strg_ctr();
        VF_ASSERT(c > (s >> 32U) && c >= storage::initial_strg_ctr, "handles generated later are new");
    }
};
static void readable(Record* r, vf_u64 key, vf_u64 val) {
    std::string k{}, v{};
    r->get_key(k);
    r->get_value(v);
    VF_ASSERT(k == vf_string_of(key) && v == vf_string_of(val), "a record has its key and value");
    tid_word t = r->get_tidw();
    VF_ASSERT(!t.get_absent() && t.get_latest() && !t.get_lock() && !t.get_lock_by_gc(), "it is there for every transaction");
    VF_ASSERT(t.get_epoch() == 0, "since before every transaction");
    VF_ASSERT(r->get_latest() != nullptr && r->get_latest()->get_next() == nullptr, "as its only version");
}
VF_HARNESS(nothing) {
    world w(0);
    w.recover();
    VF_ASSERT(nputs == 0 && regs == 0 && seqs == 0 && storage::key_handle_map_.size() == 0, "nothing comes from nothing");
    VF_ASSERT(storage::get_strg_ctr() == w.ctr && sequence::id_generator_ctr().load() == 1, "generators stay");
    VF_DONE();
}
VF_HARNESS(record) {
    world w(1);
    Storage s = vf_in("st");
    vf_assume(user(s));
    e_st[0] = s;
    e_key[0] = vf_in("key");
    e_val[0] = vf_in("val");
    w.recover();
    VF_ASSERT(regs == 1 && r_st[0] == s, "its storage is there");
    VF_ASSERT(nputs == 1 && p_st[0] == token_of(s) && p_key[0] == e_key[0], "the record is in its storage under its key");
    readable(p_rec[0], e_key[0], e_val[0]);
    VF_ASSERT(seqs == 0 && storage::key_handle_map_.size() == 0, "and nothing else");
    w.later(s);
    VF_DONE();
}
static void records(bool same) {
    world w(2);
    vf_expose(0);
    vf_expose(1);
    Storage s = vf_in("st"), s2 = vf_in("st2");
    vf_assume(user(s) && user(s2));
    if (same) {
        s2 = s;
    } else {
        vf_assume(s != s2);
    }
    e_st[0] = s;
    e_st[1] = s2;
    e_key[0] = vf_in("key");
    e_key[1] = vf_in("key2");
    e_val[0] = vf_in("val");
    e_val[1] = vf_in("val2");
    w.recover();
    VF_ASSERT(regs >= 1 && r_st[0] == s, "the first storage is there");
    VF_ASSERT(s == s2 || (regs == 2 && r_st[1] == s2), "the second storage is there");
    VF_ASSERT(nputs == 2 && p_st[0] == token_of(s) && p_key[0] == e_key[0] && p_st[1] == token_of(s2) && p_key[1] == e_key[1], "the records are in their storages under their keys");
    readable(p_rec[0], e_key[0], e_val[0]);
    readable(p_rec[1], e_key[1], e_val[1]);
    w.later(s);
    w.later(s2);
}
VF_HARNESS(records_one_storage) {
    records(true);
    VF_DONE();
}
VF_HARNESS(records_two_storages) {
    records(false);
    VF_DONE();
}
static void storage_entry(bool there) {
    world w(1);
    Storage s = vf_in("st"), id = vf_in("id");
    std::string pay = vf_str("payload"), v{};
    v.append(reinterpret_cast<char*>(&s), sizeof(s));
    v.append(reinterpret_cast<char*>(&id), sizeof(id));
    v.append(pay);
    vf_assume(user(s));
    e_st[0] = storage::meta_storage;
    e_key[0] = vf_in("name");
    e_val[0] = v.tok_;
    exists0 = there;
    w.recover();
    VF_ASSERT(exists0 ? regs == 0 : (regs == 1 && r_st[0] == s), "the storage is there");
    VF_ASSERT(exists0 || (r_id[0] == id && r_pay[0] == pay.tok_), "with its options");
    VF_ASSERT(nputs == 1 && p_st[0] == token_of(storage::meta_storage) && p_key[0] == e_key[0], "it is recorded under its name");
    readable(p_rec[0], e_key[0], e_val[0]);
    Storage out{77};
    VF_ASSERT(storage::key_handle_map_get_storage(vf_view_of(e_key[0]), out) == Status::OK && out == s, "it is found by its name");
    VF_ASSERT(seqs == 0, "and nothing else");
    w.later(s);
}
VF_HARNESS(storage_new) {
    storage_entry(false);
    VF_DONE();
}
VF_HARNESS(storage_met) {
    storage_entry(true);
    VF_DONE();
}
VF_HARNESS(sequence_entry) {
    world w(1);
    SequenceId id = vf_in("id");
    SequenceVersion ver = vf_in("version");
    SequenceValue val = static_cast<SequenceValue>(vf_in("value"));
    vf_assume(id >= 1 && id < sequence::max_sequence_id);
    std::string k(reinterpret_cast<char*>(&id), sizeof(id)), v{};
    v.append(reinterpret_cast<char*>(&ver), sizeof(ver));
    v.append(reinterpret_cast<char*>(&val), sizeof(val));
    e_st[0] = storage::sequence_storage;
    e_key[0] = k.tok_;
    e_val[0] = v.tok_;
    w.recover();
    VF_ASSERT(seqs == 1 && s_id == id && s_ver == ver && s_val == static_cast<vf_u64>(val), "the sequence has its version and value");
    VF_ASSERT(s_ep == 0, "since before every transaction");
    VF_ASSERT(sequence::id_generator_ctr().load() > id, "ids generated later are new");
    VF_ASSERT(nputs == 0 && regs == 0 && storage::get_strg_ctr() == w.ctr, "and nothing else");
    VF_DONE();
}
