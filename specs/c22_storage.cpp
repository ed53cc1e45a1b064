// C22: storages: names, handles and options
//@property C22: *
//@sources src/concurrency_control/interface/storage.cpp
//@override _ZN9shirakami5lpwal7handler8push_logERKNS0_10log_recordE = push_contract
//@opt * unroll=4
//@nonative *
//@assumed two other storages are named (a name is looked up with the exact meaning of the map)
//@assumed the transaction which records a storage: enter, tx_begin, upsert, search_key, delete_record and commit succeed (their own contracts)
//@assumed the index: create_storage, delete_storage and find_storage keep a set of handles; the contents of a storage are two records
#include "sh.h"
#include "storage.h"
#include "concurrency_control/include/garbage.h"
#include "concurrency_control/include/record.h"
#include "concurrency_control/include/wp.h"
#include "concurrency_control/interface/include/helper.h"
#include "database/include/database.h"
#include "shirakami/interface.h"
#include "yakushima/include/kvs.h"
using namespace shirakami;

static bool key_too_long;
static session* the_ti;
static vf_u64 made, unmade, noted, unnoted, metas, unmetas, entered, commits;
static vf_u64 made_id, unmade_id, note_key, note_value, unnote_key, meta_key;
static bool id_used; // the index knows the handle asked for
static std::string stored;
static vf_u64 handle_of(std::string_view v) {
    Storage s{};
    memcpy(&s, v.data(), sizeof(s));
    return s;
}
static vf_u64 token_of(Storage s) { return std::string_view(reinterpret_cast<char*>(&s), sizeof(s)).tok_; }
static vf_u64 logged, log_op, log_st;
extern "C" void push_contract(lpwal::handler*, lpwal::log_record* r) {
    ++logged;
    log_op = static_cast<vf_u64>(r->get_operation());
    log_st = r->get_st();
}
void wp::wp_meta::init() {}
namespace shirakami {
Status check_constraint_key_length(std::string_view) { return key_too_long ? Status::WARN_INVALID_KEY_LENGTH : Status::OK; }
Status enter(Token& t) { t = the_ti; ++entered; return Status::OK; }
Status leave(Token) { --entered; return Status::OK; }
Status tx_begin(transaction_options) { return Status::OK; }
Status upsert(Token, Storage st, std::string_view key, std::string_view val, blob_id_type const*, std::size_t) {
    VF_ASSERT(st == storage::meta_storage, "a storage is recorded in the storage of storages");
    ++noted;
    note_key = key.tok_;
    note_value = val.tok_;
    return Status::OK;
}
Status delete_record(Token, Storage st, std::string_view key) {
    VF_ASSERT(st == storage::meta_storage, "a storage is unrecorded from the storage of storages");
    ++unnoted;
    unnote_key = key.tok_;
    return Status::OK;
}
Status search_key(Token, Storage st, std::string_view key, std::string& value) {
    VF_ASSERT(st == storage::meta_storage, "options are read from the storage of storages");
    note_key = key.tok_;
    value = stored;
    return Status::OK;
}
bool commit(Token, commit_callback_type) { ++commits; return true; }
Status commit(Token) { ++commits; return Status::OK; }
}
namespace yakushima {
status enter(Token&) { return status::OK; }
status leave(Token) { return status::OK; }
status create_storage(std::string_view n) {
    if (id_used) { return status::WARN_UNIQUE_RESTRICTION; }
    ++made;
    made_id = n.tok_;
    return status::OK;
}
status delete_storage(std::string_view n) {
    ++unmade;
    unmade_id = n.tok_;
    return status::OK;
}
status find_storage(std::string_view, tree_instance**) { return id_used ? status::OK : status::WARN_NOT_EXIST; }
status put_raw(std::string_view, std::string_view key, void*, bool, inserted_node_info*, void***) {
    ++metas;
    meta_key = key.tok_;
    return status::OK;
}
}
static wp::page_set_meta* the_meta;
static vf_u64 freed;
namespace yakushima {
status get_raw(std::string_view, std::string_view, void*& out, std::pair<node_version64_body, node_version64*>*) {
    out = the_meta;
    return status::OK;
}
status remove(Token, std::string_view, std::string_view key) {
    ++unmetas;
    meta_key = key.tok_;
    return status::OK;
}
status scan_raw(std::string_view n, std::string_view, scan_endpoint l, std::string_view, scan_endpoint r, std::vector<std::pair<std::string, void*>>& out,
                std::vector<std::pair<node_version64_body, node_version64*>>*, std::size_t max_size, bool) {
    VF_ASSERT(l == scan_endpoint::INF && r == scan_endpoint::INF && max_size == 0, "the whole storage is emptied");
    VF_ASSERT(unmade == 0, "before it goes");
    meta_key = n.tok_;
    return status::OK;
}
}

struct world {
    std::string k0, k1, name;
    Storage h0, h1;
    static std::pair<const std::string, Storage> gen(vf_u64 i) { return {vf_str_at("name", i), vf_in_at("handle", i)}; }
    world() : k0(vf_str_at("name", 0)), k1(vf_str_at("name", 1)), name(vf_str("asked")), h0(vf_in_at("handle", 0)), h1(vf_in_at("handle", 1)) {
        the_ti = vf_session();
        made = unmade = noted = unnoted = metas = unmetas = entered = commits = logged = 0;
        key_too_long = false;
        new (&stored) std::string();
        new (&the_ti->lpwal_handle_.mtx_logs_) std::mutex();
        new (&storage::mtx_key_handle_map_) std::shared_mutex();
        new (&storage::key_handle_map_) decltype(storage::key_handle_map_)();
        vf_assume(!(k0 == k1) && h0 != h1);
        storage::key_handle_map_.insert({k0, h0});
        storage::key_handle_map_.insert({k1, h1});
        wp::set_initialized(true);
        wp::set_finalizing(false);
        set_is_shutdowning(false);
    }
    void untouched() {
        VF_ASSERT(made == 0 && noted == 0 && metas == 0 && unmade == 0 && unnoted == 0, "a rejected request changes nothing");
        VF_ASSERT(storage::key_handle_map_.size() == 2, "and no name");
        known(k0, h0);
        known(k1, h1);
    }
    void known(std::string const& k, Storage h) {
        Storage o{77};
        VF_ASSERT(get_storage(k, o) == Status::OK && o == h, "a storage is found by its name");
    }
    void unknown(std::string const& k) {
        Storage o{77};
        VF_ASSERT(get_storage(k, o) == Status::WARN_NOT_FOUND && o == 77, "a name which names nothing is not found");
    }
};

static void creates(bool generated) {
    world w;
    id_used = false;
    Storage id = generated ? storage_id_undefined : vf_in("id"), out{77};
    vf_u64 ctr = vf_in("counter");
    storage::set_strg_ctr(ctr);
    vf_assume(generated ? ctr >= 1 && (ctr >> 32) == 0 : (id >> 32) == 0);
    vf_assume(!(w.name == w.k0) && !(w.name == w.k1));
    storage_option op{id, vf_str("payload")};
    Status rc = create_storage(w.name, out, op);
    VF_ASSERT(rc == Status::OK, "a storage under a free name is created");
    VF_ASSERT(out == (generated ? ctr << 32 : id), "its handle is the one asked for or a generated one");
    VF_ASSERT(generated == ((out >> 32) != 0), "generated handles never meet handles users choose");
    VF_ASSERT(made == 1 && made_id == token_of(out), "the storage exists under its handle");
    VF_ASSERT(metas == 1 && meta_key == token_of(out), "and has its reservations under its handle");
    w.known(w.name, out);
    w.known(w.k0, w.h0);
    w.known(w.k1, w.h1);
    VF_ASSERT(noted == 1 && note_key == w.name.tok_ && commits == 1, "it is recorded under its name");
    std::string v{};
    v.append(reinterpret_cast<char*>(&out), sizeof(out));
    v.append(reinterpret_cast<char*>(&id), sizeof(id));
    v.append(vf_str("payload"));
    VF_ASSERT(note_value == v.tok_, "with its handle and options");
    VF_ASSERT(logged == 1 && log_op == static_cast<vf_u64>(log_operation::ADD_STORAGE) && log_st == out, "the log tells of the storage");
    VF_ASSERT(!generated || storage::get_strg_ctr() > ctr, "a generated handle is not generated again");
    VF_ASSERT(entered == 0, "no session is kept");
    VF_ASSERT(vf_held(&storage::mtx_key_handle_map_) == 0, "the names are given back");
}
VF_HARNESS(creates_generated) {
    creates(true);
    VF_DONE();
}
VF_HARNESS(creates_chosen) {
    creates(false);
    VF_DONE();
}
VF_HARNESS(creates_none) {
    world w;
    id_used = false;
    Storage id = vf_in("id"), out{77};
    vf_u64 ctr = vf_in("counter");
    storage::set_strg_ctr(ctr);
    vf_assume(((id == storage_id_undefined ? ctr : id) >> 32) != 0);
    vf_assume(!(w.name == w.k0) && !(w.name == w.k1));
    storage_option op{id, vf_str("payload")};
    Status rc = create_storage(w.name, out, op);
    VF_ASSERT(rc == Status::WARN_STORAGE_ID_DEPLETION, "no handle is left");
    w.untouched();
    w.unknown(w.name);
    VF_ASSERT(entered == 0, "no session is kept");
    VF_DONE();
}
VF_HARNESS(creates_used_name) {
    world w;
    id_used = vf_flag("used");
    Storage out{77};
    w.name = vf_flag("first") ? w.k0 : w.k1;
    storage::set_strg_ctr(vf_in("counter"));
    storage_option op{vf_in("id"), vf_str("payload")};
    Status rc = create_storage(w.name, out, op);
    VF_ASSERT(rc == Status::WARN_ALREADY_EXISTS, "a used name is rejected");
    w.untouched();
    VF_ASSERT(vf_held(&storage::mtx_key_handle_map_) == 0, "the names are given back");
    VF_DONE();
}
VF_HARNESS(creates_used_id) {
    world w;
    id_used = true;
    Storage out{77};
    vf_assume(!(w.name == w.k0) && !(w.name == w.k1));
    storage::set_strg_ctr(vf_in("counter"));
    Storage id = vf_in("id");
    vf_assume((id >> 32) == 0);
    storage_option op{id, vf_str("payload")};
    Status rc = create_storage(w.name, out, op);
    VF_ASSERT(rc == Status::WARN_ALREADY_EXISTS, "a used id is rejected");
    w.untouched();
    w.unknown(w.name);
    VF_DONE();
}
VF_HARNESS(creates_twice) {
    world w;
    id_used = false;
    vf_u64 ctr = vf_in("counter");
    vf_assume(ctr >= 1 && (ctr >> 31) == 0);
    storage::set_strg_ctr(ctr);
    Storage a{77}, b{77};
    std::string n2 = vf_str("asked2");
    vf_assume(!(w.name == w.k0) && !(w.name == w.k1) && !(n2 == w.k0) && !(n2 == w.k1) && !(n2 == w.name));
    Status r1 = create_storage(w.name, a, {});
    Status r2 = create_storage(n2, b, {});
    VF_ASSERT(r1 == Status::OK && r2 == Status::OK, "both are created");
    VF_ASSERT(a != b, "generated handles differ");
    w.known(w.name, a);
    w.known(n2, b);
    Storage c{78};
    VF_ASSERT(create_storage(w.name, c, {}) == Status::WARN_ALREADY_EXISTS, "the name is used now");
    VF_DONE();
}

static bool internal(Storage h) { return h == storage::meta_storage || h == storage::sequence_storage || h == storage::wp_meta_storage; }
VF_HARNESS(deletes) {
    world w;
    id_used = true;
    wp::set_page_set_meta_storage(storage::wp_meta_storage);
    the_meta = new wp::page_set_meta();
    bool first = vf_flag("first");
    Storage h = first ? w.h0 : w.h1;
    vf_assume(!internal(w.h0) && !internal(w.h1));
    Status rc = delete_storage(h);
    VF_ASSERT(rc == Status::OK, "a storage is deleted");
    VF_ASSERT(unmade == 1 && unmade_id == token_of(h), "it disappears under its handle");
    VF_ASSERT(unmetas == 1 && meta_key == token_of(h), "with its reservations");
    w.unknown(first ? w.k0 : w.k1);
    w.known(first ? w.k1 : w.k0, first ? w.h1 : w.h0);
    VF_ASSERT(logged == 1 && log_op == static_cast<vf_u64>(log_operation::REMOVE_STORAGE) && log_st == h, "the log tells of its end");
    VF_ASSERT(unnoted == 1 && unnote_key == (first ? w.k0 : w.k1).tok_ && commits == 1, "and is no longer recorded");
    VF_ASSERT(entered == 0, "no session is kept");
    VF_ASSERT(vf_held(&storage::mtx_key_handle_map_) == 0, "the names are given back");
    VF_DONE();
}
VF_HARNESS(deletes_none) {
    world w;
    Storage h = vf_in("asked_handle");
    id_used = vf_flag("used");
    vf_assume(!id_used || internal(h));
    wp::set_page_set_meta_storage(storage::wp_meta_storage);
    Status rc = delete_storage(h);
    VF_ASSERT(rc == Status::WARN_INVALID_HANDLE, "a handle of no storage, or of an internal one, is rejected");
    w.untouched();
    VF_ASSERT(vf_held(&storage::mtx_key_handle_map_) == 0, "the names are given back");
    VF_DONE();
}
VF_HARNESS(lists) {
    world w;
    std::vector<std::string> out;
    out.emplace_back(vf_str("old"));
    VF_ASSERT(list_storage(out) == Status::OK, "storages are listed");
    VF_ASSERT(out.size() == 2, "each once");
    VF_ASSERT((out[0] == w.k0 && out[1] == w.k1) || (out[0] == w.k1 && out[1] == w.k0), "under their names");
    VF_DONE();
}
VF_HARNESS(sets_options) {
    world w;
    Storage h = vf_in("asked_handle");
    storage_option op{vf_in("id"), vf_str("payload")};
    Status rc = storage_set_options(h, op);
    if (h != w.h0 && h != w.h1) {
        VF_ASSERT(rc == Status::WARN_NOT_FOUND, "options of no storage are rejected");
        w.untouched();
    } else {
        VF_ASSERT(rc == Status::OK && noted == 1 && commits == 1, "options are recorded");
        VF_ASSERT(note_key == (h == w.h0 ? w.k0 : w.k1).tok_, "for the storage asked for");
        Storage id = vf_in("id");
        std::string v{};
        v.append(reinterpret_cast<char*>(&h), sizeof(h));
        v.append(reinterpret_cast<char*>(&id), sizeof(id));
        v.append(vf_str("payload"));
        VF_ASSERT(note_value == v.tok_, "with the handle");
    }
    VF_ASSERT(entered == 0, "no session is kept");
    VF_ASSERT(vf_held(&storage::mtx_key_handle_map_) == 0, "the names are given back");
    VF_DONE();
}
VF_HARNESS(gets_options) {
    world w;
    Storage h = vf_in("asked_handle");
    Storage id = vf_in("id");
    std::string pay = vf_str("payload");
    stored.append(reinterpret_cast<char*>(&h), sizeof(h));
    stored.append(reinterpret_cast<char*>(&id), sizeof(id));
    stored.append(pay);
    storage_option op{5, "x"};
    Status rc = storage_get_options(h, op);
    if (h != w.h0 && h != w.h1) {
        VF_ASSERT(rc == Status::WARN_NOT_FOUND && op.id() == 5, "options of no storage are not found");
    } else {
        VF_ASSERT(rc == Status::OK && commits == 1, "options are read");
        VF_ASSERT(note_key == (h == w.h0 ? w.k0 : w.k1).tok_, "of the storage asked for");
        VF_ASSERT(op.id() == id, "the id is the one recorded");
        VF_ASSERT(op.payload_ == pay, "the payload is the one recorded");
    }
    VF_ASSERT(entered == 0, "no session is kept");
    VF_DONE();
}
