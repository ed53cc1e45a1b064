// C18: the log buffer of a session and its way to the datastore
//@property C18: *
//@sources src/datastore/limestone/lpwal.cpp
//@override _ZNSt5arrayIN9shirakami7sessionELm300EE5beginEv = table_begin
//@override _ZNSt5arrayIN9shirakami7sessionELm300EE3endEv = table_end
//@opt * unroll=4
//@nonative *
//@assumed flushes_at_shutdown: the session table has one session (each slot is flushed by the same code)
#include "sh.h"
#include "concurrency_control/include/lpwal.h"
#include "datastore/limestone/include/limestone_api_helper.h"
using namespace shirakami;

static vf_u64 begins, ends, outside, wrong_channel;
static vf_u64 sent, kind, s_st, s_key, s_val, s_major;
static vf_u64 watched;
static limestone::api::log_channel* the_channel;
static lpwal::handler* the_handle;

static log_operation op_of(vf_u64 i) {
    vf_u64 o = vf_in_at("op", i) & 7U;
    return o == 0 ? log_operation::INSERT : o == 1 ? log_operation::UPDATE : o == 2 ? log_operation::UPSERT : o == 3 ? log_operation::DELETE : o == 4 ? log_operation::ADD_STORAGE : o == 5 ? log_operation::REMOVE_STORAGE : log_operation::UPSERT;
}
static vf_u64 kind_of(log_operation o) {
    return o == log_operation::DELETE ? 2 : o == log_operation::ADD_STORAGE ? 3 : o == log_operation::REMOVE_STORAGE ? 4 : 1;
}
static void send(limestone::api::log_channel* c, vf_u64 k, vf_u64 st, vf_u64 key, vf_u64 val, vf_u64 major, vf_u64 minor) {
    if (c != the_channel) { ++wrong_channel; }
    if (begins != ends + 1) { ++outside; }
    // the entries are numbered by their minor version
    if (minor == watched) {
        ++sent;
        kind = k;
        s_st = st;
        s_key = key;
        s_val = val;
        s_major = major;
    }
}
namespace shirakami {
void begin_session(limestone::api::log_channel* c) {
    if (c != the_channel) { ++wrong_channel; }
    ++begins;
}
void end_session(limestone::api::log_channel* c) {
    if (c != the_channel) { ++wrong_channel; }
    ++ends;
}
void add_entry(limestone::api::log_channel* c, limestone::api::storage_id_type st, std::string_view key, std::string_view val, limestone::api::epoch_t major, std::uint64_t minor,
               const std::vector<blob_id_type>&) {
    send(c, 1, st, key.tok_, val.tok_, major, minor);
}
void remove_entry(limestone::api::log_channel* c, limestone::api::storage_id_type st, std::string_view key, limestone::api::epoch_t major, std::uint64_t minor) {
    send(c, 2, st, key.tok_, 0, major, minor);
}
void add_storage(limestone::api::log_channel* c, limestone::api::storage_id_type st, limestone::api::epoch_t major, std::uint64_t minor) { send(c, 3, st, 0, 0, major, minor); }
void remove_storage(limestone::api::log_channel* c, limestone::api::storage_id_type st, limestone::api::epoch_t major, std::uint64_t minor) { send(c, 4, st, 0, 0, major, minor); }
}
static bool as_logged(vf_u64 k) {
    vf_u64 x = kind_of(op_of(k));
    return kind == x && s_st == vf_in_at("st", k) && s_major == vf_in_at("major", k) && (x > 2 || s_key == vf_in_at("key", k)) && (x != 1 || s_val == vf_in_at("val", k));
}
static bool cand_sent(void* p) { return sent == 1 && as_logged(*static_cast<vf_u64*>(p)); }
static bool cand_unsent(void*) { return sent == 0; }
static bool cand_inside(void*) { return outside == 0 && wrong_channel == 0 && begins == 1 && ends == 0; }

static void prepare(lpwal::handler& h, vf_u64 n, vf_u64& k) {
    new (&h.mtx_logs_) std::mutex();
    new (&h.logs_) lpwal::handler::logs_type();
    begins = n == 0 ? 0 : 1;
    ends = outside = wrong_channel = sent = 0;
    the_channel = h.log_channel_ptr_;
    the_handle = &h;
    h.begun_session_ = n != 0;
    h.set_min_log_epoch(vf_in("oldest"));
    vf_assume((vf_in("oldest") == 0) == (n == 0));
    vf_fill_n(h.logs_, n, [](vf_u64 i) {
        return lpwal::log_record(op_of(i), lpwal::write_version_type(vf_in_at("major", i), i), vf_in_at("st", i), vf_view_of(vf_in_at("key", i)), vf_view_of(vf_in_at("val", i)),
                                 std::vector<blob_id_type>());
    });
    watched = k;
}
static void flushed(lpwal::handler& h, vf_u64 k, bool some) {
    VF_ASSERT(sent == (some ? 1U : 0U), "every entry is sent once");
    VF_ASSERT(!some || as_logged(k), "with its operation, storage, key, value and version");
    VF_ASSERT(outside == 0 && wrong_channel == 0, "inside a log session of the channel of the session");
    VF_ASSERT(begins == ends && !h.get_begun_session(), "the log session is ended");
    VF_ASSERT(h.get_logs().empty() && h.get_min_log_epoch() == 0, "nothing remains in the buffer");
    VF_ASSERT(vf_held(&h.mtx_logs_) == 0, "the buffer is released");
}
VF_HARNESS(flushes) {
    auto* ti = vf_session();
    auto& h = ti->get_lpwal_handle();
    vf_u64 n = vf_size("n"), k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    prepare(h, n, k);
    vf_candidate(&cand_sent, &k);
    vf_candidate(&cand_unsent, &k);
    vf_candidate(&cand_inside, &k);
    lpwal::flush_log(ti);
    if (h.get_logs().size() != 0) {
        // someone else has the buffer
        VF_ASSERT(h.get_logs().size() == n && h.get_begun_session() && sent == 0 && begins == 1 && ends == 0, "a buffer in use is left as it is");
    } else {
        flushed(h, k, true);
    }
    VF_DONE();
}
VF_HARNESS(flushes_nothing) {
    auto* ti = vf_session();
    auto& h = ti->get_lpwal_handle();
    vf_u64 k = 0;
    prepare(h, 0, k);
    lpwal::flush_log(ti);
    flushed(h, k, false);
    VF_ASSERT(begins == 0, "no log session is begun for nothing");
    VF_DONE();
}
VF_HARNESS(appends) {
    auto* ti = vf_session();
    auto& h = ti->get_lpwal_handle();
    vf_u64 n = vf_size("n"), k = vf_in("k");
    prepare(h, n, k);
    h.durable_epoch_ = vf_in("durable");
    epoch::set_global_epoch(vf_in("global"));
    lpwal::log_record r(op_of(n), lpwal::write_version_type(vf_in_at("major", n), n), vf_in_at("st", n), vf_view_of(vf_in_at("key", n)), vf_view_of(vf_in_at("val", n)), std::vector<blob_id_type>());
    h.push_log(r);
    VF_ASSERT(h.get_logs().size() == n + 1, "one entry is added");
    auto& e = h.get_logs()[n];
    VF_ASSERT(e.get_operation() == op_of(n) && e.get_st() == vf_in_at("st", n) && e.get_key() == vf_view_of(vf_in_at("key", n)) && e.get_val() == vf_view_of(vf_in_at("val", n)) &&
                      e.get_wv().get_major_write_version() == vf_in_at("major", n) && e.get_wv().get_minor_write_version() == n,
              "with its operation, storage, key, value and version");
    if (k < n) {
        auto& o = h.get_logs()[k];
        VF_ASSERT(o.get_operation() == op_of(k) && o.get_st() == vf_in_at("st", k) && o.get_key() == vf_view_of(vf_in_at("key", k)) && o.get_wv().get_minor_write_version() == k, "the entries before stay");
    }
    VF_ASSERT(begins == ends + 1 && h.get_begun_session() && wrong_channel == 0, "a log session is open while there are entries");
    VF_ASSERT(h.get_durable_epoch() == (n == 0 ? vf_in("global") : vf_in("durable")), "the epoch of the log session is the one in which it began");
    VF_ASSERT(h.get_min_log_epoch() == (n == 0 ? vf_in_at("major", 0) : vf_in("oldest")), "the buffer knows the version of its first entry");
    VF_DONE();
}
extern "C" session* table_begin(session* t) { return t; }
extern "C" session* table_end(session* t) { return t + 1; }
VF_HARNESS(flushes_at_shutdown) {
    auto* t = session_table::get_session_table().begin();
    auto& h = t[0].get_lpwal_handle();
    vf_u64 n = vf_size("n"), k = vf_in("k");
    vf_assume(k < n);
    vf_expose(k);
    prepare(h, n, k);
    vf_candidate(&cand_sent, &k);
    vf_candidate(&cand_unsent, &k);
    vf_candidate(&cand_inside, &k);
    lpwal::flush_remaining_log();
    flushed(h, k, true);
    VF_DONE();
}
