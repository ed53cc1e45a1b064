// C25: result information
//@property C25: *
//@sources src/concurrency_control/result_info.cpp src/concurrency_control/session.cpp
//@opt * unroll=3
//@assumed named: one storage is registered
#include "concurrency_control/include/session.h"
#include "storage.h"
#include "sh.h"
using namespace shirakami;

static reason_code reason(const char* s) {
    vf_u64 r = vf_in(s) & 15U;
    vf_assume(r < 12);
    return static_cast<reason_code>(r);
}
static void any(result_info& i) {
    i.reason_code_ = reason("before");
    i.has_key_info_ = vf_flag("has_key");
    i.has_storage_name_info_ = vf_flag("has_name");
    i.key_ = vf_str("old_key");
    i.storage_name_ = vf_str("old_name");
}
VF_HARNESS(cleared) {
    result_info i;
    any(i);
    i.clear();
    VF_ASSERT(i.get_reason_code() == reason_code::UNKNOWN, "a new transaction starts without a reason");
    VF_ASSERT(!i.get_has_key_info(), "without a key");
    VF_ASSERT(!i.get_has_storage_name_info(), "without a storage");
    VF_DONE();
}
VF_HARNESS(fresh) {
    result_info i;
    VF_ASSERT(i.get_reason_code() == reason_code::UNKNOWN && !i.get_has_key_info() && !i.get_has_storage_name_info(), "new result information is empty");
    result_info j(reason("r"));
    VF_ASSERT(j.get_reason_code() == reason("r") && !j.get_has_key_info() && !j.get_has_storage_name_info(), "result information made for a reason has that reason only");
    VF_DONE();
}
VF_HARNESS(set_reason) {
    result_info i;
    any(i);
    auto r = reason("r");
    i.set_reason_code(r);
    VF_ASSERT(i.get_reason_code() == r, "the reason set is reported");
    VF_ASSERT(r == reason_code::UNKNOWN || i.get_has_key_info() == vf_flag("has_key"), "setting a reason leaves the key");
    VF_ASSERT(r == reason_code::UNKNOWN || i.key_ == vf_str("old_key"), "setting a reason leaves the key as it was");
    VF_ASSERT(i.get_has_storage_name_info() == vf_flag("has_name") && i.storage_name_ == vf_str("old_name"), "setting a reason leaves the storage");
    VF_DONE();
}
VF_HARNESS(set_key) {
    result_info i;
    any(i);
    auto key = vf_str("key");
    i.set_key(key);
    VF_ASSERT(i.get_has_key_info() && i.key_ == key, "the key set is reported");
    VF_ASSERT(i.get_reason_code() == reason("before"), "setting a key leaves the reason");
    VF_ASSERT(i.get_has_storage_name_info() == vf_flag("has_name") && i.storage_name_ == vf_str("old_name"), "setting a key leaves the storage");
    VF_DONE();
}
VF_HARNESS(set_name) {
    result_info i;
    any(i);
    auto name = vf_str("name");
    i.set_storage_name(std::string_view(name));
    VF_ASSERT(i.get_has_storage_name_info() && i.storage_name_ == name, "the storage set is reported");
    VF_ASSERT(i.get_reason_code() == reason("before"), "setting a storage leaves the reason");
    VF_ASSERT(i.get_has_key_info() == vf_flag("has_key") && i.key_ == vf_str("old_key"), "setting a storage leaves the key");
    VF_DONE();
}
VF_HARNESS(named) {
#ifndef VF_NATIVE
    new (&storage::mtx_key_handle_map_) std::shared_mutex();
    new (&storage::key_handle_map_) std::unordered_map<std::string, Storage>();
#else
    storage::key_handle_map_.clear();
#endif
    auto name = vf_str("name");
    vf_u64 registered = vf_in("registered"), st = vf_in("storage");
    storage::key_handle_map_[name] = registered;
    result_info i;
    any(i);
    auto key = vf_str("key");
    i.set_key_storage_name(key, st);
    VF_ASSERT(i.get_has_key_info() && i.key_ == key, "the key of the failure is reported");
    VF_ASSERT(st != registered || (i.get_has_storage_name_info() && i.storage_name_ == name), "the storage of the failure is reported by its name");
    VF_ASSERT(st == registered || i.storage_name_ == vf_str("old_name"), "no other storage is named");
    VF_ASSERT(i.get_reason_code() == reason("before"), "the reason stays");
    VF_DONE();
}
VF_HARNESS(of_session) {
    auto* ti = vf_session();
#ifndef VF_NATIVE
    new (&ti->result_info_) result_info();
#endif
    any(ti->get_result_info());
    auto r = reason("r");
    ti->set_result(r);
    VF_ASSERT(ti->get_result_info().get_reason_code() == r, "the session reports the reason of the failure");
    VF_ASSERT(ti->get_result_info().storage_name_ == vf_str("old_name"), "and leaves the storage");
    VF_DONE();
}
